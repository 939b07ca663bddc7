#!/usr/bin/env python3
"""Single source of checks.json and MANIFEST.json: run `python3 tools/gen.py` in /verif."""
import json
C = {}
NOTE = {}
def check(id, pkg, hs, outside, assume=(), note=""):
    C[id] = {"pkg": pkg, "harnesses": hs, "outside": list(outside), "assume": list(assume)}
    NOTE[id] = note
def h(fn, bounds, reach=(), **kw):
    d = {"fn": fn, "bounds": bounds}
    if reach: d["reach"] = list(reach)
    d.update(kw)
    return d

ENV_FS = "files behave as the in-memory file-system model env/vos does (POSIX calls, whole-call atomicity except where a crash or partial write is injected)"
ENV_SHA = "SHA-1 is collision free (modelled as an injective function of the content)"
ENV_NET = "UDP behaves as the model env/vnet does: datagrams are whole, may be lost, duplicated and reordered by the harness"
ENV_JSON = "encoding/json behaves as the executor's model of it (struct fields, maps, strings, integers)"

# ------------------------------------------------------------------ bitset
check("B01","hbitset",[
  h("B01Step","one Set/Unset/Fill with an arbitrary index up to 260 from an arbitrary bitset of any of the listed sizes up to 130; answer for an arbitrary 64-bit index", thorough={"maxindex":700}),
  h("B01Copy","copy of an arbitrary bitset, then a change at an arbitrary index below 200 of either", thorough={"maxindex":500}),
  h("B01History","histories of 3 operations with arbitrary indices below 130 on bitsets of initial size 0, 3, 64", thorough={"k":5}, ttimeout=900),
  h("B01Large","bitsets of 256 to 65536 bits, full or empty but for 2 arbitrary bits at the ends of 4 of their words; a change at or next to them", thorough={"large":8,"free":4},ttimeout=600)],
  ["arbitrary contents of bitsets of more than 260 bits"],(),
  "One arbitrary operation from an arbitrary valid state, so histories of any length within the size bound.")
check("B02","hbitset",[h("B02Ops","sizes 6 and 66, 2 free bits, every sequence of 2 of 12 operations (changes, copies, union, intersection, round trip) with the question asked or not before each",thorough={"k":3},ttimeout=900,maxsteps=400000000),
  h("B02Count","sizes 0,1,9 with arbitrary contents; sizes 64,66,130 with up to 6 arbitrary bits, all others equal"),
  h("B02Full","sizes 0..139, all set, none set, or an arbitrary one missing", thorough={"n":600}),
  h("B02Large","bitsets of 256 to 65536 bits, full or empty but for 2 arbitrary bits at the ends of 4 of their words", thorough={"large":8,"free":4},ttimeout=600)],["other contents of larger bitsets"])
check("B03","hbitset",[h("B03Ops","sizes 6 and 66, 2 free bits, every sequence of 2 of 12 operations (changes, copies, union, intersection, round trip) with the question asked or not before each",thorough={"k":3},ttimeout=900,maxsteps=400000000),
  h("B03Ranges","sizes 0..8 with arbitrary contents; sizes 64,70,128,130 with up to 6 arbitrary bits at the word boundaries, all others equal; 5 item counts", thorough={"small":11}, ttimeout=900),
  h("B03Overlap","6 arbitrary bits, every sorted list of up to 5 range ends in 0..7", thorough={"n":8,"lim":9}, ttimeout=900),
  h("B03OverlapWide","sizes 66,130,200 with 4 arbitrary bits at a word boundary, one or two ranges with ends around it", thorough={"free":6}, ttimeout=900),
  h("B03OverlapAny","lists of up to 3 values from 0,1,3,4,11..13,65534,65535, odd and unsorted too: no crash, only members reported"),
  h("B03Large","bitsets of 256 to 65536 bits, full or empty but for 2 arbitrary bits at the ends of 4 of their words", thorough={"large":6,"free":3},ttimeout=900,maxsteps=400000000),
  h("B03Top","the highest chunk numbers (65535)")],["contents with more than the stated number of free bits"])
check("B04","hbitset",[h("B04Ops","sizes 6 and 66, 2 free bits, every sequence of 2 of 12 operations (changes, copies, union, intersection, round trip) with the question asked or not before each",thorough={"k":3},ttimeout=900,maxsteps=400000000),
  h("B04RoundTrip","arbitrary contents, the listed sizes up to 130"),
  h("B04Arbitrary","arbitrary byte strings of up to 33 bytes", thorough={"len":80}),
  h("B04Queries","every bitset of up to 6 bits that is accepted from arbitrary 16 bytes, queried, filled and serialised", thorough={"max":9}, ttimeout=900),
  h("B04Large","bitsets of 256 to 65536 bits, full or empty but for 2 arbitrary bits at the ends of 4 of their words", thorough={"large":8,"free":4},ttimeout=600),
  h("B04Grown","10 sizes up to 1000, empty or full, grown twice to arbitrary indices up to 3 words beyond", thorough={"words":6})],["longer byte strings"])
check("B05","hbitset",[h("B05Ops","sizes 6 and 66, 2 free bits, every sequence of 2 of 12 operations (changes, copies, union, intersection, round trip) with the question asked or not before each",thorough={"k":3},ttimeout=900,maxsteps=400000000),
  h("B05Algebra","two arbitrary bitsets of sizes 0,1,6,63,64,65,130 in either order; membership of an arbitrary 64-bit index")],["larger bitsets"])
# ------------------------------------------------------------------ common
check("H01","hcommon",[h("H01Text","arbitrary strings of 40 characters and of 9 other lengths",("refused","accepted")),
  h("H01RoundTrip","every hash, both letter cases"),
  h("H01Slices","arbitrary slices of 6 lengths; independence of copies"),
  h("H01Blank","every hash")],["texts of other lengths than 0,1,2,20,38..42,80"])
check("H02","hcommon",[h("H02File","files of 9 lengths from 0 to 8193 bytes (short ones with arbitrary content), read in arbitrary pieces for the first 4 reads",thorough={"splits":6},ttimeout=600),
  h("H02Again","a file of 1..3 arbitrary bytes, then other content of the same or another length at the same or another path, with the same or another date"),
  h("H02FileError","a fault at any of the first 5 system calls",("fault",)),
  h("H02Chunk","sections of files of 7 lengths from 0 to 9000 bytes at 4 offsets with 6 sizes; end of file reported with or after the data"),
  h("H02ChunkError","a read error at any of the first 3 reads",("failed",))],["contents of more than 9000 bytes"],[ENV_SHA])
check("R01","hcommon",[h("R01Read","files of 7 arbitrary bytes, every section, 4 reads with buffers of 1,2,3,100 bytes, one reset at any point",("eof",),thorough={"reads":6,"total":8},ttimeout=900),
  h("R01Big","chunks of up to 5000 bytes in packets of 1000/1024")],["more reads, larger chunks"])
# ------------------------------------------------------------------ messages
check("M01","hmsg",[
  h("M01Twice","two messages of every pair of 6 kinds with arbitrary contents serialised and parsed next to each other, their bytes changed afterwards"),h("M01Discover","8 chunk counts (0..4, 127,128,254,255), all field values, 4 kinds of padding",thorough={"counts":10}),
  h("M01DiscoverResponse","as M01Discover",thorough={"counts":10}),
  h("M01ListRequest","all field values"),
  h("M01ListResponse","0..3 entries with names of 0,1,5,255 bytes, all field values",thorough={"files":4,"lens":7},ttimeout=900),
  h("M01ListMany","255, 256, 257, 700 and 1596 entries, one of them arbitrary"),
  h("M01Connection","all field values"),
  h("M01Ack","all field values")],["other name lengths and numbers of entries"])
check("M02","hmsg",[h("M02Fixed","arbitrary bytes, every length 0..64",("open","ack","unknown"),thorough={"n":200}),
  h("M02Discover","every announced number of chunks 0..255; every length where the whole message has up to 64 bytes, 10 lengths around the ends otherwise",("discover",),thorough={"max":600},ttimeout=900),
  h("M02List","0..2 entries with names of 0 or 2 bytes cut at every length; entry counts announced that are not there",("list",),thorough={"entries":3,"lens":3},ttimeout=900),
  h("M02Kinds","every unknown kind, lengths 1..60")],["longer arbitrary messages"])
check("M03","hmsg",[h("M03Chunks","10 list lengths from 254 to 1000, arbitrary contents",("cut",),thorough={"counts":12}),
  h("M03Names","1..3 entries with names of up to 512 bytes, arbitrary contents",("cut",))],["other lengths"])
check("M04","hmsg",[
  h("M04Twice","two packets with payloads of up to 100 arbitrary bytes, the bytes changed afterwards"),h("M04RoundTrip","payloads of 9 lengths up to 5000 bytes, arbitrary contents"),
  h("M04Split","payloads of 5 lengths up to 1000 bytes"),
  h("M04Short","arbitrary bytes, every length 0..39")],["payloads of other lengths"])

exec(open("tools/gen2.py").read()) if __import__("os").path.exists("tools/gen2.py") else None
exec(open("tools/gen3.py").read())
exec(open("tools/gen4.py").read())

props = [json.loads(l) for l in open("properties.jsonl")]
json.dump(C, open("checks.json","w"), indent=1)
NA = globals().get("NA", {})
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": [],
 "hooks": {"guard": "none", "enable": "no hooks in /repo: harnesses and environment models are put in through a go build overlay", "source_commits": []},
 "notes": "Each check runs the symbolic executor in engine/ on harnesses in harness/ over the code in /repo; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
         "technique": "symbolic execution of the real code (go/ssa) with SMT-decided branches and assertions (z3), counterexamples replayed natively",
         "level": "model_checking",
         "level_note": (NOTE[i]+" " if NOTE[i] else "")+"Holds for all values within the bounds listed per harness in checks.json; outside: "+"; ".join(C[i]["outside"])+(". Assumes: "+"; ".join(C[i]["assume"]) if C[i]["assume"] else "")+". Trusted: go/ssa, the executor (validated by native replay of sampled paths on every run), z3, the environment models."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open("MANIFEST.json","w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
