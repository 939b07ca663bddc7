
STATES = "5 starting states (empty; a share and a download; with saved chunks; two downloads after a restart; one unshared again)"
OPS = "share (2 files), register (2 downloads), save (4 chunks of arbitrary content), unshare (2)"
check("K01","hcat",[
  h("K01History","all histories of 4 operations out of 11 ("+OPS+", restart), chunk contents arbitrary; then reopened twice", params={"k":4}, thorough={"k":5}, ttimeout=900),
  h("K01Empty","an empty machine, or one of the two directories present"),
  h("K01Arbitrary","a registered download with arbitrary hash bytes, 4 chunk sizes, 1, 2, 64 or 65 chunks, every size with that number of chunks"),
  h("K01Paths","7 kinds of path: every name of 2 bytes, non-UTF-8, quotes and control characters, HTML characters, a space"),
  h("K01Moved","a copied catalogue directory is independent of the first")],
  ["longer histories","catalogues of more than 4 files"],[ENV_FS,ENV_SHA,ENV_JSON])
check("K02","hcat",[
  h("K02History","all histories of 4 operations out of 11 ("+OPS+", restart), the catalogue compared with the expected one after each", params={"k":4}, thorough={"k":5}, ttimeout=900),
  h("K02Names","same content under another name or as a download; new content under the same name; files that cannot be read"),
  h("K02Again","unsharing a download with 0..3 chunks saved, its chunks read before or not, restart before, after or not at all, then registering (and saving up to two chunks) or sharing again")],
  ["longer histories","catalogues of more than 4 files"],[ENV_FS,ENV_SHA,ENV_JSON])
check("K03","hcat",[
  h("K03Share","files of 0..3 arbitrary bytes, 9 spellings of their path, 3 of them through symbolic links"),
  h("K03Big","files of 2^22, 2^22+1, 2^23+5 bytes (thorough: also 2^22-1, 2^23)", thorough={"sizes":5}),
  h("K03Register","5 chunk sizes, 8 numbers of chunks up to 2^20, one byte more, one less, or exact",("impossible","possible")),
  h("K03Impossible","every size, chunk size and count that no file with 16-bit chunk numbers has"),
  h("K03Count","every size with 1,2,3,8,9,64,65 chunks (thorough: 14 numbers) of 5 chunk sizes, every announced count",("accepted",),thorough={"counts":14},ttimeout=900)],
  ["other chunk sizes and numbers of chunks"],[ENV_FS,ENV_SHA,ENV_JSON])
check("K04","hcat",[
  h("K04Save","every chunk number, 0..5 bytes of arbitrary data, onto every set of chunks saved before, for files of 3 and 2 chunks",("outside","length","saved","held")),
  h("K04Any","all orders of saving the chunks of files of 4 sizes with 3 chunk sizes, arbitrary content, no, a shorter or a longer older file in the way, a restart after the first chunk", thorough={"totals":5},ttimeout=600),
  h("K04Far","files of 1 to 65536 chunks and up to 280 GB: 6 numbers of chunks, chunk sizes arbitrary (those of more than 30000 chunks: 4 fixed ones), the chunks around the 2^31 and 2^32 byte borders, the first and the last"),
  h("K04Two","two downloads and a share under the same or similar names")],
  ["arbitrary contents and orders of files of more than 7 bytes or 7 chunks"],[ENV_FS,ENV_JSON])
check("K05","hcat",[
  h("K05Gaps","17, 40, 130 chunks (thorough: 520), every other one held but for one, before and after a restart",thorough={"counts":4},maxsteps=2000000000),
  h("K05Progress","3 saves (thorough: 4) of any chunk, one beyond the end included, each with or without the file being unwritable, on a download of 5 chunks; all answers compared after each", thorough={"saves":4},ttimeout=900),
  h("K05Shared","files of 5 sizes shared after or before another one, restarts, a download of the same content after unsharing"),
  h("K05Many","downloads of 64, 255..257, 1024, 1025, 65535 and 65536 chunks: saves of 2 chunks (thorough: 3) at the ends and word boundaries, restarts",thorough={"saves":3},ttimeout=900,maxsteps=400000000)],
  ["more saves and chunks"],[ENV_FS,ENV_JSON])
check("K06","hcat",[
  h("K06Crash",STATES+"; 10 operations ("+OPS+"); a stop before, in the middle of (5 prefixes; thorough: all) or after every change of the disk",("before","after","crashed"),thorough={"all":1},ttimeout=900),
  h("K06Two","two stops in a row, 3 first and 4 second operations (thorough: 7), 3 prefixes", params={"few":1}, thorough={"few":1,"states":3,"then":7}, ttimeout=900),
  h("K06Init","a stop while the catalogue is created or opened")],
  ["power failures that lose writes the system had accepted (no fsync is issued)","longer histories"],[ENV_FS,ENV_JSON])
check("K07","hcat",[
  h("K07Names","every name of up to 4 bytes (thorough: 5)",("refused","accepted","saved"),thorough={"len":5},ttimeout=900),
  h("K07Shapes","names of 2 (thorough: 3) out of 13 pieces (parents, separators, absolute paths, NUL, taken names), with or without 300 more characters",("refused","accepted","saved"),thorough={"pieces":3},ttimeout=900),
  h("K07Many","30 downloads under one of 3 names, shares in the place of some"),
  h("K07Shared","chunks of arbitrary number and up to 4 arbitrary bytes saved to a shared file of 0, 1 or 3 arbitrary bytes"),
  h("K07Relative","4 forms of the catalogue directory, 5 of the downloads directory (relative, with dots, not clean), the process changing its directory at any of 4 points"),
  h("K01History","every change of the disk in all histories of 3 operations", params={"k":3}, thorough={"k":4}, ttimeout=900)],
  ["symbolic links in the download directory","longer names"],[ENV_FS,ENV_JSON])
check("K08","hcat",[
  h("K08In","4 ways to get a record, 8 ways to change it, 2 starting states"),
  h("K08Out","2 (thorough: 3) operations out of 11 after records and listings were handed out in 2 starting states", thorough={"ops":3},ttimeout=600)],
  ["chunk readers, which share the file on disk by design"],[ENV_FS,ENV_JSON])
check("K09","hcat",[
  h("K09Pairs","every pair of 17 calls ("+OPS+", list, contains, get, complete, missing, read chunk, rehash) in two goroutines, in a catalogue in memory or just opened; all schedules with at most one preemption at synchronisation points (thorough: two, 2 starting states); happens-before race detection on every access", params={"states":1,"preempt":1}, thorough={"states":2,"preempt":2}, ttimeout=880)],
  ["three or more concurrent calls","more preemptions","weak memory effects (a race is itself reported)"],[ENV_FS,ENV_JSON])
check("K10","hcat",[
  h("K10Faults",STATES+", fresh or in use; 10 operations; each of the first 12 steps fails, writes with or without half of the data written",("fault",)),
  h("K10Persistent",STATES+"; 8 operations without unsharing; every step from any point on fails, also in a second operation"),
  h("K10Reads","6 reading calls, each of the first 8 steps fails",("fault",)),
  h("K10Open","opening a new or a filled catalogue, each of the first 12 steps fails",("fault",))],
  ["unsharing while all steps fail: whether the record stays is then not determined"],[ENV_FS,ENV_JSON])
