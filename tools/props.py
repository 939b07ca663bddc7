#!/usr/bin/env python3
"""Single source of properties.jsonl: run `python3 tools/props.py` in /verif to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

BS="common/bitset/bitset.go"
# ---------------------------------------------------------------- bitset
p("B01","A bitset is exactly the set of indices its history says it is",
 "After any history of creating, setting, unsetting, filling and copying, asking a bitset about an index answers true exactly when that index was set (or filled) more recently than it was unset, whether or not the index lies inside the bitset. An operation on one index never changes the answer for any other index, unsetting an index that is not set changes nothing, and the reported size is the larger of the initial size and one more than the highest index ever set. A copy is equal to its original and neither is affected by later changes to the other.",
 ["inputs","histories"],"every bitset content and size, every index (including word boundaries and indices out of range), every sequence of operations",
 "The tests set and unset random indices, always unsetting an index that was just set; the fixed seed draws the same indices each run, so most boundaries and set/unset orders are never seen.",
 [BS],[("Set/Unset/Get/Fill/Copy/NewBitset",BS)],[("bitset words and size","membership bits and declared size",BS)],["Get, Size on any bitset"])
p("B02","Count, Full and Fill agree with membership",
 "The count of a bitset equals the number of indices that are members; it is full exactly when every index below its size is a member (an empty bitset is full); filling makes every index below the size a member, adds no index at or above the size, and leaves the size unchanged.",
 ["inputs"],"every size (including multiples of the word size and zero) and every content",
 "The tests try a handful of sizes with all-set or all-clear contents; which single missing bit is overlooked depends on size and position.",
 [BS],[("Count/Full/Fill",BS)],(),["Count, Full, Fill, Size, Get"])
p("B03","Range and item queries describe membership exactly",
 "The filled ranges of a bitset are the maximal runs of members below its size as inclusive start/end pairs in increasing order, the unfilled ranges are the maximal runs of non-members below its size, and the first-n-unfilled query returns the n smallest non-members below its size (all of them if there are fewer). The overlap of a bitset with a sorted list of disjoint inclusive ranges is the list of maximal runs of members inside each of those ranges, in order; a list of odd length never crashes the query.",
 ["inputs"],"every content, every size up to the 65536 chunks a file may have, every query list",
 "Tests check about a dozen hand-written contents; off-by-one errors at run ends, word boundaries and the end of the bitset depend on content, size and query together.",
 [BS,"common/range.go"],[("filledRanges, Ranges, Overlap, UnfilledRanges, UnfilledItems",BS)],(),["Ranges, Overlap, UnfilledRanges, UnfilledItems"])
p("B04","Bitset serialisation is lossless and rejects malformed data",
 "Deserialising what a bitset serialises to gives a bitset of the same size with the same members, which shares no storage with the original or the serialised bytes. Deserialising any byte string either gives a usable bitset or returns an error; it never crashes, and a bitset it returns never crashes when queried, filled or serialised again.",
 ["inputs","crash_points"],"every bitset and every byte string, including truncated ones",
 "The serialisation test round-trips one random bitset and never feeds malformed or truncated bytes, which is what a crash while writing a progress file leaves behind.",
 [BS,"catalogue/progressFile.go"],[("Serialize/Deserialize",BS)],(),["Serialize, Deserialize"])
p("B05","Union and intersection are set algebra",
 "The union of two bitsets has a member exactly where either has one, and the intersection exactly where both have one, whichever of them is longer; the size of the union is the larger and that of the intersection the smaller of the two sizes. Neither operand is changed and the result shares no storage with them.",
 ["inputs"],"every pair of bitsets of every pair of sizes",
 "One random pair is tested, in one order of lengths, and sizes and aliasing are not checked.",
 [BS],[("Union/Intersect/shorterFirst",BS)],(),["Union, Intersect, then Get/Size/Set"])
# ---------------------------------------------------------------- hashes
SH="common/sha1Hash.go"
p("H01","Hash values convert exactly and invalid text or bytes are refused",
 "A hash survives conversion to its hexadecimal text and back (in either letter case) and to a byte slice and back unchanged. The checked conversions accept exactly 40 hexadecimal digits, or exactly 20 bytes; anything else gives an error and leaves the hash as it was. The blank hash is recognised as blank and no other hash is, and a copied slice is independent of the hash while the shared one is not.",
 ["inputs"],"every 20-byte hash, every text and byte slice",
 "There is no test of the hash type at all; it is exercised with a single constant.",
 [SH],[("String/FromStringSafe/FromSliceSafe/IsBlank/SliceCopy",SH)],(),["Sha1Hash methods"])
p("H02","Content hashes cover exactly the bytes of the content",
 "The hash of a file, and the hash and size of a chunk, are those of exactly its bytes from first to last, however the operating system splits the reads (short reads, data returned together with the end of file, empty reads). A read error is never turned into a hash of only part of the content and never makes hashing run forever.",
 ["inputs","fault_sequences"],"every content, every way of splitting the reads, every position of a read error",
 "Tests hash three small files with whole reads; nothing makes reads short or failing.",
 ["common/utils.go","common/chunkReader.go"],[("HashFile","common/utils.go"),("NewChunkReader","common/chunkReader.go")],(),["HashFile, NewChunkReader"])
p("R01","Reading a chunk yields each of its bytes once, at its true offset",
 "Reading a chunk to the end with any sequence of buffer sizes returns its bytes in order, each exactly once, and reports with each piece the offset in the chunk where that piece starts. The chunk covers exactly its own section of the underlying file, and after a reset reading starts again at offset zero with the same content.",
 ["inputs","histories"],"every section of every content, every sequence of buffer sizes, resets at any point",
 "The chunk reader test only compares the hash of chunk 0 and never reads through it (its TODO says offsets are uncovered).",
 ["common/chunkReader.go"],[("Read/Offset/Reset","common/chunkReader.go")],(),["ChunkReader.Read, Offset, Reset"])
# ---------------------------------------------------------------- messages
ME=["flu/messages/msgDiscoverHosts.go","flu/messages/msgListFiles.go","flu/messages/msgConnection.go","flu/messages/msgDataPacket.go","flu/messages/parse.go","flu/messages/utils.go"]
p("M01","Every control message survives the wire unchanged",
 "Parsing the serialised form of any discovery request or response, list request or response, open-connection request or acknowledgement that fits its format (at most 255 chunk numbers, file names of at most 255 bytes) gives a message of the same kind with every field equal. Trailing padding after the message does not change the result, and the first byte identifies the kind.",
 ["inputs"],"every value of every field, list lengths and name lengths up to the format's limits, any padding",
 "Tests round-trip one or two constant messages per kind; byte-order, width and offset mistakes that those constants happen not to show are missed.",
 ME,[("Serialize methods","flu/messages"),("Parse","flu/messages/parse.go")],(),["Serialize, Parse, Type"])
p("M02","Parsing arbitrary bytes never crashes and never invents content",
 "Parsing any byte string, including an empty, truncated or random one, returns either a message or an error and never crashes. A message is returned only if every field lies inside the given bytes: truncating a valid message anywhere gives an error, never a message with made-up fields.",
 ["inputs"],"every datagram of every length",
 "No test parses anything but the output of Serialize; the daemon parses whatever arrives on an open UDP port.",
 ME,[("byteReader bounds, Parse","flu/messages/parse.go")],(),["Parse"])
p("M03","Oversized fields are cut to what the format can carry, never garbled",
 "Serialising a discovery message with more chunk numbers than fit, or a file entry with a name longer than 255 bytes, produces a message that still parses, in which the chunk list is a prefix of the original made of whole start/end pairs (all that fit) and the name is its first 255 bytes, with all other fields and all following entries intact.",
 ["inputs"],"every list length and name length, in particular those around and beyond 255",
 "No test uses a list longer than three or a name near the limit; a length byte that wraps at 256 shows only beyond it, e.g. for a download with more than 127 separate ranges.",
 ME,[("chunk count byte","flu/messages/msgDiscoverHosts.go"),("SerializeString255","flu/messages/utils.go")],(),["Serialize then Parse"])
p("M04","Data packets carry offset, header and payload exactly",
 "Parsing a serialised data packet gives the same offset and the same payload bytes; an acknowledgement carries its offset unchanged. Splitting an initial packet gives exactly the hash, the total size and the remaining payload that were put in. Packets too short to hold these fields never crash the reader of the packet.",
 ["inputs"],"every offset, payload and length, including truncated packets",
 "Data packets and acknowledgements have no tests.",
 ["flu/messages/msgDataPacket.go"],[("DataPacket.Serialize/Split, ParseAsDataPacket, DataPacketAck.Serialize","flu/messages/msgDataPacket.go")],(),["DataPacket, ParseAsDataPacket, Split"])
# ---------------------------------------------------------------- catalogue
CA="catalogue/catalogue.go"; IF="catalogue/indexFile.go"; IR="catalogue/indexRecord.go"; PF="catalogue/progressFile.go"
st=[("index","content hash -> record, in memory and in index.json",IF),("progress","bitset of chunks held, one file per record",PF)]
p("K01","The catalogue survives a restart unchanged",
 "After any history of sharing, registering downloads, saving chunks and unsharing, a catalogue opened afresh on the same directory lists exactly the same files with the same path, size, hash, chunk size and set of chunks held as the one that made the changes. Opening a catalogue never alters the records in it, and opening one in an empty directory gives an empty catalogue.",
 ["histories","inputs"],"every history of catalogue operations and every value of the recorded fields, restarted at any point between operations",
 "The marshalling test round-trips two constant records in memory; no test performs an operation and reopens the catalogue.",
 [CA,IF,IR,PF],[("indexFile.save/Init, MarshalJSON/UnmarshalJSON",IF),("progressFile.save/deserializeProgressFile",PF)],st,["NewCat+Init, ListFiles, Contains"])
p("K02","One record per content; sharing and unsharing touch nothing else",
 "Sharing or registering content that is already in the catalogue is refused with an error and changes nothing; otherwise it adds exactly one record. Unsharing removes exactly that record and its progress, leaves the file itself and every other record as they were, and afterwards the same content can be shared or registered again with fresh progress; unsharing unknown content is an error that changes nothing.",
 ["histories","inputs"],"every interleaving of share, register, unshare over equal and different contents",
 "No test calls any of these operations.",
 [CA,IF],[("AddIndexRecord/RemoveIndexRecord",IF),("ShareFile/RegisterDownload/UnshareFile",CA)],st,["ShareFile, RegisterDownload, UnshareFile, ListFiles"])
p("K03","Chunk accounting matches the file size",
 "A shared file is recorded with its true absolute path, size and content hash, its number of chunks is its size divided by the chunk size rounded up, and it holds all of them. A newly registered download has the number of chunks its size and chunk size imply and holds none of them. Metadata from a peer that no file can have (zero chunk size, impossible sizes or more chunks than the protocol can number) is refused with an error and leaves no record behind; it never crashes the daemon.",
 ["inputs"],"every file size and chunk size, in particular exact multiples, zero and extreme peer-supplied values",
 "No test shares or registers a file; only particular sizes show a wrong rounding or a missing validation.",
 [CA,IR,PF],[("newProgressFile chunk count",PF),("generateIndexRecordForFile",IR),("RegisterDownload",CA)],st,["ShareFile, RegisterDownload and their records"])
p("K04","Chunks are stored and served at exactly their place in the file",
 "Saving a chunk writes its bytes at chunk number times chunk size in the file and changes no byte belonging to any other chunk; data of the wrong length for that chunk, or a chunk number the file does not have, is refused and changes nothing, and saving a chunk that is already held leaves the file as it is. Reading a held chunk yields exactly the file's bytes of that chunk, the last chunk ending at the end of the file. Once all chunks of a file are saved in any order, the file on disk is exactly their concatenation.",
 ["inputs","histories"],"every file size, chunk size, chunk number, content and order of saving",
 "Neither saving nor reading chunks through the catalogue is tested, and chunk-reader tests only use offset 0.",
 [IR,CA],[("saveChunk/getChunkReader offsets",IR)],st,["SaveChunk, GetChunkReader, file contents"])
p("K05","Progress says exactly which chunks are held",
 "A chunk is served only if it is held; after a successful save exactly that chunk becomes held, and no other chunk's state ever changes. A download is complete exactly when all of its chunks have been saved, and the missing chunks reported are exactly the chunks not yet saved, as increasing maximal ranges. A save that fails does not make its chunk held. All chunks of a shared file are held from the start. A restart changes nothing in this.",
 ["histories","fault_sequences","inputs"],"every order and repetition of saves over every chunk count, including word-boundary counts, and failing writes",
 "Catalogue progress is untested; bitset tests do not cover its use for transfers.",
 [CA,PF,IR],[("SaveChunk -> progress Set -> save",CA),("FileComplete/MissingChunks/GetChunkReader gate",CA)],st,["FileComplete, MissingChunks, GetChunkReader, ListFiles"])
p("K06","A crash at any moment leaves a usable, truthful catalogue",
 "If the daemon stops at any point during an operation, including halfway through any file write, then on restart the catalogue opens, lists its files without error, and for every record shows the state from either before or after the interrupted operation. No chunk is recorded as held unless its bytes were fully written to the file.",
 ["crash_points","histories"],"a crash before, after or in the middle of every file-system step of every operation",
 "Tests never interrupt an operation.",
 [CA,IF,PF,IR],[("order and atomicity of index.json, progress and data writes",CA)],st,["reopen after crash: Init, ListFiles, Contains, GetChunkReader"])
p("K07","Nothing outside the catalogue and download directories is written",
 "Whatever file name a peer announces, a registered download's file lies directly in the download directory under a plain file name, so saving its chunks creates or changes no file elsewhere. Catalogue operations otherwise write only inside the catalogue directory, and never modify or delete a shared file.",
 ["inputs"],"every file name a peer can send, including separators, dot-dot, empty and absolute names",
 "No test registers a download at all, let alone with a hostile name.",
 [CA,IR],[("RegisterDownload path construction",CA)],st,["set of paths opened for writing, removed or renamed"])
p("K08","What the catalogue hands out is a private copy",
 "Changing anything in a listing, or in a record returned by looking content up or registering a download (its progress, hash, path or sizes), never changes the catalogue, and later changes to the catalogue never change what was handed out.",
 ["histories","inputs"],"every record state and every later operation on either side",
 "No test obtains an export and then mutates either side.",
 [CA,IR,PF],[("export/Export deep copy",IR)],st,["ListFiles, Contains, Get then mutate"])
p("K09","Concurrent catalogue calls neither race nor deadlock",
 "Any two catalogue operations called at the same time from different goroutines complete without deadlock and without unsynchronised access to shared state, and their combined effect is that of running them one after the other in some order.",
 ["schedules"],"every interleaving of every pair of catalogue operations",
 "All tests are single-threaded and run without the race detector.",
 [CA],[("Cat.lock",CA)],st,["pairs of public Cat methods"])
p("K10","Disk errors are reported and never lose or invent records",
 "If any file-system step of a catalogue operation fails, the operation returns an error rather than reporting success, does not crash, and releases the catalogue for further use. A catalogue reopened afterwards still opens and contains every record and held chunk that earlier successful operations produced.",
 ["fault_sequences"],"a failure at each file-system step of each operation",
 "Tests never inject a failing write, rename, remove or open.",
 [CA,IF,PF,IR],[("error returns of ShareFile/RegisterDownload/UnshareFile/SaveChunk",CA)],st,["errors returned; reopened catalogue"])
# ---------------------------------------------------------------- server
SV="flu/server.go"; DI="flu/serverDiscoverHosts.go"; LI="flu/serverListFilesOnHost.go"; SU="flu/serverStartUpload.go"; CU="flu/serverContinueUpload.go"; SD="flu/serverStartDownload.go"; SC="flu/senderConnection.go"; RC="flu/recvConnection.go"
p("F01","No datagram can crash, stop or hang the daemon",
 "Whatever bytes a datagram contains, whoever sent it and whatever the catalogue holds, handling it returns (possibly with an error): it never crashes or exits the process, never blocks forever, and leaves the server able to answer the next request.",
 ["inputs","histories"],"every datagram content and length, sender address form, catalogue state and preceding datagrams",
 "The server package has no tests; sockets are never run.",
 [SV,DI,LI,SU,CU,"flu/messages/parse.go","flu/ipv4.go"],[("HandleMessage dispatch",SV)],(),["HandleMessage, then a well-formed request"])
p("F02","Discovery answers tell the truth about held chunks",
 "A discovery request is answered to the requester's address with its request number, this host's address and port, and exactly the ranges of chunks held of the requested file (the first 127 of them if there are more): within the requested ranges if any were given, all otherwise. A request for the blank hash or for content not in the catalogue is answered with no chunks.",
 ["inputs","histories"],"every request, every catalogue state and progress",
 "The server package has no tests.",
 [DI,CA],[("RespondToDiscoverHosts",DI)],(),["datagrams sent in response to a discovery request"])
p("F03","Listing a host returns exactly its catalogue",
 "A list request is answered to the requester with its request number and one entry per catalogue record (or only the one asked for, when a hash is given), each with the file's size, number of chunks, chunk size, number of chunks held, hash and base name. Asking for content the host does not have never yields an entry. The requesting side returns exactly the entries the answering host sent, or an error.",
 ["inputs","histories"],"every catalogue state and requested hash",
 "The server package has no tests.",
 [LI,CA,"flu/messages/msgListFiles.go"],[("RespondToListFilesOnHost / ListFilesOnHost",LI)],(),["response datagram; ListFilesOnHost result"])
p("F04","Concurrent requests get distinct numbers",
 "Any 65536 consecutive request numbers issued by a server are pairwise distinct, also when they are drawn concurrently, so no two outstanding discovery or list requests share a number.",
 ["schedules","histories"],"every counter state and every interleaving of callers",
 "No test draws request numbers, sequentially or concurrently.",
 [SV],[("generateRequestID under reqIDLock",SV)],[("reqID","next request number",SV)],["request numbers inside outgoing requests"])
p("F05","Discovery returns its own answers, all of them, and always returns",
 "A discovery returns after its waiting time with exactly the responses carrying its own request number that arrived while it waited, in whatever number and order they arrive, never a response meant for another request or of another kind. Late or unsolicited responses are discarded without blocking the server or any present or future discovery.",
 ["schedules","histories"],"every number of responses and every interleaving of their arrival with the timeout and with other discoveries",
 "The server package has no tests; the deadlock window needs particular timing.",
 [SV,DI],[("registerResponseChan/unregisterResponseChan/deliverResponse",SV),("DiscoverHosts select loop",DI)],[("resMap","outstanding requests",SV)],["DiscoverHosts results; HandleMessage returning"])
p("F06","An upload sends exactly the requested chunk",
 "When a peer opens a connection for a chunk this host holds and acknowledges packets, the packets sent to it consist of an initial packet with the chunk's hash, its size and its first bytes, then packets each carrying the chunk's bytes at their stated offset, which together cover the chunk completely, and finally an empty packet. No packet exceeds what the receiver's buffer holds, and a request for a chunk not held sends nothing.",
 ["inputs","histories"],"every chunk content and size, window size and acknowledgement sequence",
 "Uploads are untested.",
 [SU,CU,SC,"common/chunkReader.go"],[("kickstart/kick",SC)],(),["datagrams sent to the peer"])
p("F07","The send window is respected and uploads always make progress",
 "A sender never has more unacknowledged data packets in flight than the receiver's announced window allows (one if the window is zero). As long as every packet is acknowledged and the window is at least one, the upload finishes with an empty packet, after which its worker ends; extra or duplicate acknowledgements never crash the sender or block the server.",
 ["histories","schedules","inputs"],"every window size, chunk size and sequence of acknowledgements including duplicates and surplus ones",
 "Uploads are untested.",
 [SC,CU],[("windowSize/windowCap accounting",SC)],[("windowSize","packets in flight",SC)],["packets sent minus acknowledgements"])
p("F08","Uploads do not mix: each peer gets what it last asked for",
 "Uploads to different peers (different address or port) are independent: an acknowledgement from one never advances another. When a peer opens a new connection from an address and port used before, it receives the newly requested chunk from the start, whatever happened to the earlier upload.",
 ["histories","schedules"],"every sequence of open requests and acknowledgements from several peers and re-used ports",
 "Uploads are untested; re-used ports need a long history.",
 [SU,CU,SC],[("uploads map keyed by address and port",SU)],[("uploads","running uploads by peer",SV)],["datagrams sent per peer"])
p("F09","Only verified data is recorded as downloaded",
 "A chunk is saved and marked as held only if the received bytes are complete and their hash equals the hash announced for them. If packets are lost, duplicated, reordered or altered, either the saved chunk is byte-for-byte what was announced, or nothing is saved and the chunk stays missing, to be fetched again.",
 ["fault_sequences","inputs","schedules"],"every loss, duplication, reordering and corruption of packets",
 "Downloads are untested.",
 [SD,RC,CA],[("hash check before SaveChunk",SD)],(),["catalogue state and file after a download attempt"])
p("F10","No peer can crash a download",
 "Whatever packets a peer sends during a download (too short, wrong offsets, wrong sizes, out of order, empty, unsolicited) or whatever metadata and listings it announces, the daemon does not crash or hang, and its catalogue stays consistent.",
 ["inputs","fault_sequences"],"every packet sequence from a hostile or confused peer",
 "Downloads are untested.",
 [SD,RC,"flu/messages/msgDataPacket.go"],[("downloadChunk packet handling",SD)],(),["process survival; catalogue state"])
p("F11","Downloads start only from peers that have the file",
 "Starting a download of content no other host offers returns an error and records nothing. Hosts that report no chunks, and this host itself, are never chosen, and metadata is accepted only if it is about the requested content; the record then made has the size, chunk size and hash the peer announced. Chunks already held are not requested again and a download already recorded keeps its record.",
 ["inputs","histories"],"every set of discovery answers, every metadata answer and prior catalogue state",
 "Downloads are untested.",
 [SD,DI,LI],[("StartDownload/getGoodHosts/downloadMetaData",SD)],(),["StartDownload result, catalogue, open-connection requests sent"])
p("F12","A transfer between two daemons reproduces the file",
 "When one daemon shares a non-empty file and another downloads it over a network that delivers packets in order, the download completes and the resulting file is byte-for-byte the shared one, with its catalogue record complete.",
 ["inputs","schedules"],"every file content, size and chunk size (including sizes at packet and chunk boundaries)",
 "No test runs both ends of a transfer.",
 [SD,SU,SC,RC,CA],[("sender and receiver protocol together",SC)],(),["downloaded file and catalogue record"])
p("F13","Interrupted downloads are resumed where they stopped",
 "When a download is interrupted because its daemon was stopped at any point, asking for it again after a restart keeps every chunk recorded as held, fetches only the missing ones, and ends with exactly the announced content and a complete record. When instead the host that has the content stops and starts again, or some datagrams of the transfer are lost or arrive twice, the download goes on by itself once the host answers again and ends the same way.",
 ["crash_points","fault_sequences","histories"],"every point at which either daemon stops, every single datagram lost or doubled",
 "No test runs a download at all, let alone across a restart.",
 [SD,SC,RC,CA,PF],[("StartDownload on an extant record, retry loop",SD),("order of chunk data and progress on disk",CA)],(),["connections opened after the interruption; file and record at the end"])
p("F14","Bad hosts do not keep a download from completing",
 "Once a download is recorded, every chunk that some answering host holds and sends correctly is fetched in the end, whatever the other answering hosts do instead: stay silent, stop in the middle, send altered, too many or too few bytes, not have the chunk, or not be reachable. The chunks may come from different hosts; the download completes when together they hold all of them, and nothing wrong is saved meanwhile.",
 ["inputs","fault_sequences"],"every combination of good, partial and bad hosts in every order",
 "No test has more than one host.",
 [SD,RC,SU],[("loop over hosts, one attempt each",SD),("timeouts and errors of one connection",RC)],(),["connections opened to each host; file and record at the end"])
p("F15","Transfers of one host do not disturb each other",
 "Several downloads may run on a host at once. If the same content is asked for more than once, there is one record, no chunk is requested once it is held, and the file is right; contents announced under the same name get different files, each with its own content. Removing a record while its content is being downloaded or uploaded stops that download for good (it does not come back, and can be started again) and leaves every other transfer, and what is held elsewhere, as it was.",
 ["schedules","histories"],"every distance in time between the requests, every moment of removal, either side",
 "No test runs two transfers.",
 [SD,SU,CA],[("downloads map, MissingChunks and Contains",SD),("downloadPath",CA),("UnshareFile",CA)],(),["requests sent, records and files of all contents"])
p("F16","What is over leaves nothing open",
 "When a catalogue operation, a request to other hosts, a download or an upload is over - done, refused, failed or timed out - every file and socket it opened is closed and every goroutine it started has ended. A chunk reader that was handed out closes its file when it is closed. An upload is over when its last packet was sent, when reading or sending failed, or when its peer opened another connection.",
 ["fault_sequences","inputs","histories"],"every operation, with every one of its disk steps, sends or dials failing",
 "Tests never look at what stays open; a leak only shows in a daemon that runs for long.",
 [CA,IR,SD,SU,SC,RC],[("Close on every path of saveChunk, getChunkReader, HashFile",IR),("RecvConnection.Close, SenderConnection.finish",SC),("ListFilesOnHost reader goroutine",SD)],(),["number of open files, sockets and goroutines before and after"])
# ---------------------------------------------------------------- cli
p("L01","Share and list report exactly what the catalogue holds",
 "Sharing reports the recorded path, size, hash, chunk size, number of chunks and number held of that file (for sizes below 2^63). Listing locally reports these for every record and only for them; listing a remote host reports exactly the entries that host returned, with sizes and counts undistorted; an address that is not IPv4 gives an error, not a crash.",
 ["inputs","histories"],"every catalogue state, remote answer and address",
 "The cli package has no tests.",
 ["cli/cliMethodsShare.go","cli/cliMethodsList.go"],[("Methods.Share/List","cli")],(),["RPC replies"])
p("L02","Clean removes exactly the missing and the changed files",
 "Clean removes from the index exactly the completely downloaded files whose content no longer matches their hash or cannot be read, keeps every unchanged file, ignores downloads in progress (even before their first chunk arrives), and never changes or deletes a file's content. It reports one item per indexed file saying which of these happened, with the indexed and the current hash.",
 ["inputs","histories"],"every combination of unchanged, changed, missing and in-progress files",
 "The cli package has no tests.",
 ["cli/cliMethodsClean.go",CA],[("Methods.Clean","cli/cliMethodsClean.go")],(),["RPC reply, catalogue and files afterwards"])
p("L03","Printing any reply works and shows its true figures",
 "Every reply the command line can receive, including empty files, empty lists and malformed chunk lists from peers, is printed without crashing. A file's printed integrity is the whole percentage of its chunks that are held (100% for an empty file); its name, path, size, hash, chunk size and chunk counts are printed as they are, whatever characters they contain, and every host and every whole chunk range in a discovery reply is printed.",
 ["inputs"],"every reply value",
 "The cli package has no tests.",
 ["cli/cliMethodsShare.go","cli/cliMethodsChims.go","cli/cliMethodsList.go","cli/cliMethodsClean.go"],[("Sprintf methods","cli")],(),["Sprintf output"])
p("L04","Command lines are checked before anything is done",
 "Any command line is either carried out by exactly one request to the daemon, of the right kind and with the arguments given, or rejected with a message and no request; it never crashes the command. In particular missing arguments, superfluous ones where a fixed number is required, invalid hashes and invalid addresses are rejected.",
 ["inputs"],"every argument vector",
 "The cli package has no tests.",
 ["cli/cliClient.go"],[("Client.Run","cli/cliClient.go")],(),["RPC calls made by Client.Run"])
p("L05","Chims and get do and report exactly what the server does",
 "Chims asks the network once, for the hash given or for everybody, and reports every host that answered in time with the address, port and chunks it answered with, and nobody else. Get reports success exactly if the download of the content asked for is then in the catalogue as the network describes it (or was already) and somebody answered that they have it; otherwise it reports an error. Neither loses chunks that are already held.",
 ["inputs","histories"],"every set of answers, every state of the catalogue",
 "The cli package has no tests.",
 ["cli/cliMethodsChims.go","cli/cliMethodsGet.go"],[("Methods.Chims/Get","cli")],(),["RPC replies, catalogue afterwards"])
p("D01","The daemon answers every datagram and command, over restarts too",
 "Started with -d, the program opens the catalogue in the user's home directory, listens at its UDP port and at one local socket for commands. Every datagram that arrives at the port is handled as it was sent, whole up to the longest message of the protocol and whatever other datagrams are handled at the same time, and is answered to its own sender; datagrams that are no messages are dropped and never stop the daemon. What was shared before a restart is listed and offered after it. Without -d the program carries its arguments out as a command at that same socket.",
 ["inputs","schedules","histories"],"every sequence of datagrams and schedule of their handlers, every restart",
 "The main package has no tests, and handlers that disturb each other do so in few schedules.",
 ["main.go"],[("startDaemon, main","main.go")],(),["datagrams sent, RPC replies, RPC calls made"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
