LOSS = "the requester's own buffers and sockets apart, the network is the model env/vnet"
check("F01","hflu",[
  h("F01Many","700 datagrams of each of 9 kinds from one sender or as many, answers sent or not",maxsteps=2000000000),
  h("F01Bytes","datagrams of arbitrary bytes, 15 lengths up to 37 (listings of more than 2 entries that are not there only for 65535: see M02)",thorough={"senders":1},ttimeout=900),
  h("F01Messages","every kind of message with arbitrary numbers, 4 hashes, 6 kinds of sender address, networks without addresses or that fail"),
  h("F01History","2 messages in a row (thorough: 3) out of 6 kinds from 2 senders, the disk failing or not, content removed meanwhile",thorough={"k":3},ttimeout=900),
  h("F01Pairs","every pair of 6 kinds of datagram handled at once, an upload running or not, schedules with at most one preemption at synchronisation points; race detection",thorough={"preempt":2},ttimeout=900)],
  ["longer datagrams of arbitrary bytes","more than two datagrams at once"],[ENV_NET,ENV_FS,ENV_SHA])
check("F02","hflu",[
  h("F02Discover","every progress of 4 chunks (thorough: 6), every list of up to 2 ranges around them, arbitrary request numbers and requesters",("known",),thorough={"chunks":6},ttimeout=900),
  h("F02Fresh","before and after saves, removal, restart"),
  h("F02Many","254, 256, 300 chunks, every other one held",("cut",)),
  h("F02Addresses","6 sets of addresses of the machine",("answered",))],
  ["more chunks with arbitrary progress (B03 covers the ranges)"],[ENV_NET,ENV_FS,ENV_JSON])
check("F03","hflu",[
  h("F03Respond","empty catalogue or a share, a download with 0..3 chunks held and one of arbitrary size, restart or not; asked for all, for each, for unknown content"),
  h("F03Ask","10 kinds of answer (right, for another request, of another kind, arbitrary bytes of 4 lengths, none, cut off, twice, ...) with arbitrary figures",("error","answer"),thorough={"lens":6}),
  h("F03Both","catalogues of 0, 1, 3, 40 files listed from one daemon to another"),
  h("F03Many","221 files with names of 255 bytes, whose listing just fits a datagram, and one more",maxsteps=2000000000,timeout=400,ttimeout=900)],
  ["listings that do not fit into one datagram (222 files with the longest names, about 1200 with ordinary ones) are lost: see the known finding"],[ENV_NET,ENV_FS,ENV_JSON])
check("F04","hflu",[
  h("F04Period","one after the other: 66000 discoveries, list requests among them",("period",),params={"draws":66000},thorough={"draws":200000},maxsteps=2000000000,ttimeout=900),
  h("F04Concurrent","2 concurrent discoveries or list requests at the start; schedules with at most 2 preemptions",params={"preempt":2},thorough={"preempt":1,"callers":3},ttimeout=900),
  h("F04Concurrent","2 concurrent discoveries where the numbers start over; at most one preemption",params={"before":65534,"preempt":1},maxsteps=1000000000,ttimeout=900)],
  ["more concurrent callers"],[ENV_NET],"The counter has no input: the sequential part is one symbolic execution of the whole period; the solver decides the schedules of the concurrent part.")
check("F05","hflu",[
  h("F05Window","2 responses, each of 4 kinds with arbitrary contents and other numbers, arriving at one of 6 moments before, during and after the wait; unsolicited ones before; the next discovery"),
  h("F05Crowd","2, 70 or 300 discoveries at the same time, two answers each, and late ones",maxsteps=2000000000),
  h("F05Many","0,1,9,10,11,17,100,300 (thorough: 1000) answers, all at once or spread out",thorough={"sizes":9}),
  h("F05Overlap","3 discoveries that overlap or not, with 0..2 answers each at 2 moments",params={"discoveries":3}),
  h("F05Race","2 responses of 3 kinds handled while the discovery ends; schedules with at most one preemption (thorough: two); race detection",("included","left out"),thorough={"preempt":2},ttimeout=900),
  h("F05Down","opening or sending fails")],
  ["more concurrent discoveries and responses"],[ENV_NET])
check("F06","hflu",[
  h("F06Sizes","chunks of 10 sizes (thorough: 14) around the packet boundaries with arbitrary content, the only one, in the middle or of a share; 6 windows, 3 orders of acknowledging",thorough={"sizes":14}),
  h("F06Big","chunks of 65536 and 65537 bytes (thorough: up to 4 MB) with 8 arbitrary bytes and window 1",thorough={"sizes":6},ttimeout=900,maxsteps=4000000000),
  h("F06Which","every 16-bit chunk number of files of 1..3 chunks, every set of chunks held; unknown content; restarts and chunks that arrive later",("held","not held")),
  h("F06Faults","each of the first 8 sends or disk steps fails, or the file is removed or cut off at any of 8 points",("network","disk"))],
  ["arbitrary contents of chunks of more than 5000 bytes"],[ENV_NET,ENV_FS,ENV_SHA])
check("F07","hflu",[
  h("F07Window","chunks of 3 sizes, 6 windows, up to 3 surplus acknowledgements (repeated, or of any 32-bit offset) at any point; after the end goroutines and open files are as before",thorough={"odd":4,"sizes":4,"anyorder":1},ttimeout=900),
  h("F07Any","every 16-bit window, 3 acknowledgements of any 32-bit offset (thorough: 4)",("expected",),thorough={"acks":4},ttimeout=600),
  h("F07Concurrent","all acknowledgements of a round handled at once, windows 1..3, 2 sizes; schedules with at most one preemption of the first such round (thorough: two); race detection",params={"dup":1},thorough={"preempt":2},ttimeout=900)],
  ["larger chunks","uploads whose peer falls silent keep their file open: nothing is stated about them"],[ENV_NET,ENV_FS])
check("F08","hflu",[
  h("F08Peers","4 steps (thorough: 6) of 2 peers with the same address or port: open 2 chunks, acknowledge, acknowledge something old; then everything finishes",thorough={"steps":6},ttimeout=900),
  h("F08Reopen","up to 2 unfinished uploads with 0..6 acknowledgements before, 4 windows, either form of the address, late acknowledgements",thorough={"rounds":3},ttimeout=900),
  h("F08Many","40 peers with similar addresses and ports (thorough: 300), all uploads running at once",thorough={"peers":300},maxsteps=2000000000,ttimeout=900),
  h("F08Race","a new request and an acknowledgement at the same time, from the same or another peer; schedules with at most one preemption (thorough: 3); race detection",thorough={"preempt":3},ttimeout=600)],
  ["longer histories, more peers"],[ENV_NET,ENV_FS,ENV_SHA])
check("F09","hflu",[
  h("F09Packets","4 packets (thorough: 5) chosen from the right ones and ones with arbitrary data or other offsets, in any order, any of them lost; chunk of 4 arbitrary bytes",("again","first"),thorough={"packets":5,"offs":3},ttimeout=900),
  h("F09Hash","arbitrary data of 4 lengths under an arbitrary hash and 5 sizes; a second announcement",("refused","saved")),
  h("F09Disk","each of 8 disk steps of a save fails, with or without half of the data written",("fault",))],
  ["larger chunks, more packets"],[ENV_NET,ENV_FS,ENV_SHA],"The peer may lie consistently: what it announces is the reference, as the property says.")
check("F10","hflu",[
  h("F10Packets","2 packets (thorough: 3) out of 10 kinds with arbitrary bytes, offsets and sizes, then an honest peer",params={"packets":2},thorough={"packets":3},ttimeout=900),
  h("F10Meta","every size and chunk size of up to 8 chunks, 6 counts, 9 names",("refused","recorded")),
  h("F10Listings","5 discovery answers and 6 kinds of metadata answers"),
  h("F10Alive","silence, an interrupted upload, no network, no answers, many packets, during any of 3 chunks; then it goes on"),
  h("F10Gone","the download is removed from the catalogue at 9 moments"),
  h("F10Race","a download with packets lost or repeated: schedules with at most one preemption (thorough: 2); race detection",thorough={"preempt":2},ttimeout=900)],
  ["a peer that keeps sending data packets and never ends keeps one chunk waiting","more packets"],[ENV_NET,ENV_FS,ENV_SHA])
check("F11","hflu",[
  h("F11Hosts","up to 3 answers (thorough: 4) out of 4 kinds: has the file, has nothing, this host, other network",("nobody","somebody"),thorough={"hosts":4}),
  h("F11Meta","metadata of any other hash, none, two, no answer; every size of up to 4 chunks and chunk size",("refused","accepted")),
  h("F11Again","every progress of a recorded download of 4 chunks (thorough: 7), restarts, the first attempt failing or not",thorough={"chunks":7},ttimeout=600),
  h("F11None","no address, no network, only this host, nobody, nobody who knows it; nothing, a part or all of it held")],
  ["more hosts and chunks"],[ENV_NET,ENV_FS])
check("F12","hflu",[
  h("F12Share","shared files of 11 sizes up to 4100 bytes with arbitrary content, 3 network delays, passed on to a third host or not"),
  h("F12Chunks","1..3 chunks (thorough: 5) of 6 sizes, last chunk full, short or one byte, arbitrary content, restarts, 2 delays",thorough={"chunksizes":7,"chunks":5},ttimeout=600),
  h("F12Cross","two transfers at once: both ways, two files, two receivers, two sources"),
  h("F12Slow","datagrams that arrive 0.1, 1.5 or 4.5 seconds after one another; 4 sizes, 2 chunk sizes"),
  h("F12Burst","chunks of up to 61440 bytes, packets at once, a millisecond or 4.5 s apart; no unsynchronised access to memory",maxsteps=2000000000),
  h("F12Big","files of 2^22+1 bytes (thorough: also 2^22) of fixed content",maxsteps=2000000000,thorough={"sizes":2})],
  ["other sizes"],[ENV_NET,ENV_FS,ENV_SHA,"no content hashes to the blank hash"])
check("F13","hflu",[
  h("F13Patience","the only source fails 3, 12, 40 or 120 times in 8 ways (silence, refusal, other bytes, interruption, too little, junk, away, unreachable), at first or at each chunk, then delivers arbitrary bytes",("patience",),maxsteps=2000000000),
  h("F13Killed","a file of 3 chunks of arbitrary content; the downloading daemon stops at any of its disk steps and sends; restart, asked again",("killed","finished","kept")),
  h("F13Source","3 chunks in 5 packets of arbitrary content; the sending daemon stops at any of the first 16 (thorough: 24) datagrams it gets, for no time or 9 seconds, its machine refusing what comes meanwhile or silent; 2 delays",("stopped","again"),thorough={"events":24}),
  h("F13Lost","any one (thorough: two) of the first 24 datagrams lost or doubled; 2 delays",("lost",),thorough={"lost":2},ttimeout=900)],
  ["stops in the middle of a disk write: K06","larger files"],[ENV_NET,ENV_FS,ENV_SHA])
check("F14","hflu",[
  h("F14Long","10, 40 and 260 chunks from 2 hosts of which one always fails in one of 7 ways",("long",),maxsteps=4000000000),
  h("F14Hosts","every combination of 3 (thorough: 4) hosts out of 10 kinds that leaves every chunk with a good host; 2 chunks of arbitrary content",("bad",),thorough={"hosts":4},ttimeout=900),
  h("F14Swarm","3 daemons, each with any set of the 3 chunks of a file of arbitrary content",("nobody","partly","complete"))],
  ["a host that keeps sending and never ends (see F10)","the host asked for the metadata when a download begins must answer"],[ENV_NET,ENV_FS,ENV_SHA])
check("F15","hflu",[
  h("F15Twice","the same content asked for 2 times (thorough: also 3) 0 to 5 seconds apart, known before or not, 1 or 2 sources, 2 delays, the first or second description of the file slow or not; arbitrary content",thorough={"more":2}),
  h("F15Names","two contents announced under every pair of 3 names, another of that name there already or not, 4 distances in time"),
  h("F15Removed","one of two contents removed on either side at each of the first 20 (thorough: 40) datagrams",("removed",),thorough={"moments":40})],
  ["more than two contents"],[ENV_NET,ENV_FS,ENV_SHA])
check("F16","hflu",[
  h("F16Catalogue","16 operations, each of the first 9 disk steps failing or none, restart; another operation after",("fault",),thorough={"then":16},ttimeout=900),
  h("F16Requests","discoveries, listings, starts of downloads and answers; 5 kinds of reply, sends or dials failing"),
  h("F16Upload","uploads done, refused, replaced, of a file removed or cut off; 4 windows, each of the first 7 disk steps or sends failing",("fault",)),
  h("F16Transfer","transfers of 1..3 chunks of up to 8000 bytes between two daemons, both ends"),
  h("F16Download","a download whose 1st, 2nd or 3rd chunk goes wrong in 8 ways",("complete","removed"))],
  ["uploads whose peer falls silent keep their file open until it opens another connection"],[ENV_NET,ENV_FS])
