ENV_RPC = "net/rpc carries calls and replies unchanged (gob drops empty slices)"
NETM = [ENV_NET,ENV_FS,ENV_SHA,ENV_JSON]
check("L01","hcli",[
  h("L01Share","files of 0, 1, 5 bytes of arbitrary content and of 4194304, 4194305 bytes (thorough: 8388613), then again, another one, one that is not there or a restart",("refused",),thorough={"sizes":6},ttimeout=900),
  h("L01List","a share, a download of 4 chunks with every set of them held, one of arbitrary size and chunk size; restarts; one of them removed"),
  h("L01Remote","every IPv4 host, 0..3 entries with arbitrary figures (sizes below 2^63), 3 names; silence, garbage",("error","listed")),
  h("L01Address","addresses of 0..17 arbitrary bytes",("asked","refused"))],
  ["larger listings and files"],NETM)
check("L02","hcli",[
  h("L02Clean","3 shares or downloads (complete or not), each in one of 7 states: unchanged, other bytes, longer, shorter, emptied, missing, unreadable; restarts",thorough={"shares":8},ttimeout=900),
  h("L02Rounds","2 (thorough: 3) times: a share changed, gone or back, a download completing or overwritten, restart, cleaning",params={"rounds":2},thorough={"rounds":3},ttimeout=900),
  h("L02Symbolic","a file of up to 4 arbitrary bytes, now of up to 4 arbitrary bytes",("same","changed")),
  h("L02Faults","each of the first 24 disk steps on the catalogue fails",("fault",))],
  ["longer contents, more files"],NETM)
check("L03","hcli",[
  h("L03Item","any size below 2^63, any 32-bit counts and chunk sizes, any first two bytes of the hash"),
  h("L03Integrity","every number of chunks below 2^7 (thorough: 2^8), any number of them held",params={"bits":7},thorough={"bits":8},ttimeout=600),
  h("L03Large","14 numbers of chunks up to 2^32-1, any number of them held"),
  h("L03Any","every figure any 64-bit number, any path of up to 2 bytes"),
  h("L03Path","every name of up to 4 bytes and of 42 to 3002 bytes with 2 arbitrary ones in 3 directories"),
  h("L03Chims","1 or 2 hosts with up to 5 chunk numbers, one address byte, port or chunk number arbitrary")],
  ["the percentage of other numbers of chunks"],[])
check("L04","hcli",[
  h("L04Commands","5 commands, none, and any other word of up to 5 bytes, with 0..3 arguments: paths of up to 3 arbitrary bytes, hashes with arbitrary bytes at 4 places or of 4 other lengths, with blanks, line ends or other characters around or in them, addresses with up to 2 arbitrary bytes and 11 fixed forms",("asked","rejected")),
  h("L04Down","the daemon is not there or answers with an error",("rejected",)),
  h("L04Through","share, list, clean, chims, get and list of a host carried out by a daemon")],
  ["longer words, arbitrary bytes at more places"],[ENV_RPC]+NETM)
check("L05","hcli",[
  h("L05Chims","0..3 answers at different times, one with arbitrary address, port and up to 3 chunk numbers; asked for everybody, for content held, for any other hash"),
  h("L05Get","content held not at all, in part or in full; somebody has it or nobody",("begun","refused"))],
  ["how a download goes on: F09 to F12"],NETM)
check("D01","hmain",[
  h("D01Many","300 datagrams of each of 5 kinds, one by one or in bursts of 50",("many",),maxsteps=2000000000),
  h("D01Datagrams","3 datagrams (thorough: 4) of 5 kinds with arbitrary numbers, queued up or one by one",("discovered","listed"),thorough={"datagrams":4},ttimeout=900),
  h("D01Datagrams","2 datagrams of 5 kinds, schedules with at most 2 preemptions (thorough: 3)",("discovered","listed"),params={"datagrams":2,"preempt":2},thorough={"preempt":3},ttimeout=900),
  h("D01Long","answers with 0..254 chunk numbers"),
  h("D01Upload","a chunk of two packets through the daemon's socket, any window, another request in between; schedules with at most one preemption",params={"preempt":1},thorough={"preempt":2},ttimeout=900),
  h("D01Restart","0..2 shares, a socket left behind"),
  h("D01Idle","1..3 waits of a second up to 4000 hours, with or without a request in between",("asked",)),
  h("D01Command","4 commands")],
  ["more datagrams at once","the profiling server"],[ENV_NET,ENV_FS,ENV_SHA,ENV_JSON,ENV_RPC])
