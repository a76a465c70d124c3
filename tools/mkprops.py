#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe,hook_needed=None)))
S="protocol/server.go";C="protocol/client.go";G="protocol/genout.go";GG="protocol/gen.go";PR="protocol/protocol.go"
F="filesystem/filesystem.go";N="filesystem/ninep.go";NU="filesystem/ninep_unix.go";FU="filesystem/filesystem_unix.go"
D="pkg/debugfs/debug.go"

p("C01","Every request is answered exactly once, in order, under its own tag",
"On a connection, each complete request received, whether understood or not, is answered by exactly one well-formed reply carrying the request's tag, and replies are sent in the order of the requests. The reply is either an error or the reply type that belongs to the request type. Requests may be pipelined.",
["inputs","histories"],"every sequence of requests (all message types, known or not; any tags, including equal, 0 and 65535), pipelined or not",
"TestTMessages sends about 25 requests one at a time through the library's own client, which supplies the tags; order, pipelining, duplicate tags and unknown types are never looked at.",
[S,G],[("conn.serve: one dispatch and one write per message",S),("Dispatch / ServerError",S),("server stubs SrvR*",G)],
["reply frames on the connection"],[("conn","the serving loop of one connection",S)])
p("C02","Requests and replies do not depend on how the byte stream is cut up",
"Server and client treat the connection as a byte stream: however its bytes are split over reads, each message is processed as if it had arrived whole. A message that the end of the connection, or a size field smaller than the header, leaves incomplete is never acted on, neither executed by the server nor delivered to a caller by the client.",
["inputs","fault_sequences"],"every segmentation of the stream in both directions and every point at which the peer can stop sending",
"All tests use net.Pipe with whole-message writes, which always delivers a header in one read; nothing ends in the middle of a message.",
[S,C],[("conn.serve header and body reads",S),("Client.readNetPackets",C)],["calls made on the file server","replies on the connection","results of client calls"])
p("C03","A malformed request is refused and never reaches the file server",
"A request whose body is not exactly what its type prescribes (a field cut short, a string, list or data count beyond what is there, bytes left over) is answered with an error under its tag, and no operation is performed on the file server for it. The connection remains usable.",
["inputs"],"every message type and every way of truncating, extending or corrupting the counts of its body",
"Tests only send messages made by the library's own encoder.",
[G,GG,S],[("Unmarshal*Pkt bounds checks",G),("decode error path of SrvR*",G)],["calls made on the file server","reply frames"])
p("C04","Nothing is served on a connection before a version request",
"Until a version request has been received on a connection, every other request on it is answered with an error under its tag, and none of them reaches the file server. From then on requests are passed on.",
["inputs","histories"],"every request type and body, any number of requests, each connection on its own",
"TestTMessages tries one Tattach before Tversion on one connection.",
[S],[("Versioned gate in Dispatch",S)],["calls made on the file server","reply frames"],[("Server.Versioned","a Tversion has arrived on this connection",S)])
p("C05","Messages are encoded and decoded exactly as 9P2000 lays them out",
"For every message type and all field values that the format can represent, encoding yields the 9P2000 wire layout (size, type, tag, little-endian fields, counted strings, lists and data, and stat records with their own size), with the size field equal to the length. Decoding such bytes yields the same values, and decoding anything that is not such a message reports an error.",
["inputs"],"all 25 T and R messages and the stat record; all values of 8, 16, 32 and 64 bit fields; all strings, name lists, qid lists and data that fit their counts",
"TestEncode compares two messages (Tversion, Rversion); the rest of its table is commented out and nothing tests decoding.",
[G,GG,PR],[("Marshal*Pkt, Unmarshal*Pkt, Marshaldir, Unmarshaldir",G),("the generator",GG)],["encoder output","decoder results"])
p("C06","A client call returns exactly what the file server returned for it",
"A call made through the client library invokes the operation of the same name on the file server behind the connection exactly once, with the arguments given to the call, and returns the results that operation returned. If the operation fails, the call fails with the text of its error.",
["inputs"],"all twelve operations, all argument and result values that fit the wire format, all error texts that fit",
"The echo server of the tests ignores nearly all arguments and returns constants that are mostly not compared.",
[G,C,S],[("CallT* stubs",G),("SrvR* stubs",G),("Client.rpc",C)],["arguments and results at the file server interface and at the client API"])
p("C07","No bytes from a client can take the server down",
"Whatever bytes a client sends, at whatever point of a session, the server process does not terminate and keeps serving its other connections and accepting new ones. The worst that can happen is that the offending connection gets error replies or is closed.",
["inputs","histories"],"all byte strings, before and after version and attach, valid requests with extreme field values, corrupted messages, oversized and undersized size fields, abrupt ends; memory the peer makes the server allocate for one message is not bounded here",
"Tests never send an invalid message; a panic on one connection ends the whole process.",
[S,G,F],[("decoder bounds checks",G),("count handling of Rread",F),("conn.serve",S)],["liveness of the process","service on a second connection"])
p("C08","Concurrent client calls each get the reply to their own request",
"Any number of goroutines may use one client at once. Each call puts exactly one request on the connection and returns the content of the reply the server gave to that very request, in whatever order the server answers.",
["schedules","histories"],"all interleavings of concurrent calls and all orders of replies",
"Tests make calls from a single goroutine against a server that answers in order.",
[C,G],[("tag matching in Client.IO",C),("Client.rpc",C)],["request bytes written by the client","replies given by the server","results of the calls"])
p("C09","Client tags are unique among outstanding requests and never lost",
"The tag of a request differs from the tags of all other requests of that client that are still unanswered, and is never 0 or 65535. When a request has been answered its tag becomes available again, so that a client can make any number of calls over its lifetime and have up to 65534 outstanding at once.",
["schedules","histories"],"all interleavings of calls and replies, up to and beyond 65534 outstanding requests, any number of calls",
"TestTManyRPCs makes sequential calls, so that at most one tag is ever in use; TestTags only counts the pool.",
[C],[("Client.Tags pool",C),("Client.IO",C)],["tags of the requests written by the client"],[("Client.Tags","free tags",C),("Client.RPC","outstanding requests by tag",C)])
p("C10","When the connection fails, client calls fail: none hangs or crashes",
"If the connection of a client breaks, at any point (between or inside messages, while reading or writing, with any number of calls outstanding), then all outstanding calls and all later calls return an error within bounded time, apart from calls whose complete reply had arrived before. The program using the client is not terminated.",
["crash_points","schedules","fault_sequences"],"every point in the byte streams at which reading or writing can fail, with any number of calls outstanding, waiting or yet to be made",
"No test closes a connection.",
[C,G],[("Client.die, Client.rpc",C),("readNetPackets, IO error paths",C)],["results of the calls"])
p("C11","Replies that answer nothing, or wrongly, cannot confuse client calls",
"A reply whose tag belongs to no outstanding request is ignored. A reply of a type that does not belong to the request, or whose body is malformed, makes the call it answers fail; in neither case does any call succeed with content that was not sent to it, and other calls and the program go on undisturbed.",
["inputs","histories"],"replies with any tag (never used, already answered, 0, 65535), of any type, with any body, at any time",
"The test server always answers properly.",
[C,G],[("tag lookup in Client.IO",C),("reply type and decode checks of CallT*",G)],["results of the calls"])
p("C12","A client never hands out the same fid twice",
"All fids obtained from one client are different from each other, no matter how many goroutines ask at the same time (within the 32 bits a fid has).",
["schedules","histories"],"all interleavings of concurrent requests for fids",
"No test calls it.",
[C],[("Client.GetFID atomic increment",C)],["returned fids"])
p("C13","A fid is valid exactly from its attach or walk until its clunk or remove",
"A fid becomes valid by a successful attach or walk that names it as new, and stays valid, designating the file it was given, until a successful clunk, a remove (successful or not) or a new version request. Requests on a fid that is not valid are refused; so is making a fid valid that already is, except by walking it onto itself. Clunk of a valid fid always succeeds, and the fid can be reused afterwards.",
["histories","inputs"],"all sequences of requests over any fid values",
"TestMount follows one path with fids 0 to 4 and 22.",
[F],[("files map, getFile, clunk",F),("Rattach, Rwalk",F)],["replies"],[("FileServer.files","valid fids of the session",F)])
p("C14","A walk is all or nothing and reports each step",
"A walk in which every name can be walked returns one qid per name, in order, each being that of the file reached, and makes the new fid designate the last one (the same file as the source fid for an empty walk). If the first name fails the walk is an error; if a later one fails, the qids of the names before it are returned and no fid is changed. The source fid is unaffected unless it is also the new one.",
["inputs","histories"],"all trees, name lists (existing, missing, through non-directories and unreadable directories, '.', '..', empty names) and fids",
"TestMount walks three full paths and one missing one; partial walks, qids and the state of the fids afterwards are not checked.",
[F],[("Rwalk",F)],["replies","later requests on the fids involved"])
p("C15","Only open fids do I/O, in the mode they were opened, each on its own",
"Reads and writes are refused on a fid that has not been opened, and opening is refused if it is open already or if the mode asks for what the file's permissions do not grant; a fid opened for reading cannot write and the other way round (open for execution counts as reading). Each open is independent: no request on one fid, including clunk, changes the open state of another. Clunk, remove and version release the underlying open file.",
["histories","inputs"],"all sequences of walk, clone, open, read, write, clunk, remove and version over several fids of the same and of different files, all modes and permissions",
"TestMount opens one fid at a time; it has one denied open and one denied write, and does not look at descriptors or clones.",
[F,N],[("Ropen, Rcreate, Rread, Rwrite, clunk",F),("modeToUnixFlags",N)],["replies","open descriptors of the server process"],[("file.file","open host file of a fid",F)])
p("C16","File data read and written over the wire is the host file's, byte for byte",
"A read returns exactly the bytes of the file from the given offset, up to the count (or the message size limit) or the end of the file, and nothing past the end. A write stores exactly its bytes at the given offset, reports how many, and changes nothing else; opening for truncation empties the file. Reads by any fid see all completed writes.",
["inputs","histories"],"all contents, offsets (including beyond the end and beyond 32 bits), counts and orders of reads and writes through several fids",
"TestMount reads one byte of a two-byte file, whose value is not compared, and never reads back what it wrote.",
[F],[("Rread, Rwrite",F)],["replies","content of the host files"])
p("C17","Reading a directory yields every entry exactly once, whole",
"Reading an open directory from offset 0 onwards returns whole stat records, never more bytes than asked for; by the time a read with sufficient count returns nothing, every entry that was there throughout has been returned exactly once, and nothing that was never there. A read whose count is too small for the next record loses nothing. Reading at offset 0 starts over.",
["inputs","histories"],"all directories (any number of entries, names of any length), all sequences of counts, several fids reading and changing the directory in between",
"TestMount reads a directory of three files with a count that always fits and only checks that it ends.",
[F,FU],[("directory branch of Rread, oflow",F),("resetDir",FU)],["replies"],[("file.oflow","record that did not fit",F)])
p("C18","Clients cannot reach anything outside the exported root",
"No request, whatever names or paths it contains and in whatever state of the session, reads, reveals, creates, changes, renames or removes any file outside of the exported directory tree, or the exported root directory's own name. '..' from the root leads to the root. Symbolic links inside the tree are followed by the host and are outside this guarantee.",
["inputs","histories"],"all attach names, walk names, create names and rename targets, with any number of '..', slashes, absolute names, and repeated or empty components",
"Tests export / itself, from which there is no way out.",
[F],[("join, Rattach cleaning, isRoot, rename target",F)],["files outside the root on the host","qids and stat data in replies"],[("FileServer.rootPath","the exported root",F)])
p("C19","Create makes the named entry and moves the fid to it, or changes nothing",
"A successful create leaves an empty regular file or a directory of the given name in the directory the fid designated, new ones with the requested permissions; the fid then designates it, and for a file is open in the requested mode. A create that is refused (missing permission, directory name already taken, fid open or not valid, not a directory) leaves both the tree and the fid as they were.",
["inputs","histories"],"all names, permissions and modes, existing and missing targets, all fid states",
"TestMount creates one file and one directory that do not exist yet, and does not use the fids except to remove them.",
[F,N],[("Rcreate",F),("modeToUnixFlags",N)],["replies","the host tree","later requests on the fid"])
p("C20","Remove removes exactly its file and always gives up the fid",
"A successful remove deletes the file or empty directory that the fid designates, and nothing else. Whether or not it succeeds, the fid is no longer valid afterwards, its open file is released, and other fids, even open ones on the same file, stay as they were.",
["inputs","histories"],"files, empty and non-empty directories, already removed ones, missing permission, open and unopened fids",
"TestMount removes one file and one empty directory; a failing remove is not tried.",
[F],[("Rremove, clunk",F)],["replies","the host tree"])
p("C21","Wstat changes exactly what it names, all of it or nothing",
"A successful wstat sets precisely the attributes given (permissions, name, length, modification and access time) and leaves those marked 'don't touch' as they were; renaming keeps the file's content and makes the fid designate it under the new name. A wstat that is refused, for instance because it asks for another owner, or a name that is a directory or cannot be reached, leaves all of them unchanged.",
["inputs","histories"],"all combinations of fields, valid and refused, on files and directories, open or not, and on links to them",
"No test calls wstat on a file server that implements it.",
[F],[("Rwstat",F)],["replies","the host tree"])
p("C22","Stat data and qids tell the truth about the host file",
"Stat and directory records carry the file's name, length, permissions, modification time and whether it is a directory, as on the host at that time (also after changes made there), and the user name given with -user as owner and group. Wherever a qid of a file appears (attach, walk, open, create, stat, directory records) it has the same path and type; different files have different qid paths, and the type says whether it is a directory or symbolic link. At any one moment all of these agree on its version, and the version changes when the file's modification time (in milliseconds) does.",
["inputs","histories"],"all files of a tree, in all states that a history of requests brings about",
"TestMount logs qids and stat data without looking at them.",
[F,N,NU],[("fileInfoToQID",NU),("dirTo9p2000Dir, dirTo9p2000Mode, dirToQIDType",N),("Rstat",F)],["replies compared with lstat on the host"])
p("C23","Data replies stay within the negotiated message size",
"The message size the server answers to a version request is not larger than the client's. After that no read reply, of file or directory, is larger than it, whatever count is asked for, and the iounit of open and create plus its header fits in it.",
["inputs"],"all proposed message sizes and read counts, including counts of 2^31 and more",
"Tests use one size and read a handful of bytes.",
[F],[("Rversion, Rread limit, iounit",F)],["size of replies"],[("FileServer.msize","negotiated size",F)])
p("C24","A version request starts the session afresh",
"A successful version request on a connection in use makes all its fids invalid and releases their open files; the fids can be used anew. A refused one (unsupported version) leaves them as they are. The message size that is agreed on depends on the request only, not on what was agreed before.",
["histories"],"a version request after any history",
"Tests send Tversion on connections without fids.",
[F],[("Rversion",F)],["replies","open descriptors of the server process"])
p("C25","Connections do not affect each other",
"Each connection has its own session: fids, open files, version state and message size of one are not visible on another, even for equal fid numbers and under concurrent use. However one connection ends, others continue, and a new connection starts without any of its state.",
["schedules","histories","fault_sequences"],"all interleavings of several connections with the same fid numbers, and all ways of ending one of them",
"Every test uses a single connection.",
[S,F],[("newConn, nsCreator per connection",S),("NewUFS",F)],["replies on each connection"])
p("C26","A request that is refused has no effect",
"When the server answers a request with an error, the served tree and all fids of the session are as before, except that a refused remove has given up its fid.",
["inputs","histories"],"every request type with every reason for refusal, in every state of the session",
"Tests only check that an error is returned.",
[F],[("all R* methods",F)],["the host tree","later requests on the fids"])
p("C27","The debugging file server changes nothing but the log",
"A file server wrapped for debugging behaves like the wrapped one: each operation is invoked on it exactly once with the same arguments, and its results and errors are returned unchanged.",
["inputs"],"all operations with all arguments, results and errors, including undecodable stat data",
"It has no tests.",
[D],[("DebugFileServer methods",D)],["arguments and results on both sides of the wrapper"])
p("C28","Listeners survive temporary failures and stop on shutdown",
"Serving a listener continues through temporary accept errors; on any other error it closes the listener and ends with that very error. Every accepted connection is served by a file server created for it alone. Shutdown closes all listeners being served, so that serving them ends, and does not disturb established connections.",
["schedules","fault_sequences","histories"],"all orders of accepts, temporary and permanent errors, shutdowns and several listeners on one server",
"No test serves a listener; all use Accept directly.",
[S],[("Serve, trackListener, Shutdown, Accept",S)],["calls on the listener","service on the connections"],[("Listener.listeners","listeners being served",S)])
p("C29","The message code in use does what its generator makes",
"Running the generator on the tree (go generate in protocol) succeeds, and the message code it writes compiles with the rest of the repository and behaves like the code in use: every message is encoded, decoded, sent by the client and dispatched by the server alike, for well-formed and malformed messages.",
["inputs"],"all messages and field values, all malformations",
"The generator is excluded from the build, so that no test runs it; only its output of some earlier day is tested.",
[GG,G,PR],[("the generator and its templates",GG),("the message structures it works from",PR),("its output",G)],["output of go generate","behaviour of a build with it"])
p("C30","The ufs command serves its root to any number of network clients",
"The ufs command listens on the network and address given with -ntype and -addr and serves the directory given with -root, to any number of clients at the same time, each with a session of its own that behaves like the file server library. It goes on serving whatever a client does and however it leaves.",
["histories","schedules"],"all histories of requests on several TCP or Unix connections, one after the other and at the same time, with clients that leave in the middle",
"The command has no test at all, and no test serves the file server over a real network connection.",
["cmd/ufs/ufs.go",F,S],[("main","cmd/ufs/ufs.go"),("NewUFS",F),("Serve, Accept",S)],["replies on the connections","the host tree","open descriptors of the process"])
p("C31","A symbolic link is itself when handled and its target when used",
"Walking to a symbolic link, stat, directory records, remove and rename concern the link, which is never mistaken for the file it leads to: what they reveal, remove or move is the link, and its target stays as it is. Opening, attaching, creating on, changing the length, permissions or times of it, and walking through it concern what it leads to. A link that leads nowhere, or round in a circle, can be looked at, moved and removed, and all else on it is refused without effect.",
["inputs","histories"],"links to files, directories and other links, to missing files, in circles, in any directory, and all requests on them",
"Tests have no links in the directories they serve.",
[F,NU],[("os.Lstat and os.Stat in Rwalk, Rstat, Rattach, Rcreate, Rwstat",F),("fileInfoToQID",NU),("dirToQIDType",N)],["replies","the host tree","later requests on the fids"])
p("C32","The end of a connection releases everything it held",
"When a connection ends, because the client closes it or its side of it, resets it, sends a size no message can have or stops in the middle of one, the server closes its side, and every file the connection had open on the host is closed then. Nothing else happens to the served tree, other connections keep their open files, and however many connections come and go, the server does not run out of anything for them.",
["histories","fault_sequences","inputs"],"all histories of requests, all points at which connections end and all ways of ending them, one after the other and next to other connections",
"Tests end connections only by ending the process, and never look at what stays open.",
[S,F,D],[("serve",S),("FileServer.files",F),("clunk",F)],["open descriptors of the server process","the connection as the client sees it","service for those that come later"])
p("C33","A client that has lost its connection lets go of it",
"As long as its connection works in both directions, a client keeps it. When either direction fails (end of input, error, a size no message can have, a failing write), the client closes both, whether they are one connection or two, and in the end nothing of it goes on: no goroutine of it waits for the dead connection, also if one was stuck in writing to it, and the other side learns that the client is gone.",
["fault_sequences","schedules"],"all points and kinds of failure of either direction, with any number of calls waiting to be sent or answered",
"Tests never break a connection under a client and never look at what is left.",
[C],[("die",C),("readNetPackets",C),("IO",C)],["closing of the two directions","goroutines that are left"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
