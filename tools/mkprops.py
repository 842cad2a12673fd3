#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
L="scutiger-lfs/src/backend/local.rs"; P="scutiger-lfs/src/processor.rs"; T="scutiger-lfs/src/bin/git-lfs-transfer.rs"
K="scutiger-core/src/pktline.rs"; E="scutiger-core/src/errors.rs"; A="scutiger-bin/src/bin/git-at.rs"; R="scutiger-bin/src/bin/git-recent-refs.rs"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","Every object visible in the store is complete and matches its name",
 "At every instant, every file visible under an object's name in the repository's lfs/objects directory is complete and its SHA-256 equals that name. This holds whatever uploads run concurrently, fail, are cut off or are killed part-way, and also on the file system that survives a power loss (where data that was not synced may be missing).",
 ["schedules","crash_points","fault_sequences","inputs"],
 "all interleavings of concurrent upload sessions, all kill and power-loss points, all transport and storage faults, all payloads",
 "The tests look at the store once, after one fault-free single-session transcript; they never look between two system calls, never interleave sessions and never crash.",
 [L,P],[("upload streamed to a private temporary file, size and hash compared, then data synced and atomically renamed","processor.rs put_object; local.rs start_upload/finish_upload")],
 [("lfs/objects/aa/bb/<oid>","published objects",L),("lfs/incomplete/*","uploads in progress",L)],
 ["directory entries and file contents under lfs/objects after every file-system operation and after every crash"])

p("C02","An acknowledged upload survives everything that happens afterwards",
 "Once put-object has been answered with status 200, every later session can download exactly those bytes and batch and verify-object report the object with its size. Later uploads (including failing or repeated uploads of the same object), lock traffic, hostile requests, storage faults, session kills and power losses never remove, replace or damage it. A complete and correct upload is refused only if a storage operation fails.",
 ["schedules","crash_points","fault_sequences","histories"],
 "all histories of sessions after the acknowledgement, all crash points including power loss right after the acknowledgement",
 "The tests read an object back at most once, immediately, with no crash, no fault and no other session in between.",
 [L,P],[("data and directory synced before the answer is sent; published objects only ever replaced by atomic rename","local.rs finish_upload; processor.rs put_object")],
 [("lfs/objects/aa/bb/<oid>","published objects",L)],
 ["answers to put-object, get-object, batch, verify-object; surviving file system after a crash"])

p("C03","A bad or cut-off upload is never accepted and leaves nothing behind",
 "A put-object whose payload is not exactly the announced number of bytes hashing to the announced object name, or whose stream ends or breaks before the terminating flush, is never answered with status 200 and neither creates nor changes any object. Every upload session that ends without being killed, however its uploads failed, leaves no temporary file of its own anywhere in the lfs directory.",
 ["inputs","fault_sequences","schedules"],
 "all corruptions, truncations and size mismatches of the payload, at every chunking, combined with storage errors at every step of the upload",
 "One test uploads one payload with one flipped byte; no test has a wrong size, a cut-off stream, a storage error or looks at the temporary directories.",
 [P,L],[("size and SHA-256 comparison before publishing; temporary file removed when dropped","processor.rs put_object; local.rs UploadState")],
 [("lfs/incomplete, lfs/tmp","temporary files",L)],
 ["answer to put-object; lfs/objects, lfs/incomplete and lfs/tmp when the session has ended"])

p("C04","A completed download is exactly the stored object",
 "A get-object answer with status 200 that is terminated by its flush packet carries exactly the bytes of that object, preceded by its exact size, whatever short reads, interrupted calls, storage read errors, concurrent re-uploads and output chunking occur. If the object cannot be read completely the client sees an error status or an answer that visibly lacks its terminating flush, and status 404 is given only if the object is not in the store.",
 ["schedules","fault_sequences","inputs"],
 "all object sizes and contents, all interleavings with uploads of the same object, all read faults at all positions, all short-write patterns of the output",
 "One test downloads one 32-byte object from an idle store through an in-memory stream that never fails or short-reads.",
 [P,L,K],[("file opened once and streamed through the pkt-line writer; errors while streaming end the session","processor.rs get_object, send_status; local.rs download; pktline.rs Writer")],
 [],["bytes of the get-object answer as the client decodes them"])

p("C05","Batch and verify-object tell the truth about the store",
 "For every object named in a batch request, in order, the answer names that object, says whether it was present at some moment between request and answer, and gives its stored size if present and the requested size otherwise; verify-object answers 200 only if the object was present with that size, 404 only if it was absent and 409 only if its size differs. A storage error while looking is reported as an error and never as absence, and a batch naming a hash algorithm other than sha256 is refused.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of batch and verify-object with uploads of the same objects, all stat failures, all mixes of present and absent objects",
 "The tests ask about two objects in an idle store; no concurrency and no failing stat.",
 [P,L],[("presence and size taken from one stat of the object's path per object","local.rs batch, verify; processor.rs batch_data")],
 [],["answers to batch and verify-object against the object directory's history"])

p("C06","At most one lock per path; lock operations are linearizable",
 "For every path the lock, unlock and list-lock requests of all concurrent sessions are linearizable against a register that is either free or held by one lock: lock is answered 201 only if it took a free path, 409 only if the path was held at some moment during the request, unlock is answered 200 only if it released a lock and 404 only if none was held at some moment. An acknowledged lock or unlock also survives session kills and power loss.",
 ["schedules","crash_points","histories","fault_sequences"],
 "all interleavings of lock, unlock and list-lock requests of several sessions and users on the same paths, all kill and power-loss points",
 "The only locking test runs one session alone; two sessions never touch the same path at once.",
 [L,P],[("lock record written to a private file and published with hard_link, which fails if the lock exists; released with unlink","local.rs LockFile, LocalLockBackend::create, Lock::unlock; processor.rs lock, unlock")],
 [("lfs/locks/<id>","held locks",L)],["answers to lock, unlock, list-lock of all sessions as one history"])

p("C07","Interrupted or contended locking never wedges a path or kills a session",
 "No kill, disconnect, storage error or power loss in the middle of lock or unlock, and no contention with other sessions, can leave a path that is neither free to be locked nor held by a lock that list-lock shows and unlock releases. While sessions compete for a path each of their requests is answered and none of them crashes, and once faults stop the first lock request for a free path is answered 201.",
 ["crash_points","schedules","fault_sequences"],
 "all points at which a locking session can be killed, fail or be overtaken by another session, followed by fault-free requests",
 "No test kills a session, injects an error into locking, or contends for a path.",
 [L,P],[("temporary record with a unique name, removed when dropped; retry when a conflicting lock vanished","local.rs LockFile; processor.rs lock")],
 [("lfs/locks","held locks",L),("lfs/tmp","lock records in preparation",L)],
 ["fault-free lock, list-lock and unlock requests after the faults"])

p("C08","Paging through list-lock shows exactly the held locks, once each",
 "Following next-cursor from the first page to the last shows every lock held during the whole listing exactly once, shows no lock that was not held at some moment of it, and gives no page with more entries than the requested limit (at most 100), whatever sessions lock and unlock meanwhile. A path filter shows exactly that path's lock, and a storage error while listing is reported as an error and never as a missing lock.",
 ["schedules","histories","fault_sequences","inputs"],
 "all sets of locks, all limits and cursors, all interleavings with lock and unlock, all orders in which the directory is read, all read errors",
 "The only listing in the tests shows one lock on one page.",
 [P,L],[("directory snapshot sorted by id, skipped to the cursor, cut at limit, first entry beyond it becomes next-cursor","processor.rs list_locks; local.rs LockSetIterator")],
 [],["list-lock answers of a whole traversal"])

p("C09","All descriptions of a lock agree on id, path, time and owner",
 "Every answer that describes a lock (201, 409, unlock, list-lock) gives the id, path, locked-at time and owner name with which that lock was acquired; the time is that of the acquisition by the server's clock, the owner is the user who acquired it, and list-lock in upload mode says ours exactly for locks of the asking user. This holds across clock jumps, concurrent unlock and re-lock by other users, and for every path the protocol can carry: no well-formed request about a lock that is held is answered with an error instead unless a storage operation fails or a stored record is damaged.",
 ["schedules","histories","inputs","configurations"],
 "all interleavings of lock, unlock and list by several users, all clock advances and jumps between any two system calls, all path bytes",
 "The test uses a fixed injected timestamp, one user and one path, so a second clock reading or another user's file cannot show.",
 [L,P],[("record (version:time:path) stored once; owner taken from the file owner","local.rs create, from_id, parse, as_lock_spec")],
 [],["lock descriptions in all answers"])

p("C10","One request, one well-formed answer, in order, whatever went wrong before",
 "Each request (the packets up to and including a flush packet) gets exactly one answer, in order, made of well-formed pkt-lines: a status, key=value arguments, optionally a delimiter and data, and a flush. A request that is malformed, forbidden, unknown or fails on a storage error does not change how later requests of the session are understood, the payload of a failed upload is never interpreted as requests, and how the transport cuts the input into chunks makes no difference.",
 ["inputs","fault_sequences","schedules"],
 "all sequences of valid, malformed, refused and failing requests, all chunkings and pipelinings of the input, storage errors at any step",
 "The tests feed whole transcripts in which the rejected requests happen to be read to the end; no storage error occurs and the input is one buffer.",
 [P,K],[("request read to its flush before the answer is sent","processor.rs process_commands, read_to_flush, put_object; pktline.rs Reader")],
 [],["sequence of answers decoded by the client"])

p("C11","A request that did not arrive completely has no effect",
 "If the input ends, fails or loses its pkt-line framing anywhere before a request's terminating flush packet, the session neither stores an object, nor creates, nor releases a lock for it, and does not answer it with success. After the framing is lost nothing further on that connection is executed.",
 ["fault_sequences","inputs","crash_points"],
 "every byte position at which the connection can be cut or a packet header damaged, for every kind of request",
 "Every transcript in the tests is complete and correctly framed.",
 [P,K],[("request arguments and payload read up to the terminating packet before acting","processor.rs read_to_type, put_object, lock, unlock; pktline.rs Reader")],
 [],["store and locks after a cut-off session, answers given"])

p("C12","Download sessions never write; upload sessions never disclose objects",
 "A session started for download never creates, changes or removes an object or a lock, whatever bytes it is sent and whatever faults occur; put-object, verify-object, lock and unlock are refused there. A session started for upload never discloses object contents, get-object is refused there, and a session started for any other operation executes no request at all.",
 ["inputs","fault_sequences","histories"],
 "all request streams including hostile, malformed and mis-framed ones, under storage and transport faults",
 "No test sends a request that is not allowed in the session's mode.",
 [P,T],[("dispatch on (command, argument, mode)","processor.rs process_commands; git-lfs-transfer.rs run")],
 [],["file-system operations of each session, answers"])

p("C13","A session touches nothing outside the repository's lfs directory",
 "After its greeting, a session opens, creates, changes or removes only files inside the repository's lfs directory, whatever object names, lock ids, paths and other bytes it is sent. A request that names something that is not a valid object name or the id of a lock gets an error answer and has no effect; in particular unlock never opens or removes anything but the named lock.",
 ["inputs","fault_sequences"],
 "all request streams, with traversal sequences, absolute paths, NUL bytes, over-long and empty names in every field",
 "No test sends a hostile name.",
 [P,L],[("object names validated as 64 lower-case hex digits; lock files named by hash; lock ids looked up only if they have the form of an id","processor.rs Oid::valid; local.rs from_id, hash_for")],
 [],["every path a session passes to a system call"])

p("C14","A session always ends in a defined way",
 "Whatever bytes arrive and whatever reads, writes and storage operations fail, a session never panics, aborts or loops without consuming input: it ends with exit status 0 when its input ends between requests or after quit, and with a non-zero status and a message on standard error when it has to give up. Damaged files in the store or the lock directory lead to error answers, not to the end of the session.",
 ["inputs","fault_sequences","schedules","crash_points"],
 "all byte streams, all fault positions, all damaged lock records and object files, all clock values",
 "The tests run seven well-formed transcripts without faults; none looks at the exit status.",
 [P,T,L,K,E],[("errors mapped to statuses, fatal ones to exit codes","processor.rs process_commands; git-lfs-transfer.rs main; errors.rs exit_status")],
 [],["exit status, standard error, number of system calls"])

p("C15","A client waiting for an answer always gets it",
 "Whenever a session waits for more input, everything it has to say about the requests received completely so far has been written to its output, so that a client that sends its next request only after reading the previous answer never hangs. Once the input is complete and faults have stopped, every request is answered within a bounded number of system calls.",
 ["schedules","inputs","fault_sequences"],
 "all lock-step and pipelined clients, all chunkings of input and output, all answers and payload sizes",
 "The tests collect output in memory after the whole input was supplied, so an unflushed answer cannot show.",
 [P,K],[("flush packet flushes the underlying writer; writer flushed before the next read","pktline.rs write_packet; processor.rs send_status, send_error; git-lfs-transfer.rs send_capabilities")],
 [],["input reads of the session while the client still waits for output"])

p("C16","When answers cannot be delivered, nothing more is executed",
 "If writing an answer fails (the client has gone or the output reports an error), the session ends with a failure and executes no request it had not already begun to answer, even if more requests are already buffered. What had been acknowledged before stays valid.",
 ["fault_sequences","crash_points"],
 "every position in the output at which writing can fail, every error, every amount of pipelined input",
 "The tests write to an in-memory buffer that never fails.",
 [P,K,T],[("write errors propagate out of process_commands; SIGPIPE has its default action","processor.rs process_commands, send_status; git-lfs-transfer.rs setup")],
 [],["requests executed (changes of store and locks) after the first failed write"])

p("C17","Shared-repository permissions hold from the first moment and after crashes",
 "Every object, lock and directory a session creates is readable and writable by exactly the user classes that core.sharedRepository (or the umask, if it is not set) grants, from the first moment it is visible under its final name and also if the session is killed or the power fails at any point. So in a group-shared repository each authorised user can at any time download, verify, lock, list and unlock what any other user stored.",
 ["configurations","crash_points","schedules"],
 "all values of core.sharedRepository, all umasks, all kill points, all interleavings of sessions of different users",
 "The tests run as one user with the default configuration and never call the code that applies the configuration.",
 [T,L],[("umask derived from the configuration; mode set on the temporary file before it is renamed","git-lfs-transfer.rs set_permissions; local.rs fix_permissions, finish_upload")],
 [],["modes of created files and directories at each file-system operation; answers given to other users"])

p("C18","The pkt-line stream codec neither loses, invents nor reorders data",
 "Data written through the pkt-line writer in pieces of any size and read back through the pkt-line reader with buffers of any sizes is unchanged, with packet boundaries and flush and delimiter packets where they were written and no packet longer than 65520 bytes, however the transport splits, delays or interrupts reads and writes. A stream that is cut off inside a packet, fails, or has a header that is not four lower-case hexadecimal digits of a legal length is reported as an error, never as data or as a regular end.",
 ["inputs","fault_sequences","schedules"],
 "all sequences of writes and packets, all read buffer sizes, all short-transfer and interruption patterns, all truncation points and header corruptions",
 "The tests use in-memory cursors that always transfer everything, and a handful of headers.",
 [K],[("Reader::read/read_packet/iter, Writer::write/write_packet, read_exact/write_all","pktline.rs")],
 [],["Reader and Writer through their public API over faulty streams"])

p("C19","git-at gives the right commit or reports failure, never a wrong answer",
 "Whatever read of the repository fails, and whichever objects are missing or unreadable, git-at either prints exactly the commit it prints when nothing fails - the newest reachable one whose message matches - and exits 0, or prints no commit and exits with status 2 or higher and a message. It never prints another commit, and never exits 1 (no commit matches) unless no commit reachable from the revision matches or the revision does not exist. --show hands exactly that commit to git show and exits with its status. A failure has a cause: an undisturbed run in an intact repository does not fail.",
 ["fault_sequences","histories"],
 "every read operation on the repository that can fail, in every repository history and with every option; excepted are failing existence checks (stat, access) of a reference, which libgit2 takes for absence, and objects changed behind their hash (git-at disables strict hash verification on purpose)",
 "The tests use one intact repository on a file system that does not fail.",
 [A,E],[("errors of the revision walk and of object lookup end the search","git-at.rs run; errors.rs exit_status")],
 [],["standard output, standard error and exit status of git-at"])

p("C20","git-recent-refs prints whole, true, ordered lines under faults and updates",
 "While other programs update, pack or delete references and while reads of the repository fail, every line git-recent-refs prints is a direct reference (or for visitdate HEAD, a branch or a commit) that existed during the run, whole and at most once per reference for date sorts, in the documented order by date; references that existed unchanged and readable throughout are printed, and for visitdate every checkout whose branch or commit still exists is, newest first. If its output fails it stops without printing anything else and does not report success; a failing exit comes with a message.",
 ["fault_sequences","schedules","histories"],
 "all read failures, all interleavings with atomic reference updates and deletions, all short writes and failures of the output",
 "The tests use an idle, intact repository and collect an iterator in memory.",
 [R,"scutiger-bin/src/bin/pager/mod.rs"],[("references collected with their commit dates, then sorted and printed","git-recent-refs.rs run, main")],
 [],["standard output and exit status of git-recent-refs"])

p("C21","git-at finds the newest matching commit",
 "In an intact repository git-at prints the newest (by commit time) commit reachable from the given revision or HEAD whose message matches the PCRE pattern, searching only the summary line with --summary and skipping fixup! and squash! commits with --no-fixup, and exits 0; if there is none it prints nothing, exits 1 and says so unless --quiet. This holds whatever other git programs do meanwhile: while they move, create, delete or pack references, check out branches or repack objects, the answer is right for a value which the revision had during the run.",
 ["inputs","configurations","schedules"],"all repositories, revisions, patterns and options, and all interleavings with other programs' atomic updates, with commit times that run backwards along the history or lie before 1971 or after 2106; of several newest matching commits of the same second, any",
 "The tests sample a dozen patterns in one idle repository.",
 [A],[("time-sorted revision walk and pcre2 match","git-at.rs run")],[],["standard output and exit status of git-at"])

p("C22","Exit status and message tell success, no match and failure apart",
 "Each program exits 0 only if it has done all it was asked: git-at printed or showed a commit, git-recent-refs printed its whole list, git-lfs-transfer answered every request of an input that ended between requests or with quit. git-at exits 1 only if the revision does not exist or no commit matches, with a message unless --quiet is given; with --show it exits with the status of git show, or 3 if a signal ended that. Everything else that goes wrong - reading the repository, damaged objects, an invalid pattern, the input or its framing - gives status 2 (4 if the repository cannot be opened), never 0 or 1, with a message on standard error even with --quiet, and without a result on standard output. An undisturbed run in an intact repository never gives such a status.",
 ["inputs","fault_sequences","schedules"],
 "all failures of system calls, all damage, all options, patterns and inputs of the three programs; excepted is the exact number of the failing status (not that it fails) when the output itself or another program's start failed, and libgit2's reading of failing existence checks as absence",
 "No test runs a program's main function or looks at an exit status.",
 [E,A,R,T],[("exit_status, fatal","errors.rs"),("main","git-at.rs, git-recent-refs.rs, git-lfs-transfer.rs")],[],["exit status, standard error and standard output of the three programs"])

p("C23","On a terminal everything goes through the pager, and the program ends after it",
 "When standard output is a terminal, git-recent-refs starts the user's pager - GIT_PAGER, else core.pager, else PAGER, else less; none if that is cat or empty - exactly once with a pipe as its input, and writes its whole output there, nothing past it, however slowly the pager reads, however little the pipe holds and whatever writes are short or interrupted. It ends its output and does not exit before the pager has, so that the pager keeps the terminal; if the pager ends early it ends promptly too. A pager that cannot be started is an error. When standard output is no terminal, no pager is started.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of program, pager and other git programs, all pipe sizes, reading speeds and points at which the pager ends, all settings of the pager",
 "The tests never run the program's main function, a terminal or a pager.",
 ["scutiger-bin/src/bin/pager/mod.rs",R],[("pager chosen, started with a pipe, awaited when dropped","pager/mod.rs Pager::new, find_pager, stdout, drop; git-recent-refs.rs main")],
 [],["processes started, bytes written to the pipe and to standard output, order of the two processes' ends"])

p("C24","Serving requests does not use up the machine",
 "However many requests a git-lfs-transfer session has served, answered with errors or failed on, and however large the objects were, a session that waits for its next request holds no more open descriptors, temporary files and memory than before its first, up to a small constant and the size of a request; and while it takes or sends an object it never needs memory for more than pieces of it.",
 ["histories","inputs","fault_sequences"],
 "all sequences of requests, valid or not, with storage faults and short transfers among them, and all sizes of objects; small constants are 12 descriptors, 12 files, 192 KiB kept beside four times the largest request, and 1 MiB at a time beside sixteen times the bytes of all requests without their payloads",
 "The tests send a handful of requests and objects of a few bytes, and look neither at descriptors nor at memory.",
 [L,P,T,K],[("objects are copied through a buffer of one packet; files, directory streams and temporary files are released when a request ends, also by an error","processor.rs put_object, get_object, list_lock; local.rs start_upload, finish_upload, Drop of temporary files; pktline.rs")],
 [("lfs/incomplete/*","uploads in progress",L)],
 ["open descriptors, allocated memory and own files of a session whenever it waits for input with nothing left to answer"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))
