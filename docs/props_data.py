#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 docs/props_data.py > properties.jsonl)
import json
P=[]
def p(id,title,st,over,q,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Saved state is restored attribute by attribute",
 "Every attribute of queue items, their files and articles, history records, feeds and server statistics that the program writes to its state files is read back, from the same position of the file, into the same attribute and without being truncated, when a program of the same version loads that file (texts may be limited to the length of a line, 1022 characters). No attribute is written without being restored, and none is restored from a position at which another attribute was written.",
 ["histories","inputs"],"for every queue/history/feed/statistics content that can be saved",
 "The tests load fixed sample files; no test saves a queue with every attribute set and compares what is loaded.",
 ["daemon/queue/DiskState.cpp","daemon/queue/DownloadInfo.h"],[("writer/reader pairs of each record type","daemon/queue/DiskState.cpp"),])
p("C02","State files are replaced only by completely written successors",
 "The state files that are saved repeatedly (queue, history, download progress, feeds, statistics, article hashes of completed files) are never modified in place: new content is written to a separate temporary file, which takes the place of the old version only after all of it has been written successfully and the file has been closed. If creating or writing the new version fails, the previous version stays in place. (The message logs and the per-file records with article lists, which are written once, are not meant.)",
 ["crash_points","fault_sequences"],"for every crash point and every failing write during a save",
 "No test interrupts a save or makes a write fail.",
 ["daemon/queue/DiskState.cpp"],[("StateFile::BeginWrite/FinishWrite","daemon/queue/DiskState.cpp")])
p("C03","Adding, removing and moving queue items is saved",
 "Every operation that adds items to, removes them from, or moves them between the download queue and the history, or that edits them on request of a user, requests the state to be saved before the operation ends. A restart therefore never resurrects a removed item nor loses an added one.",
 ["crash_points","histories"],"for every queue operation and every later crash",
 "Tests do not restart the program between operations.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/queue/HistoryCoordinator.cpp","daemon/queue/QueueEditor.cpp","daemon/postprocess/PrePostProcessor.cpp"],[("DownloadQueue::Save","daemon/queue/QueueCoordinator.cpp")])
p("C04","The download queue is only touched under the queue lock",
 "The lists of queued and finished items, and the operations that edit, save or search them, are accessed only by a thread that holds the queue lock at that moment, in every thread of the program.",
 ["schedules"],"for every interleaving of threads",
 "The tests are single threaded.",
 ["daemon/queue/DownloadInfo.h","daemon/queue/QueueCoordinator.cpp"],[("DownloadQueue::Guard / GuardedDownloadQueue","daemon/queue/DownloadInfo.cpp")])
p("C05","Shared data is accessed under the lock that protects it",
 "Data that is shared between threads and has a lock of its own (log messages, the connection pool, traffic statistics, feed lists, article cache accounting, running scripts, request processors and the like) is read and modified only while that lock is held, except while its owner is being constructed or destroyed.",
 ["schedules"],"for every interleaving of threads",
 "The tests are single threaded.",
 ["daemon/util/Log.cpp","daemon/nntp/ServerPool.cpp","daemon/nntp/StatMeter.cpp","daemon/feed/FeedCoordinator.cpp","daemon/util/Script.cpp"],[("Guard over Mutex members","daemon/util/Thread.h")])
p("C06","Locks are taken in one global order and never twice",
 "No thread acquires a non-recursive lock that it already holds, and the locks of the program are acquired in an order without cycles, so no set of threads can deadlock on them.",
 ["schedules"],"for every interleaving of threads and every call path",
 "The tests are single threaded; deadlocks need particular interleavings.",
 ["daemon/util/Thread.h","daemon"],[("Guard/UniqueLock acquisitions","daemon")])
p("C07","Nothing waits for the network or a process while the queue is locked",
 "While a thread holds the queue lock it does not perform network communication, does not run or wait for an external process, and does not wait for another thread to finish, so that the queue stays responsive.",
 ["schedules"],"for every call path that holds the queue lock",
 "Tests neither measure nor see who holds the lock.",
 ["daemon/queue","daemon/postprocess","daemon/remote"],[("GuardedDownloadQueue scopes","daemon")])
p("C08","Remote requests are authenticated before they are processed",
 "No remote request, over HTTP or over the binary protocol, is executed, and no data of the server other than an error message is returned, before the user name and password have been verified or the client's address has been found in the list of authorized addresses. (With form based authentication the static files of the web interface, which hold no data, may be loaded before the login.)",
 ["inputs"],"for every request, header order and credential string",
 "Functional tests only send correct credentials.",
 ["daemon/remote/WebServer.cpp","daemon/remote/BinRpc.cpp"],[("WebProcessor::CheckCredentials","daemon/remote/WebServer.cpp"),("BinRpcProcessor::Execute","daemon/remote/BinRpc.cpp")])
p("C09","Access levels limit what a remote client can do",
 "A client logged in with the add-only account can execute only the methods meant for adding downloads and reading the version; a client of the restricted account cannot change the configuration nor see the values of security related options (logins, passwords, certificates, addresses of the control interface, options of scripts); and a request sent by plain retrieval (HTTP GET, except JSON-P) cannot execute methods that change anything. The limits apply equally to methods that are called inside of a multi-call.",
 ["inputs"],"for every method, protocol and nesting of calls",
 "The tests call methods with the control user only.",
 ["daemon/remote/XmlRpc.cpp"],[("XmlRpcProcessor::Dispatch/CreateCommand","daemon/remote/XmlRpc.cpp")])
p("C10","The web server serves only files below the web directory",
 "A file is sent to a web client only if the requested path cannot leave the web directory: every path taken from a request is checked for parent references and disallowed characters before it is used to open a file.",
 ["inputs"],"for every request path",
 "Tests request a few valid paths.",
 ["daemon/remote/WebServer.cpp"],[("WebProcessor::Dispatch","daemon/remote/WebServer.cpp")])
p("C11","Lengths and texts in binary requests are validated before use",
 "Sizes, counts and offsets that a binary protocol request supplies are checked before they determine how much memory is allocated or accessed, and texts supplied in such a request are zero-terminated before they are used as strings.",
 ["inputs"],"for every request structure a client can send",
 "No test sends malformed binary requests.",
 ["daemon/remote/BinRpc.cpp","daemon/remote/MessageBase.h"],[("BinCommand::ReceiveRequest","daemon/remote/BinRpc.cpp")])
p("C12","Texts in API responses are encoded for their output format",
 "Every text that can contain characters chosen from outside (names, paths, parameters, messages, option values) is encoded for the output format before it becomes part of an XML or JSON response, so that responses stay parseable and texts arrive unchanged; a text received as parameter of a method is decoded exactly once before it is used.",
 ["inputs"],"for every text value in every response",
 "Tests use plain ASCII names.",
 ["daemon/remote/XmlRpc.cpp"],[("XmlCommand::EncodeStr","daemon/remote/XmlRpc.cpp")])
p("C13","XML and JSON responses carry the same well-formed data",
 "For every API method the XML and the JSON form of the response contain the same fields in the same order built from the same values, each with a conversion that fits the value, and both forms are well-formed for every number of elements.",
 ["inputs","histories"],"for every method and every queue content",
 "Tests parse a few responses in one format.",
 ["daemon/remote/XmlRpc.cpp"],[("response templates","daemon/remote/XmlRpc.cpp")])
p("C14","Formatted output matches its arguments everywhere",
 "Every text built from a template uses a template that is fixed in the program (never data from outside), and passes arguments whose number and types fit the conversions of that template; every text parsed into a fixed buffer is limited to the size of that buffer.",
 ["inputs"],"for every call and every value",
 "A wrong conversion only shows for certain values or platforms.",
 ["daemon","daemon/util/NString.h"],[("CString::Format, BString, info/warn/error, PrintLine, AppendFmtResponse","daemon")])
p("C15","Every value of a state has its name and every action its handler",
 "For each kind of state or action that is exposed through the API under a name, every value has a name of its own and every name is mapped to its own value: no value shown to a client is taken from beyond a name table, and no action a client can request is silently ignored.",
 ["inputs","histories"],"for every value of each enumeration",
 "Tests sample a few values.",
 ["daemon/remote/XmlRpc.cpp","daemon/queue/QueueEditor.cpp","daemon/queue/HistoryCoordinator.cpp"],[("name tables indexed by enumerations","daemon/remote/XmlRpc.cpp")])
p("C16","Every borrowed news server connection is given back exactly once",
 "A connection taken from the pool of news server connections is given back exactly once on every path of the borrower, including errors, cancellation and early exits, and is not used after it has been given back. Connections therefore never leak and are never used by two downloads at a time.",
 ["schedules","fault_sequences"],"for every outcome of connecting and downloading",
 "Leaks need failures at particular points.",
 ["daemon/nntp/ServerPool.cpp","daemon/nntp/ArticleDownloader.cpp","daemon/queue/QueueCoordinator.cpp"],[("ServerPool::GetConnection/FreeConnection","daemon/nntp/ServerPool.cpp")])
p("C17","An article counts as downloaded only when it was received completely",
 "An article is recorded as successfully downloaded only if the server sent it with a success code, all of its data was received up to the end marker, the decoded size matches the announced size, and, if checking is enabled and a checksum was sent, the checksum matches. Otherwise another attempt is made or the article is recorded as failed. (An article of a file that is recognized as existing duplicate counts as finished without having been received.)",
 ["inputs","fault_sequences"],"for every server response and every interruption",
 "Tests download from a well-behaved test server.",
 ["daemon/nntp/ArticleDownloader.cpp","daemon/nntp/Decoder.cpp"],[("Decoder::Check","daemon/nntp/Decoder.cpp"),("ArticleDownloader::Download","daemon/nntp/ArticleDownloader.cpp")])
p("C18","Encrypted connections are established and verified before use",
 "When encryption is configured for a connection, no application data (in particular no user name or password) is sent or accepted before the encryption handshake succeeded, and, when certificate verification is enabled, before the certificate and the host name have been verified; a failure of any step makes the connection fail.",
 ["fault_sequences","configurations"],"for every failure of the handshake and every certificate",
 "No test uses a server with an invalid certificate.",
 ["daemon/connect/Connection.cpp","daemon/connect/TlsSocket.cpp"],[("TlsSocket::Start/ValidateCert","daemon/connect/TlsSocket.cpp")])
p("C19","Downloads start only when they are allowed to",
 "A new article download is started only if downloading is not paused and the traffic quota is not used up, unless the item has force priority, and a URL fetch only if downloading is not paused, unless the option UrlForce is active; deleted files are never picked for download, and paused files only for the first articles that direct renaming needs. Nothing that is being downloaded already is started a second time.",
 ["schedules","histories","configurations"],"for every state of pause, quota and priority",
 "Tests do not run downloads in these states.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/queue/UrlCoordinator.cpp"],[("QueueCoordinator::Run/GetNextArticle","daemon/queue/QueueCoordinator.cpp")])
p("C20","Queue totals follow their items",
 "A running total kept for a queue item (sizes, article counts, file counts, active downloads) is only ever changed relative to its own previous value, and whatever is moved from one item to another is subtracted from the source and added to the destination by the same amount.",
 ["histories","schedules"],"for every sequence of queue operations",
 "Tests do not check totals after merges, splits, deletions and retries.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/queue/DownloadInfo.cpp","daemon/queue/HistoryCoordinator.cpp"],[("NzbInfo/FileInfo counters","daemon/queue/DownloadInfo.h")])
p("C21","History records are used according to their kind",
 "A history record stands for a download, a URL or a remembered duplicate; data that only one kind has is accessed only after the record has been found to be of that kind.",
 ["histories"],"for every history content",
 "Tests have no history of mixed kinds.",
 ["daemon/queue/DownloadInfo.h","daemon/queue/HistoryCoordinator.cpp","daemon/queue/DupeCoordinator.cpp","daemon/remote/XmlRpc.cpp"],[("HistoryInfo::GetKind","daemon/queue/DownloadInfo.h")])
p("C22","Results of searches are checked and removed items are not used",
 "Whenever an item, parameter, server, category or similar is searched for and may not exist, the result is checked before it is used; and an item that has been removed and released is not accessed any more.",
 ["inputs","histories"],"for every search that may fail",
 "Tests search for existing items.",
 ["daemon"],[("Find* functions returning null","daemon")])
p("C23","Names from outside cannot escape the destination directory",
 "A file name that comes from an nzb-file, an article, a par2- or rar-file, a feed, a web response or an API request is freed from path separators and invalid characters before a path on disk is built from it, so that downloaded content is only created below the configured directories.",
 ["inputs"],"for every name that can arrive from outside",
 "Tests use harmless names.",
 ["daemon/queue/NzbFile.cpp","daemon/nntp/ArticleWriter.cpp","daemon/queue/QueueCoordinator.cpp","daemon/util/FileSystem.cpp"],[("FileSystem::MakeValidFilename","daemon/util/FileSystem.cpp")])
p("C24","Downloaded archives are deleted only after successful processing",
 "Archive files, par2-files, and partial or parked data are removed only after the step that makes them unnecessary has been completed successfully (unpacking succeeded and the unpacked files were moved to their destination; repair or verification succeeded), never after a failure or cancellation.",
 ["fault_sequences","histories"],"for every outcome of unpacking, repair and moving",
 "Tests do not run the external unpackers to failure.",
 ["daemon/postprocess/Unpack.cpp","daemon/postprocess/DirectUnpack.cpp","daemon/postprocess/Cleanup.cpp","daemon/postprocess/PrePostProcessor.cpp"],[("UnpackController::Cleanup","daemon/postprocess/Unpack.cpp")])
p("C25","Every post-processing step ends in a recorded state",
 "Each post-processing step that is started (rename, repair, direct unpack, unpack, cleanup, move, script) reports its completion and a status of its own on every path, including failure and cancellation, so that the item proceeds to the next step, is not given to the same step forever, and never blocks the post-processing queue. Likewise every started download of an article, of a URL or of a feed, every queue-script and every request in work reports its end, with a final status, to those who wait for it.",
 ["fault_sequences","schedules"],"for every outcome of every step",
 "Tests run single steps to success.",
 ["daemon/postprocess","daemon/extension/PostScript.cpp"],[("PostInfo::SetWorking","daemon/postprocess/PrePostProcessor.cpp")])
p("C26","External programs get their arguments without a shell",
 "External programs and scripts are started with an explicit argument list, never through a command interpreter that would interpret data from outside, and every child process started is waited for.",
 ["inputs"],"for every name, parameter and path",
 "Tests use harmless arguments.",
 ["daemon/util/Script.cpp"],[("ScriptController::Execute","daemon/util/Script.cpp")])
p("C27","Bounded buffers are written with their own bounds",
 "Whenever text or data is written to a buffer with a limit, the limit does not exceed the size of that buffer.",
 ["inputs"],"for every input length",
 "Overruns need inputs longer than the tests use.",
 ["daemon","daemon/util/NString.h"],[("bounded copy/format/read calls","daemon")])
p("C28","Configuration options are declared, documented and used consistently",
 "Every option the program uses has a default value and is present in the configuration template with the same default, and every option of the template is known to the program; names and accepted values of enumerated options are complete.",
 ["configurations"],"for every option",
 "Tests set a few options.",
 ["daemon/main/Options.cpp","nzbget.conf"],[("Options::InitDefaults/InitOptions","daemon/main/Options.cpp")])
p("C29","Divisors are checked against zero",
 "No calculation divides by a size, count or duration that can be zero (an empty download, a download without articles, an elapsed time of zero seconds) without having checked it.",
 ["inputs","histories"],"for every queue content",
 "Tests have non-empty downloads.",
 ["daemon/queue/DownloadInfo.cpp","daemon/postprocess","daemon/remote","daemon/nntp/StatMeter.cpp"],[("CalcHealth and progress calculations","daemon")])
p("C30","Worker threads are stopped and waited for before their data goes away",
 "At shutdown and reload every service thread is asked to stop and has finished before the objects it uses are destroyed, and every registered observer is valid when it is notified.",
 ["schedules"],"for every point at which shutdown is requested",
 "Tests do not shut down a running server.",
 ["daemon/main/nzbget.cpp"],[("NZBGet::StopRemoteServer/Cleanup","daemon/main/nzbget.cpp")])
p("C40","Decoding reproduces the posted binary data","For every yEnc- or UU-encoded article the decoded bytes equal the bytes that were encoded by the poster, regardless of how the network data is divided into blocks.",["inputs"],"for every article and every division into blocks","Tests decode a few sample articles.",["lib/yencode","daemon/nntp/Decoder.cpp"],[("YEncode::decode","lib/yencode")])
p("C41","Repair restores the original files","When enough recovery blocks are available repairing restores every file of the set to the content described by the par2 set.",["inputs","fault_sequences"],"for every damage pattern","Tests repair a few damage patterns.",["daemon/postprocess/ParChecker.cpp","lib/par2"],[("ParChecker::RunParCheck","daemon/postprocess/ParChecker.cpp")])
p("C42","The speed limit is kept","Averaged over a few seconds the download rate does not exceed the configured speed limit.",["schedules","configurations"],"for every limit and number of connections","Tests do not measure rates.",["daemon/nntp/StatMeter.cpp","daemon/nntp/ArticleDownloader.cpp"],[("StatMeter::CalcCurrentDownloadSpeed","daemon/nntp/StatMeter.cpp")])
p("C43","Feed filters accept exactly the items their rules describe","A feed item is accepted, rejected or given options exactly as the documented meaning of the filter's rules in their order says.",["inputs"],"for every filter and item","Tests evaluate sample rules.",["daemon/feed/FeedFilter.cpp"],[("FeedFilter::Match","daemon/feed/FeedFilter.cpp")])
p("C44","The best available duplicate ends up downloaded","Among items known as duplicates of each other, after all downloads are finished, the one with the highest score that could be completed is the one kept, and no other was downloaded needlessly.",["histories"],"for every sequence of adds, failures and marks","Tests cover no sequences.",["daemon/queue/DupeCoordinator.cpp"],[("DupeCoordinator::NzbCompleted","daemon/queue/DupeCoordinator.cpp")])
p("C45","Scheduled tasks run at their time exactly once","Every enabled scheduler task is executed exactly once for each configured time on each configured weekday, also across clock adjustments.",["schedules"],"for every clock history","Tests do not run the clock.",["daemon/main/Scheduler.cpp"],[("Scheduler::CheckTasks","daemon/main/Scheduler.cpp")])
p("C46","Joined files equal the concatenation of their articles","A completed file contains the decoded data of each of its successful articles at the article's offset, in direct-write, cached and joined mode alike.",["inputs","schedules"],"for every order of arrival and cache pressure","Tests download in one order.",["daemon/nntp/ArticleWriter.cpp"],[("ArticleWriter::CompleteFileParts","daemon/nntp/ArticleWriter.cpp")])
p("C47","Traffic statistics equal the bytes transferred","The per-server and total traffic counters equal the number of bytes received, and quotas count exactly the configured period.",["histories"],"for every history of transfers","Tests do not transfer over days.",["daemon/nntp/StatMeter.cpp"],[("StatMeter::AddServerData","daemon/nntp/StatMeter.cpp")])
if __name__=="__main__":
    for x in P: print(json.dumps(x,ensure_ascii=False))
