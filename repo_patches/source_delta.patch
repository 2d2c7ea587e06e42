From 456bb3e05329a4c0de79c00c02603f1c6a90bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:37 +0000
Subject: [PATCH 01/47] fix: restore duplicate hint into its own attribute when
 loading the queue

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89a0690..399d0be 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -817,7 +817,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	}
 	nzbInfo->SetDupeMode((EDupeMode)dupeMode);
 	nzbInfo->SetDupeScore(dupeScore);
-	nzbInfo->SetDupeMode((EDupeMode)dupeHint);
+	nzbInfo->SetDupeHint((NzbInfo::EDupeHint)dupeHint);
 
 	if (formatVersion >= 48)
 	{
-- 
2.43.0


From c15a2587ba1230ad11ea0f9f9337d151ef951fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:37 +0000
Subject: [PATCH 02/47] fix: keep article offsets beyond 4 GB in saved file
 state

---
 daemon/queue/DiskState.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 399d0be..abbdf25 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1208,7 +1208,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 	outfile.PrintLine("%i", (int)fileInfo->GetArticles()->size());
 	for (ArticleInfo* articleInfo : fileInfo->GetArticles())
 	{
-		outfile.PrintLine("%i,%u,%i,%u", (int)articleInfo->GetStatus(), (uint32)articleInfo->GetSegmentOffset(),
+		outfile.PrintLine("%i,%" PRIi64 ",%i,%u", (int)articleInfo->GetStatus(), articleInfo->GetSegmentOffset(),
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
@@ -1288,9 +1288,10 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 
 		if (formatVersion >= 2)
 		{
-			uint32 segmentOffset, crc;
+			int64 segmentOffset;
+			uint32 crc;
 			int segmentSize;
-			if (infile.ScanLine("%i,%u,%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
+			if (infile.ScanLine("%i,%" PRIi64 ",%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
 			pa->SetSegmentOffset(segmentOffset);
 			pa->SetSegmentSize(segmentSize);
 			pa->SetCrc(crc);
-- 
2.43.0


From 41bb49dbcca05ca692a102ce89074ebd440d9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:37 +0000
Subject: [PATCH 03/47] fix: read server host and user of statistics file
 completely

---
 daemon/queue/DiskState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index abbdf25..2baf253 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -2236,13 +2236,13 @@ bool DiskState::LoadServerInfo(Servers* servers, StateDiskFile& infile, int form
 		char name[1024];
 		if (!infile.ReadLine(name, sizeof(name))) goto error;
 
-		char host[200];
+		char host[1024];
 		if (!infile.ReadLine(host, sizeof(host))) goto error;
 
 		int port;
 		if (infile.ScanLine("%i", &port) != 1) goto error;
 
-		char user[100];
+		char user[1024];
 		if (!infile.ReadLine(user, sizeof(user))) goto error;
 
 		std::unique_ptr<ServerRef> ref = std::make_unique<ServerRef>();
-- 
2.43.0


From e75a2fdc933b9a8100d849cf3440202f984a71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:02 +0000
Subject: [PATCH 04/47] fix: write long lines into state files without
 overrunning the line buffer

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 2baf253..477b5bb 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -45,7 +45,7 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 {
 	va_list ap;
 	va_start(ap, format);
-	BString<1024> str;
+	CString str;
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
-- 
2.43.0


From cca9f3d32df8bd6d7af74a7c4c66d053a7e200f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:02 +0000
Subject: [PATCH 05/47] fix: replace line breaks in values written to line
 based state files

---
 daemon/queue/DiskState.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 477b5bb..649cc0d 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -49,6 +49,15 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
+	// line breaks within values would be read back as separate lines
+	for (int i = 0; i < len; i++)
+	{
+		if (str[i] == '\n' || str[i] == '\r')
+		{
+			str[i] = ' ';
+		}
+	}
+
 	// replacing terminating <NULL> with <LF>
 	str[len++] = '\n';
 
-- 
2.43.0


From 9c3e267941afd9677f9e200319eb45fe55f3cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:14 +0000
Subject: [PATCH 06/47] fix: avoid lock order inversions with the download
 queue lock

Direct unpack and feed processing acquired the lock of the download queue
while holding locks, which other threads acquire when they already have
the lock of the download queue.
---
 daemon/feed/FeedCoordinator.cpp     | 17 ++++++++++++-----
 daemon/postprocess/DirectUnpack.cpp | 12 +++++++++---
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/daemon/feed/FeedCoordinator.cpp b/daemon/feed/FeedCoordinator.cpp
index 8caae2a..bb13d47 100644
--- a/daemon/feed/FeedCoordinator.cpp
+++ b/daemon/feed/FeedCoordinator.cpp
@@ -316,14 +316,23 @@ void FeedCoordinator::FeedCompleted(FeedDownloader* feedDownloader)
 			std::unique_ptr<FeedFile> feedFile = parseFeed(feedInfo);
 
 			std::vector<std::unique_ptr<NzbInfo>> addedNzbs;
+			std::unique_ptr<FeedItemList> feedItems;
+
+			if (feedFile)
+			{
+				feedItems = feedFile->DetachFeedItems();
+				feedFile.reset();
+
+				// the filter may need the lock of the download queue, which
+				// must not be acquired when m_downloadsMutex is locked
+				FilterFeed(feedInfo, feedItems.get());
+			}
 
 			{
 				Guard guard(m_downloadsMutex);
-				if (feedFile)
+				if (feedItems)
 				{
-					std::unique_ptr<FeedItemList> feedItems = feedFile->DetachFeedItems();
 					addedNzbs = ProcessFeed(feedInfo, feedItems.get());
-					feedFile.reset();
 				}
 				feedInfo->SetLastUpdate(Util::CurrentTime());
 				feedInfo->SetForce(false);
@@ -401,8 +410,6 @@ std::vector<std::unique_ptr<NzbInfo>> FeedCoordinator::ProcessFeed(FeedInfo* fee
 {
 	debug("Process feed %s", feedInfo->GetName());
 
-	FilterFeed(feedInfo, feedItems);
-
 	std::vector<std::unique_ptr<NzbInfo>> addedNzbs;
 	bool firstFetch = feedInfo->GetLastUpdate() == 0;
 	int added = 0;
diff --git a/daemon/postprocess/DirectUnpack.cpp b/daemon/postprocess/DirectUnpack.cpp
index 11695bd..0c11def 100644
--- a/daemon/postprocess/DirectUnpack.cpp
+++ b/daemon/postprocess/DirectUnpack.cpp
@@ -441,9 +441,15 @@ void DirectUnpack::WaitNextVolume(const char* filename)
 	}
 	else
 	{
-		Guard guard(m_volumeMutex);
-		m_waitingFile = filename;
-		if (m_nzbCompleted)
+		bool nzbCompleted;
+		{
+			Guard guard(m_volumeMutex);
+			m_waitingFile = filename;
+			nzbCompleted = m_nzbCompleted;
+		}
+		// the volume lock must be released here because other threads
+		// acquire it when they already have the lock of the download queue
+		if (nzbCompleted)
 		{
 			// nzb completed but unrar waits for another volume
 			PrintMessage(Message::mkWarning, "Could not find volume %s", filename);
-- 
2.43.0


From eaeaa2bf706b66aaf5dcf0ac380b9ba2d643634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 07/47] fix: do not hold the queue lock while unrar lists
 archives of duplicates

RequestDupeSources waited up to a minute per duplicate for unrar with the
download queue locked.
---
 daemon/postprocess/Repair.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/daemon/postprocess/Repair.cpp b/daemon/postprocess/Repair.cpp
index 1f1c8cc..78d8f26 100644
--- a/daemon/postprocess/Repair.cpp
+++ b/daemon/postprocess/Repair.cpp
@@ -130,26 +130,33 @@ const char* RepairController::PostParChecker::FindFileOrigname(const char* filen
 
 void RepairController::PostParChecker::RequestDupeSources(DupeSourceList* dupeSourceList)
 {
-	GuardedDownloadQueue downloadQueue = DownloadQueue::Guard();
+	DupeSourceList dupeList;
 
-	RawNzbList dupeList = g_DupeCoordinator->ListHistoryDupes(downloadQueue, m_postInfo->GetNzbInfo());
+	{
+		// the queue must not be locked during content comparison, which runs unrar
+		GuardedDownloadQueue downloadQueue = DownloadQueue::Guard();
+		for (NzbInfo* dupeNzbInfo : g_DupeCoordinator->ListHistoryDupes(downloadQueue, m_postInfo->GetNzbInfo()))
+		{
+			dupeList.emplace_back(dupeNzbInfo->GetId(), dupeNzbInfo->GetDestDir());
+		}
+	}
 
 	if (!dupeList.empty())
 	{
 		PostDupeMatcher dupeMatcher(m_postInfo);
 		PrintMessage(Message::mkInfo, "Checking %s for dupe scan usability", m_postInfo->GetNzbInfo()->GetName());
 		bool sizeComparisonPossible = dupeMatcher.Prepare();
-		for (NzbInfo* dupeNzbInfo : dupeList)
+		for (DupeSource& dupe : dupeList)
 		{
 			if (sizeComparisonPossible)
 			{
-				PrintMessage(Message::mkInfo, "Checking %s for dupe scan usability", FileSystem::BaseFileName(dupeNzbInfo->GetDestDir()));
+				PrintMessage(Message::mkInfo, "Checking %s for dupe scan usability", FileSystem::BaseFileName(dupe.GetDirectory()));
 			}
-			bool useDupe = !sizeComparisonPossible || dupeMatcher.MatchDupeContent(dupeNzbInfo->GetDestDir());
+			bool useDupe = !sizeComparisonPossible || dupeMatcher.MatchDupeContent(dupe.GetDirectory());
 			if (useDupe)
 			{
-				PrintMessage(Message::mkInfo, "Adding %s to dupe scan sources", FileSystem::BaseFileName(dupeNzbInfo->GetDestDir()));
-				dupeSourceList->emplace_back(dupeNzbInfo->GetId(), dupeNzbInfo->GetDestDir());
+				PrintMessage(Message::mkInfo, "Adding %s to dupe scan sources", FileSystem::BaseFileName(dupe.GetDirectory()));
+				dupeSourceList->emplace_back(dupe.GetId(), dupe.GetDirectory());
 			}
 		}
 		if (dupeSourceList->empty())
-- 
2.43.0


From 5ecf7c8cb5413462438406a77016caff2b339406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 08/47] fix: protect the thread counter with its mutex

The counter was changed by starting and finishing threads without lock;
lost updates keep the program waiting for threads at shutdown.
---
 daemon/util/Thread.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Thread.cpp b/daemon/util/Thread.cpp
index 893d89e..1b7f432 100644
--- a/daemon/util/Thread.cpp
+++ b/daemon/util/Thread.cpp
@@ -108,7 +108,10 @@ bool Thread::Kill()
 
 void Thread::thread_handler()
 {
-	m_threadCount++;
+	{
+		Guard guard(m_threadMutex);
+		m_threadCount++;
+	}
 
 	debug("Entering Thread-func");
 
@@ -118,7 +121,10 @@ void Thread::thread_handler()
 
 	m_running = false;
 
-	m_threadCount--;
+	{
+		Guard guard(m_threadMutex);
+		m_threadCount--;
+	}
 
 	if (m_autoDestroy)
 	{
-- 
2.43.0


From 8214f8c5616eeec30913282b08156d299299501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 09/47] fix: clear update log messages under the log mutex

---
 daemon/main/Maintenance.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/main/Maintenance.cpp b/daemon/main/Maintenance.cpp
index 020f9af..b473183 100644
--- a/daemon/main/Maintenance.cpp
+++ b/daemon/main/Maintenance.cpp
@@ -119,7 +119,10 @@ bool Maintenance::StartUpdate(EBranch branch)
 		m_updateScript = CString::FormatStr("%s%c%s", g_Options->GetAppDir(), PATH_SEPARATOR, *m_updateScript);
 	}
 
-	m_messages.clear();
+	{
+		Guard guard(m_logMutex);
+		m_messages.clear();
+	}
 
 	m_updateScriptController = new UpdateScriptController();
 	m_updateScriptController->SetArgs({*m_updateScript});
-- 
2.43.0


From e768cd0d4920a99cd5584a8841368263cb76c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:37 +0000
Subject: [PATCH 10/47] fix: clear the list of queued par-files under its mutex

The list is filled by other threads when requested par-files are downloaded.
---
 daemon/postprocess/ParChecker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/postprocess/ParChecker.cpp b/daemon/postprocess/ParChecker.cpp
index 0f6593f..fb4f253 100644
--- a/daemon/postprocess/ParChecker.cpp
+++ b/daemon/postprocess/ParChecker.cpp
@@ -379,7 +379,10 @@ void ParChecker::Cleanup()
 {
 	Guard guard(m_repairerMutex);
 	m_repairer.reset();
-	m_queuedParFiles.clear();
+	{
+		Guard queuedGuard(m_queuedParFilesMutex);
+		m_queuedParFiles.clear();
+	}
 	m_processedFiles.clear();
 	m_sourceFiles.clear();
 	m_dupeSources.clear();
-- 
2.43.0


From 04a40bbbecfc001733fbe8845671742dc2f8eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:37 +0000
Subject: [PATCH 11/47] fix: lock feed history during feed preview

The history list is changed by feed downloads in other threads.
---
 daemon/feed/FeedCoordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/feed/FeedCoordinator.cpp b/daemon/feed/FeedCoordinator.cpp
index bb13d47..aa44160 100644
--- a/daemon/feed/FeedCoordinator.cpp
+++ b/daemon/feed/FeedCoordinator.cpp
@@ -581,6 +581,7 @@ std::shared_ptr<FeedItemList> FeedCoordinator::PreviewFeed(int id,
 		feedItems = feedFile->DetachFeedItems();
 		feedFile.reset();
 
+		Guard guard(m_downloadsMutex);
 		for (FeedItemInfo& feedItemInfo : feedItems.get())
 		{
 			feedItemInfo.SetStatus(firstFetch && feedInfo->GetBacklog() ? FeedItemInfo::isBacklog : FeedItemInfo::isNew);
-- 
2.43.0


From 184718f2b3ae65c63b3cc225a2a3834c8443a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 12/47] fix: check the log file under the log mutex before
 closing it on idle

---
 daemon/util/Log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Log.cpp b/daemon/util/Log.cpp
index 133a10c..35e98f6 100644
--- a/daemon/util/Log.cpp
+++ b/daemon/util/Log.cpp
@@ -116,12 +116,12 @@ void Log::Filelog(const char* msg, ...)
 void Log::IntervalCheck()
 {
 	// Close log-file on idle (if last write into log was more than a second ago)
+	Guard guard(m_logMutex);
 	if (m_logFile)
 	{
 		time_t curTime = Util::CurrentTime() + g_Options->GetTimeCorrection();
 		if (std::abs(curTime - m_lastWritten) > 1)
 		{
-			Guard guard(m_logMutex);
 			m_logFile.reset();
 		}
 	}
-- 
2.43.0


From 81ea060fec5f3b67f150cf61450a00e1b2fed25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 13/47] fix: start no more than one update at a time

The check for a running update and the registration of the new one were not
made under one lock.
---
 daemon/main/Maintenance.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/daemon/main/Maintenance.cpp b/daemon/main/Maintenance.cpp
index b473183..c0b6b79 100644
--- a/daemon/main/Maintenance.cpp
+++ b/daemon/main/Maintenance.cpp
@@ -92,13 +92,11 @@ void Maintenance::AddMessage(Message::EKind kind, time_t time, const char * text
 
 bool Maintenance::StartUpdate(EBranch branch)
 {
-	bool alreadyUpdating;
-	{
-		Guard guard(m_controllerMutex);
-		alreadyUpdating = m_updateScriptController != nullptr;
-	}
+	// the mutex is held until the script is started, otherwise two
+	// requests received at once could both start an update
+	Guard controllerGuard(m_controllerMutex);
 
-	if (alreadyUpdating)
+	if (m_updateScriptController)
 	{
 		error("Could not start update-script: update-script is already running");
 		return false;
-- 
2.43.0


From 5367c5c68d0281a0b8fa2b6d8317097705bf9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:52 +0000
Subject: [PATCH 14/47] fix: access completed files and parameters of
 post-processed items under the queue lock

---
 daemon/postprocess/Rename.cpp | 11 ++++++++---
 daemon/postprocess/Repair.cpp |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/daemon/postprocess/Rename.cpp b/daemon/postprocess/Rename.cpp
index 7ace871..764b669 100644
--- a/daemon/postprocess/Rename.cpp
+++ b/daemon/postprocess/Rename.cpp
@@ -137,10 +137,13 @@ void RenameController::ExecRename(const char* destDir, const char* finalDir, con
 		m_rarRenamer.SetInfoName(nzbName);
 		m_rarRenamer.SetIgnoreExt(g_Options->GetUnpackIgnoreExt());
 
-		NzbParameter* parameter = m_postInfo->GetNzbInfo()->GetParameters()->Find("*Unpack:Password");
-		if (parameter)
 		{
-			m_rarRenamer.SetPassword(parameter->GetValue());
+			GuardedDownloadQueue guard = DownloadQueue::Guard();
+			NzbParameter* parameter = m_postInfo->GetNzbInfo()->GetParameters()->Find("*Unpack:Password");
+			if (parameter)
+			{
+				m_rarRenamer.SetPassword(parameter->GetValue());
+			}
 		}
 
 		m_rarRenamer.Execute();
@@ -209,6 +212,8 @@ void RenameController::UpdateRarRenameProgress()
 */
 void RenameController::RegisterRenamedFile(const char* oldFilename, const char* newFilename)
 {
+	GuardedDownloadQueue guard = DownloadQueue::Guard();
+
 	for (CompletedFile& completedFile : m_postInfo->GetNzbInfo()->GetCompletedFiles())
 	{
 		if (!strcasecmp(completedFile.GetFilename(), oldFilename))
diff --git a/daemon/postprocess/Repair.cpp b/daemon/postprocess/Repair.cpp
index 78d8f26..c0f81aa 100644
--- a/daemon/postprocess/Repair.cpp
+++ b/daemon/postprocess/Repair.cpp
@@ -71,6 +71,8 @@ bool RepairController::PostParChecker::IsParredFile(const char* filename)
 ParChecker::EFileStatus RepairController::PostParChecker::FindFileCrc(const char* filename,
 	uint32* crc, SegmentList* segments)
 {
+	GuardedDownloadQueue guard = DownloadQueue::Guard();
+
 	CompletedFile* completedFile = nullptr;
 
 	for (CompletedFile& completedFile2 : m_postInfo->GetNzbInfo()->GetCompletedFiles())
@@ -117,6 +119,8 @@ ParChecker::EFileStatus RepairController::PostParChecker::FindFileCrc(const char
 
 const char* RepairController::PostParChecker::FindFileOrigname(const char* filename)
 {
+	GuardedDownloadQueue guard = DownloadQueue::Guard();
+
 	for (CompletedFile& completedFile : m_postInfo->GetNzbInfo()->GetCompletedFiles())
 	{
 		if (!strcasecmp(completedFile.GetFilename(), filename))
-- 
2.43.0


From 4db73026273671ad81749d2498552bf18f91205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 15/47] fix: do not replace a state file with an incompletely
 written one

---
 daemon/queue/DiskState.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 649cc0d..e292e62 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -185,10 +185,18 @@ StateDiskFile* StateFile::BeginWrite()
 
 bool StateFile::FinishWrite()
 {
-	if (!m_transactional)
+	// a write may fail before or while the buffered data is passed to the system
+	bool written = m_file.Flush() && !m_file.Error();
+	if (!written)
+	{
+		error("Error saving diskstate: Could not write file %s: %s", *m_tempFilename,
+			*FileSystem::GetLastErrorMessage());
+	}
+
+	if (!m_transactional || !written)
 	{
 		m_file.Close();
-		return true;
+		return written;
 	}
 
 	// flush file content before renaming
-- 
2.43.0


From e1d899d1e4f25302beff90e61ea26d6355032769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 16/47] fix: keep the saved download progress if the queue
 could not be saved

---
 daemon/queue/DiskState.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index e292e62..d9f1e3d 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -305,6 +305,13 @@ bool DiskState::SaveDownloadQueue(DownloadQueue* downloadQueue, bool saveHistory
 		}
 	}
 
+	if (ok)
+	{
+		// progress-file isn't needed after saving of full queue data
+		StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
+		progressStateFile.Discard();
+	}
+
 	if (saveHistory)
 	{
 		StateFile stateFile("history", DISKSTATE_QUEUE_VERSION, true);
@@ -328,10 +335,6 @@ bool DiskState::SaveDownloadQueue(DownloadQueue* downloadQueue, bool saveHistory
 		}
 	}
 
-	// progress-file isn't needed after saving of full queue data
-	StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
-	progressStateFile.Discard();
-
 	return ok;
 }
 
-- 
2.43.0


From 7cd0f7ec6203b4fb126849524110324678618376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 17/47] fix: saved progress of an item which is not in the
 queue anymore does not prevent the loading of the queue and the history

---
 daemon/queue/DiskState.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index d9f1e3d..054e682 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -538,10 +538,14 @@ bool DiskState::LoadProgress(NzbList* queue, Servers* servers, StateDiskFile& in
 		if (infile.ScanLine("%i", &id) != 1) goto error;
 
 		NzbInfo* nzbInfo = queue->Find(id);
+		std::unique_ptr<NzbInfo> removedNzbInfo;
 		if (!nzbInfo)
 		{
-			error("NZB with id %i could not be found", id);
-			goto error;
+			// the item was removed from the queue but the program was terminated
+			// after saving the queue and before discarding the progress
+			warn("NZB with id %i could not be found", id);
+			removedNzbInfo = std::make_unique<NzbInfo>();
+			nzbInfo = removedNzbInfo.get();
 		}
 
 		if (!LoadNzbInfo(nzbInfo, servers, infile, formatVersion)) goto error;
-- 
2.43.0


From 843f2e25bb1dd5bf7dc41495dee7bb19bacbda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 18/47] fix: copying a file reports failed reads and writes

---
 daemon/util/FileSystem.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index c1c0526..acd8dd7 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -504,17 +504,20 @@ bool FileSystem::CopyFile(const char* srcFilename, const char* dstFilename)
 
 	CharBuffer buffer(1024 * 50);
 
+	bool ok = true;
 	int cnt = buffer.Size();
-	while (cnt == buffer.Size())
+	while (ok && cnt == buffer.Size())
 	{
 		cnt = (int)infile.Read(buffer, buffer.Size());
-		outfile.Write(buffer, cnt);
+		ok = outfile.Write(buffer, cnt) == cnt;
 	}
 
+	ok = ok && !infile.Error() && outfile.Flush();
+
 	infile.Close();
 	outfile.Close();
 
-	return true;
+	return ok;
 }
 
 bool FileSystem::DeleteFile(const char* filename)
-- 
2.43.0


From 2c732f691d88d6f55c72c9e3cfb5e787189dd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 19/47] fix: pass protocol, http method and access level to
 commands of a multicall

---
 daemon/remote/XmlRpc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 0686f29..1b352c0 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -470,6 +470,9 @@ void XmlRpcProcessor::MutliCall()
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
 		command->SetRequest(requestPtr);
+		command->SetProtocol(m_protocol);
+		command->SetHttpMethod(m_httpMethod);
+		command->SetUserAccess(m_userAccess);
 		m_safeMethod |= command->IsSafeMethod();
 		command->Execute();
 
-- 
2.43.0


From 5c70ddde75ea0d132d9aa8dd5382948b3b44c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 20/47] fix: edit-command for history or post-queue items given
 by names crashed

---
 daemon/queue/QueueEditor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8dc070d..072c441 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -302,13 +302,18 @@ bool QueueEditor::EditEntry(DownloadQueue* downloadQueue, int ID, DownloadQueue:
 bool QueueEditor::EditList(DownloadQueue* downloadQueue, IdList* idList, NameList* nameList, DownloadQueue::EMatchMode matchMode,
 	DownloadQueue::EEditAction action, const char* args)
 {
+	if (!idList && !nameList)
+	{
+		return false;
+	}
+
 	if (action == DownloadQueue::eaPostDelete)
 	{
-		return g_PrePostProcessor->EditList(downloadQueue, idList, action, args);
+		return idList && g_PrePostProcessor->EditList(downloadQueue, idList, action, args);
 	}
 	else if (DownloadQueue::eaHistoryDelete <= action && action <= DownloadQueue::eaHistorySetName)
 	{
-		return g_HistoryCoordinator->EditList(downloadQueue, idList, action, args);
+		return idList && g_HistoryCoordinator->EditList(downloadQueue, idList, action, args);
 	}
 
 	m_downloadQueue = downloadQueue;
-- 
2.43.0


From baf7e14501d3890054945eb007adde014eea2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 21/47] fix: binary protocol: check lengths and terminate texts
 received from the client

---
 daemon/remote/BinRpc.cpp | 60 ++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/daemon/remote/BinRpc.cpp b/daemon/remote/BinRpc.cpp
index 64af08e..090d60c 100644
--- a/daemon/remote/BinRpc.cpp
+++ b/daemon/remote/BinRpc.cpp
@@ -58,6 +58,7 @@ const uint32 g_MessageRequestSizes[] =
 		sizeof(SNzbHistoryRequest)
 	};
 
+const int MAX_TRAILING_DATA_SIZE = 1024 * 1024 * 1024;
 
 class BinCommand
 {
@@ -72,6 +73,7 @@ protected:
 	SNzbRequestBase* m_messageBase;
 
 	bool ReceiveRequest(void* buffer, int size);
+	bool ReceiveTrailingData(CharBuffer& buffer, int size);
 	void SendBoolResponse(bool success, const char* text);
 };
 
@@ -176,6 +178,9 @@ void BinRpcProcessor::Execute()
 		return;
 	}
 
+	m_messageBase.m_username[sizeof(m_messageBase.m_username) - 1] = '\0';
+	m_messageBase.m_password[sizeof(m_messageBase.m_password) - 1] = '\0';
+
 	if ((strlen(g_Options->GetControlUsername()) > 0 && strcmp(m_messageBase.m_username, g_Options->GetControlUsername())) ||
 		strcmp(m_messageBase.m_password, g_Options->GetControlPassword()))
 	{
@@ -306,6 +311,24 @@ bool BinCommand::ReceiveRequest(void* buffer, int size)
 	return true;
 }
 
+/* Receives the data following to the request structure and terminates it with a zero byte */
+bool BinCommand::ReceiveTrailingData(CharBuffer& buffer, int size)
+{
+	if (size < 0 || size > MAX_TRAILING_DATA_SIZE)
+	{
+		error("Invalid struct size");
+		return false;
+	}
+	buffer.Reserve(size + 1);
+	buffer[size] = '\0';
+	if (!m_connection->Recv(buffer, size))
+	{
+		error("invalid request");
+		return false;
+	}
+	return true;
+}
+
 void PauseUnpauseBinCommand::Execute()
 {
 	SNzbPauseUnpauseRequest PauseUnpauseRequest;
@@ -401,12 +424,15 @@ void DownloadBinCommand::Execute()
 		return;
 	}
 
+	DownloadRequest.m_nzbFilename[sizeof(DownloadRequest.m_nzbFilename) - 1] = '\0';
+	DownloadRequest.m_category[sizeof(DownloadRequest.m_category) - 1] = '\0';
+	DownloadRequest.m_dupeKey[sizeof(DownloadRequest.m_dupeKey) - 1] = '\0';
+
 	int bufLen = ntohl(DownloadRequest.m_trailingDataLength);
-	CharBuffer nzbContent(bufLen);
+	CharBuffer nzbContent;
 
-	if (!m_connection->Recv(nzbContent, nzbContent.Size()))
+	if (!ReceiveTrailingData(nzbContent, bufLen))
 	{
-		error("invalid request");
 		return;
 	}
 
@@ -416,6 +442,11 @@ void DownloadBinCommand::Execute()
 	int dupeMode = ntohl(DownloadRequest.m_dupeMode);
 	int dupeScore = ntohl(DownloadRequest.m_dupeScore);
 
+	if (dupeMode < dmScore || dupeMode > dmForce)
+	{
+		dupeMode = dmScore;
+	}
+
 	bool ok = false;
 
 	if (!strncasecmp(nzbContent, "http://", 6) || !strncasecmp(nzbContent, "https://", 7))
@@ -456,6 +487,8 @@ void ListBinCommand::Execute()
 		return;
 	}
 
+	ListRequest.m_pattern[sizeof(ListRequest.m_pattern) - 1] = '\0';
+
 	SNzbListResponse ListResponse;
 	memset(&ListResponse, 0, sizeof(ListResponse));
 	ListResponse.m_messageBase.m_signature = htonl(NZBMESSAGE_SIGNATURE);
@@ -719,7 +752,7 @@ void LogBinCommand::Execute()
 	{
 		GuardedMessageList messages = g_Log->GuardMessages();
 
-		nrEntries = ntohl(LogRequest.m_lines);
+		nrEntries = std::max((int)ntohl(LogRequest.m_lines), 0);
 		uint32 idFrom = ntohl(LogRequest.m_idFrom);
 		int start = messages->size();
 		if (nrEntries > 0)
@@ -811,17 +844,17 @@ void EditQueueBinCommand::Execute()
 	int textLen = ntohl(EditQueueRequest.m_textLen);
 	uint32 bufLength = ntohl(EditQueueRequest.m_trailingDataLength);
 
-	if (nrIdEntries * sizeof(int32) + textLen + nameEntriesLen != bufLength)
+	if (nrIdEntries < 0 || textLen < 0 || nameEntriesLen < 0 ||
+		nrIdEntries * (int64)sizeof(int32) + textLen + nameEntriesLen != bufLength)
 	{
 		error("Invalid struct size");
 		return;
 	}
 
-	CharBuffer buf(bufLength);
+	CharBuffer buf;
 
-	if (!m_connection->Recv(buf, buf.Size()))
+	if (!ReceiveTrailingData(buf, bufLength))
 	{
-		error("invalid request");
 		return;
 	}
 
@@ -831,9 +864,10 @@ void EditQueueBinCommand::Execute()
 		return;
 	}
 
-	char* text = textLen > 0 ? *buf : nullptr;
+	const char* text = textLen > 0 ? *buf : "";
 	int32* ids = (int32*)(buf + textLen);
 	char* names = (buf + textLen + nrIdEntries * sizeof(int32));
+	char* namesEnd = names + nameEntriesLen;
 
 	IdList cIdList;
 	NameList cNameList;
@@ -849,8 +883,7 @@ void EditQueueBinCommand::Execute()
 
 	if (nrNameEntries > 0)
 	{
-		cNameList.reserve(nrNameEntries);
-		for (int i = 0; i < nrNameEntries; i++)
+		for (int i = 0; i < nrNameEntries && names < namesEnd; i++)
 		{
 			cNameList.push_back(names);
 			names += strlen(names) + 1;
@@ -988,11 +1021,10 @@ void WriteLogBinCommand::Execute()
 		return;
 	}
 
-	CharBuffer recvBuffer(ntohl(WriteLogRequest.m_trailingDataLength));
+	CharBuffer recvBuffer;
 
-	if (!m_connection->Recv(recvBuffer, recvBuffer.Size()))
+	if (!ReceiveTrailingData(recvBuffer, ntohl(WriteLogRequest.m_trailingDataLength)))
 	{
-		error("invalid request");
 		return;
 	}
 
-- 
2.43.0


From d5873e82db0f344afc2767ca981d6e4053c6845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 22/47] fix: long ids of JSON-RPC requests were cut in the
 response

---
 daemon/remote/XmlRpc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 1b352c0..23d3a63 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -374,7 +374,7 @@ void XmlRpcProcessor::Dispatch()
 	char* request = m_request;
 
 	BString<100> methodName;
-	BString<100> requestId;
+	CString requestId;
 
 	if (m_httpMethod == hmGet)
 	{
@@ -408,9 +408,9 @@ void XmlRpcProcessor::Dispatch()
 			valueLen = valueLen >= (int)sizeof(methodName) ? (int)sizeof(methodName) - 1 : valueLen;
 			methodName.Set(methodPtr + 1, valueLen - 2);
 		}
-		if (const char* requestIdPtr = WebUtil::JsonFindField(m_request, "id", &valueLen))
+		const char* requestIdPtr = WebUtil::JsonFindField(m_request, "id", &valueLen);
+		if (requestIdPtr && valueLen > 0)
 		{
-			valueLen = valueLen >= (int)sizeof(requestId) ? (int)sizeof(requestId) - 1 : valueLen;
 			requestId.Set(requestIdPtr, valueLen);
 		}
 	}
-- 
2.43.0


From 68f7f86dcff6eb920c97fbf8ed49cf411cb23830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 23/47] fix: long error texts of server test were cut in the
 response

---
 daemon/remote/XmlRpc.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 23d3a63..6942a02 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -3326,10 +3326,8 @@ void TestServerXmlCommand::Execute()
 		ok = response && (*response == '4' || *response == '2');
 	}
 
-	BString<1024> content(IsJson() ? JSON_RESPONSE_STR_BODY : XML_RESPONSE_STR_BODY,
+	AppendFmtResponse(IsJson() ? JSON_RESPONSE_STR_BODY : XML_RESPONSE_STR_BODY,
 		ok ? "" : m_errText.Empty() ? "Unknown error" : *m_errText);
-
-	AppendResponse(content);
 }
 
 void TestServerXmlCommand::PrintError(const char* errMsg)
-- 
2.43.0


From aa3d67201921c93979ed50f889d430eb4c950d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 24/47] fix: byte 0x80 was not encoded in XML and JSON
 responses

---
 daemon/util/Util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f138968..1cb2d82 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -792,7 +792,7 @@ CString WebUtil::XmlEncode(const char* raw)
 				output += 6;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1076,7 +1076,7 @@ CString WebUtil::JsonEncode(const char* raw)
 				output += 2;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
-- 
2.43.0


From 05727ad53da4c509f0d5052f4a80ec9156f4aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 25/47] fix: some text parameters of API methods were not
 decoded

---
 daemon/remote/XmlRpc.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 6942a02..2d4a11e 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -2237,6 +2237,8 @@ void DownloadXmlCommand::Execute()
 				BuildErrorResponse(2, "Invalid parameter (Parameters)");
 				return;
 			}
+			DecodeStr(paramName);
+			DecodeStr(paramValue);
 			Params.SetParameter(paramName, paramValue);
 		}
 	}
@@ -2807,6 +2809,10 @@ void ViewFeedXmlCommand::Execute()
 		DecodeStr(filter);
 		DecodeStr(cacheId);
 		DecodeStr(category);
+		if (feedFilter)
+		{
+			DecodeStr(feedFilter);
+		}
 
 		debug("Url=%s", url);
 		debug("Filter=%s", filter);
@@ -3308,6 +3314,11 @@ void TestServerXmlCommand::Execute()
 		return;
 	}
 
+	DecodeStr(host);
+	DecodeStr(username);
+	DecodeStr(password);
+	DecodeStr(cipher);
+
 	NewsServer server(0, true, "test server", host, port, 0, username, password, false, encryption, cipher, 1, 0, 0, 0, false);
 	TestConnection connection(&server, this);
 	connection.SetTimeout(timeout == 0 ? g_Options->GetArticleTimeout() : timeout);
@@ -3350,6 +3361,10 @@ void StartScriptXmlCommand::Execute()
 		return;
 	}
 
+	DecodeStr(script);
+	DecodeStr(command);
+	DecodeStr(context);
+
 	std::unique_ptr<Options::OptEntries> optEntries = std::make_unique<Options::OptEntries>();
 
 	char* name;
-- 
2.43.0


From 0e4a862bb59e497a8d7e02e536af1d13f545cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 26/47] fix: invalid JSON of method servervolumes if some
 arrays are not requested

---
 daemon/remote/XmlRpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 2d4a11e..06d3d10 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -3138,7 +3138,7 @@ void ServerVolumesXmlCommand::Execute()
 	"\"SecSlot\" : %i,\n"
 	"\"MinSlot\" : %i,\n"
 	"\"HourSlot\" : %i,\n"
-	"\"DaySlot\" : %i,\n";
+	"\"DaySlot\" : %i\n";
 
 	const char* JSON_BYTES_ARRAY_START =
 	"\"%s\" : [\n";
@@ -3192,6 +3192,7 @@ void ServerVolumesXmlCommand::Execute()
 				ServerVolume::VolumeArray* volumeArray = VolumeArrays[i];
 				const char* arrayName = VolumeNames[i];
 
+				AppendCondResponse(",\n", IsJson());
 				AppendFmtResponse(IsJson() ? JSON_BYTES_ARRAY_START : XML_BYTES_ARRAY_START, arrayName);
 
 				int index2 = 0;
@@ -3207,7 +3208,6 @@ void ServerVolumesXmlCommand::Execute()
 				}
 
 				AppendResponse(IsJson() ? JSON_BYTES_ARRAY_END : XML_BYTES_ARRAY_END);
-				AppendCondResponse(",\n", IsJson() && i < 3);
 			}
 		}
 		AppendResponse(IsJson() ? JSON_VOLUME_ITEM_END : XML_VOLUME_ITEM_END);
-- 
2.43.0


From 799c115563d8fd11101a5a0fbabdc33907c3a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 27/47] fix: answers of news servers were used as format string
 when reporting errors

---
 daemon/nntp/NntpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/NntpConnection.cpp b/daemon/nntp/NntpConnection.cpp
index 5a6d433..2249bd5 100644
--- a/daemon/nntp/NntpConnection.cpp
+++ b/daemon/nntp/NntpConnection.cpp
@@ -236,5 +236,5 @@ bool NntpConnection::Disconnect()
 void NntpConnection::ReportErrorAnswer(const char* msgPrefix, const char* answer)
 {
 	BString<1024> errStr(msgPrefix, m_newsServer->GetName(), m_newsServer->GetHost(), answer);
-	ReportError(errStr, nullptr, false, 0);
+	ReportError("%s", errStr, false, 0);
 }
-- 
2.43.0


From 9b3593de9f384ebd5e3d22e1b57026cd79d7c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 28/47] fix: names of par- and rar-files were used as format
 strings

---
 daemon/postprocess/ParChecker.cpp | 2 +-
 daemon/postprocess/RarRenamer.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/postprocess/ParChecker.cpp b/daemon/postprocess/ParChecker.cpp
index fb4f253..c100110 100644
--- a/daemon/postprocess/ParChecker.cpp
+++ b/daemon/postprocess/ParChecker.cpp
@@ -110,7 +110,7 @@ Par2::Result Repairer::PreProcess(const char *parFilename)
 
 	if (g_Options->GetParScan() == Options::psFull)
 	{
-		BString<1024> wildcardParam(parFilename, 1024);
+		BString<1024> wildcardParam = parFilename;
 		char* basename = FileSystem::BaseFileName(wildcardParam);
 		if (basename != wildcardParam && strlen(basename) > 0)
 		{
diff --git a/daemon/postprocess/RarRenamer.cpp b/daemon/postprocess/RarRenamer.cpp
index 8bbdd85..25ba9f8 100644
--- a/daemon/postprocess/RarRenamer.cpp
+++ b/daemon/postprocess/RarRenamer.cpp
@@ -343,7 +343,8 @@ bool RarRenamer::IsSetProperlyNamed(RarVolumeSet& set)
 			{
 				return false;
 			}
-			BString<1024> partNo(filename + regExPart.GetMatchStart(1), regExPart.GetMatchLen(1));
+			BString<1024> partNo;
+			partNo.Set(filename + regExPart.GetMatchStart(1), regExPart.GetMatchLen(1));
 			if (setPartLen == 0)
 			{
 				setPartLen = partNo.Length();
-- 
2.43.0


From 0459371a0b973a1ce67b4b626fc4cf26608fc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 29/47] fix: progress of items which are not post-processed was
 undefined in API responses

---
 daemon/remote/XmlRpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 06d3d10..b14aacc 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -1864,7 +1864,7 @@ void NzbInfoXmlCommand::AppendPostInfoFields(PostInfo* postInfo, int logEntries,
 	}
 	else
 	{
-		AppendFmtResponse(itemStart, "NONE", "", 0, 0, 0, 0);
+		AppendFmtResponse(itemStart, "NONE", 0, 0, 0);
 	}
 
 	AppendResponse(IsJson() ? JSON_LOG_START : XML_LOG_START);
-- 
2.43.0


From a4e4edb7ecce3170f57b1e6d76a0bda1b1327b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 30/47] fix: invalid values of options ParCheck and FileNaming
 led to reading beyond the tables of values

---
 daemon/main/Options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index cc86e3b..f71caed 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -768,7 +768,7 @@ void Options::InitOptions()
 
 	const char* ParCheckNames[] = { "auto", "always", "force", "manual" };
 	const int ParCheckValues[] = { pcAuto, pcAlways, pcForce, pcManual };
-	const int ParCheckCount = 6;
+	const int ParCheckCount = 4;
 	m_parCheck = (EParCheck)ParseEnumValue(OPTION_PARCHECK, ParCheckCount, ParCheckNames, ParCheckValues);
 
 	const char* ParScanNames[] = { "limited", "extended", "full", "dupe" };
@@ -783,7 +783,7 @@ void Options::InitOptions()
 
 	const char* FileNamingNames[] = { "auto", "article", "nzb" };
 	const int FileNamingValues[] = { nfAuto, nfArticle, nfNzb };
-	const int FileNamingCount = 4;
+	const int FileNamingCount = 3;
 	m_fileNaming = (EFileNaming)ParseEnumValue(OPTION_FILENAMING, FileNamingCount, FileNamingNames, FileNamingValues);
 
 	const char* HealthCheckNames[] = { "pause", "delete", "park", "none" };
-- 
2.43.0


From c726f85ebf10c1fea3e1a482c553d802cb47e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 31/47] fix: decoder kept the format detected in the previous
 attempt

---
 daemon/nntp/Decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 54e5e00..0902b01 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -35,6 +35,7 @@ Decoder::Decoder()
 void Decoder::Clear()
 {
 	m_articleFilename.Clear();
+	m_format = efUnknown;
 	m_body = false;
 	m_begin = false;
 	m_part = false;
-- 
2.43.0


From 78962e2128d4903816ff67af386e0a06aec0a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 32/47] fix: articles larger than their announced range were
 accepted although the excess was dropped

---
 daemon/nntp/Decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 0902b01..6f423e8 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -300,7 +300,8 @@ Decoder::EStatus Decoder::CheckYenc()
 	{
 		return dsArticleIncomplete;
 	}
-	else if ((!m_part && m_size != m_endSize) || (m_endSize != m_outSize))
+	else if ((!m_part && m_size != m_endSize) || (m_endSize != m_outSize) ||
+		(m_part && m_outSize > m_endPos - m_beginPos + 1))
 	{
 		return dsInvalidSize;
 	}
-- 
2.43.0


From 53c76e7ae1caec09994f1b215f2ca3c4efe2a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 33/47] fix: do not start downloading articles of deleted files
 for direct renaming

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7e12f4c..0a9bcf3 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -603,7 +603,7 @@ bool QueueCoordinator::GetNextFirstArticle(NzbInfo* nzbInfo, FileInfo* &fileInfo
 	// find a file not renamed yet
 	for (FileInfo* fileInfo1 : nzbInfo->GetFileList())
 	{
-		if (!fileInfo1->GetFilenameConfirmed())
+		if (!fileInfo1->GetFilenameConfirmed() && !fileInfo1->GetDeleted())
 		{
 			if (fileInfo1->GetArticles()->empty() && g_Options->GetServerMode())
 			{
-- 
2.43.0


From 0f06e09f80df35700022f2483901085b48e4657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 34/47] fix: QueueScriptCoordinator::FindNzbInfo used data of
 remembered duplicates as download info

---
 daemon/extension/QueueScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/extension/QueueScript.cpp b/daemon/extension/QueueScript.cpp
index ce3d590..86543b0 100644
--- a/daemon/extension/QueueScript.cpp
+++ b/daemon/extension/QueueScript.cpp
@@ -394,7 +394,7 @@ NzbInfo* QueueScriptCoordinator::FindNzbInfo(DownloadQueue* downloadQueue, int n
 	}
 
 	HistoryInfo* historyInfo = downloadQueue->GetHistory()->Find(nzbId);
-	if (historyInfo)
+	if (historyInfo && historyInfo->GetKind() != HistoryInfo::hkDup)
 	{
 		return historyInfo->GetNzbInfo();
 	}
-- 
2.43.0


From 432ce7c6d74bac4345f9cddbc154db13ce877820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 35/47] fix: DirectUnpack::Stop crashed if the download was no
 longer in the queue (merged with another one)

---
 daemon/postprocess/DirectUnpack.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daemon/postprocess/DirectUnpack.cpp b/daemon/postprocess/DirectUnpack.cpp
index 0c11def..de7df22 100644
--- a/daemon/postprocess/DirectUnpack.cpp
+++ b/daemon/postprocess/DirectUnpack.cpp
@@ -406,10 +406,13 @@ void DirectUnpack::Stop(DownloadQueue* downloadQueue, NzbInfo* nzbInfo)
 			warn("Cancelling %s", *m_infoName);
 		}
 	}
-	AddExtraTime(nzbInfo);
-	if (nzbInfo->GetPostInfo())
+	if (nzbInfo)
 	{
-		nzbInfo->GetPostInfo()->SetWorking(false);
+		AddExtraTime(nzbInfo);
+		if (nzbInfo->GetPostInfo())
+		{
+			nzbInfo->GetPostInfo()->SetWorking(false);
+		}
 	}
 	Thread::Stop();
 	if (m_unpacking)
-- 
2.43.0


From 802cb15561602080efcb0d9892b41fae96ab19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 36/47] fix: crash in ScriptController::PrepareArgs for
 programs without file extension if option ShellOverride is set

---
 daemon/util/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Script.cpp b/daemon/util/Script.cpp
index 72cbd7d..e64621f 100644
--- a/daemon/util/Script.cpp
+++ b/daemon/util/Script.cpp
@@ -249,7 +249,7 @@ void ScriptController::PrepareArgs()
 				*shellcmd = '\0';
 				shellcmd++;
 
-				if (!strcasecmp(extension, shellover))
+				if (extension && !strcasecmp(extension, shellover))
 				{
 					debug("Using shell override for %s: %s", extension, shellcmd);
 					m_args.emplace(m_args.begin(), shellcmd);
-- 
2.43.0


From 7bd4362344ed7f205f6957aedffef695039a66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 37/47] fix: use after free of duplicate files in
 QueueCoordinator::CheckDupeFileInfos

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 0a9bcf3..fe8c07a 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -474,11 +474,11 @@ void QueueCoordinator::CheckDupeFileInfos(NzbInfo* nzbInfo)
 	for (FileInfo* fileInfo : dupeList)
 	{
 		nzbInfo->UpdateDeletedStats(fileInfo);
-		nzbInfo->GetFileList()->Remove(fileInfo);
 		if (g_Options->GetServerMode())
 		{
 			g_DiskState->DiscardFile(fileInfo->GetId(), true, false, false);
 		}
+		nzbInfo->GetFileList()->Remove(fileInfo);
 	}
 }
 
-- 
2.43.0


From 511f19db42009994c9b26b5218c5582789f6853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:14 +0000
Subject: [PATCH 38/47] fix: use after free in
 QueueCoordinator::AddNzbFileToQueue for items deleted by listeners

---
 daemon/queue/QueueCoordinator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index fe8c07a..89dd45e 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -403,6 +403,8 @@ NzbInfo* QueueCoordinator::AddNzbFileToQueue(std::unique_ptr<NzbInfo> nzbInfo, N
 		downloadQueue->GetQueue()->Remove(urlInfo);
 	}
 
+	int addedNzbId = addedNzb->GetId();
+
 	if (deleteStatus == NzbInfo::dsNone)
 	{
 		addedNzb->PrintMessage(Message::mkInfo, "Collection %s added to queue", addedNzb->GetName());
@@ -418,7 +420,7 @@ NzbInfo* QueueCoordinator::AddNzbFileToQueue(std::unique_ptr<NzbInfo> nzbInfo, N
 	{
 		// in a case if none of listeners did already delete the temporary object - we do it ourselves
 		downloadQueue->GetQueue()->Remove(addedNzb);
-		if (!downloadQueue->GetHistory()->Find(addedNzb->GetId()))
+		if (!downloadQueue->GetHistory()->Find(addedNzbId))
 		{
 			addedNzb = nullptr;
 		}
-- 
2.43.0


From 193ff202651ece038332fa5a4d0e4d146a91fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 39/47] fix: negative article sizes in nzb-files could lead to
 division by zero

---
 daemon/queue/NzbFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index cd2f9e1..303a389 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -587,7 +587,7 @@ bool NzbFile::ParseNzb(IUnknown* nzb)
 				std::unique_ptr<ArticleInfo> article = std::make_unique<ArticleInfo>();
 				article->SetPartNumber(partNumber);
 				article->SetMessageId(id);
-				article->SetSize(lsize);
+				article->SetSize(lsize > 0 ? lsize : 0);
 				AddArticle(fileInfo.get(), std::move(article));
 			}
 		}
@@ -703,7 +703,7 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 			// new segment, add it!
 			std::unique_ptr<ArticleInfo> article = std::make_unique<ArticleInfo>();
 			article->SetPartNumber(partNumber);
-			article->SetSize(lsize);
+			article->SetSize(lsize > 0 ? lsize : 0);
 			m_article = article.get();
 			AddArticle(m_fileInfo.get(), std::move(article));
 		}
-- 
2.43.0


From aafe0d67bff91a3ab64b405235ee80e93807d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 40/47] fix: crash (division by zero) when joining splitted
 files which are all empty

---
 daemon/postprocess/Unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/postprocess/Unpack.cpp b/daemon/postprocess/Unpack.cpp
index 423d5ed..fd9c729 100644
--- a/daemon/postprocess/Unpack.cpp
+++ b/daemon/postprocess/Unpack.cpp
@@ -521,7 +521,7 @@ bool UnpackController::JoinFile(const char* fragBaseName)
 				cnt = (int)inFile.Read(buffer, buffer.Size());
 				outFile.Write(buffer, cnt);
 				written += cnt;
-				m_postInfo->SetStageProgress(int(written * 1000 / totalSize));
+				m_postInfo->SetStageProgress(totalSize > 0 ? int(written * 1000 / totalSize) : 0);
 			}
 			inFile.Close();
 
-- 
2.43.0


From 6696edb37ff4656eedf43ea32c4338e52c09c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 41/47] fix: crash (division by zero) in curses frontend on
 terminals with eight columns

---
 daemon/frontend/NCursesFrontend.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/frontend/NCursesFrontend.cpp b/daemon/frontend/NCursesFrontend.cpp
index 5085ea9..25c9379 100644
--- a/daemon/frontend/NCursesFrontend.cpp
+++ b/daemon/frontend/NCursesFrontend.cpp
@@ -508,6 +508,11 @@ int NCursesFrontend::PrintMessage(Message& msg, int row, int maxLines)
 
 	int len = strlen(text);
 	int winWidth = m_screenWidth - 8;
+	if (winWidth <= 0)
+	{
+		return 0;
+	}
+
 	int msgLines = len / winWidth;
 	if (len % winWidth > 0)
 	{
-- 
2.43.0


From 388ecdca2be54afde5dc1a6e0872f5c1bd0874c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 42/47] fix: crash (division by zero) in nserv if started with
 segment size zero

---
 daemon/nserv/NServMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nserv/NServMain.cpp b/daemon/nserv/NServMain.cpp
index af2301a..26e7daa 100644
--- a/daemon/nserv/NServMain.cpp
+++ b/daemon/nserv/NServMain.cpp
@@ -63,7 +63,7 @@ int NServMain(int argc, char* argv[])
 	Options::CmdOptList cmdOpts;
 	NServOpts opts(argc, argv, cmdOpts);
 
-	if (opts.dataDir.Empty() || opts.paramError)
+	if (opts.dataDir.Empty() || opts.paramError || (opts.generateNzb && opts.segmentSize <= 0))
 	{
 		NServPrintUsage(argv[0]);
 		return 1;
-- 
2.43.0


From 8997442275eb1a1f6a2b14d7ec90bd5df46d4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 43/47] fix: article counters of a download after parts of a
 file were lost

---
 daemon/nntp/ArticleWriter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 60dd782..d8f6556 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -313,6 +313,7 @@ void ArticleWriter::CompleteFileParts()
 	BString<1024> infoFilename("%s%c%s", *nzbName, PATH_SEPARATOR, *filename);
 
 	bool cached = m_fileInfo->GetCachedArticles() > 0;
+	int lostArticles = 0;
 
 	if (g_Options->GetRawArticle())
 	{
@@ -448,8 +449,7 @@ void ArticleWriter::CompleteFileParts()
 				}
 				else
 				{
-					m_fileInfo->SetFailedArticles(m_fileInfo->GetFailedArticles() + 1);
-					m_fileInfo->SetSuccessArticles(m_fileInfo->GetSuccessArticles() - 1);
+					lostArticles++;
 					m_fileInfo->GetNzbInfo()->PrintMessage(Message::mkError,
 						"Could not find file %s for %s [%i/%i]",
 						pa->GetResultFilename(), *infoFilename, pa->GetPartNumber(),
@@ -525,6 +525,16 @@ void ArticleWriter::CompleteFileParts()
 		}
 	}
 
+	if (lostArticles > 0)
+	{
+		GuardedDownloadQueue guard = DownloadQueue::Guard();
+		NzbInfo* nzbInfo = m_fileInfo->GetNzbInfo();
+		m_fileInfo->SetFailedArticles(m_fileInfo->GetFailedArticles() + lostArticles);
+		m_fileInfo->SetSuccessArticles(m_fileInfo->GetSuccessArticles() - lostArticles);
+		nzbInfo->SetCurrentFailedArticles(nzbInfo->GetCurrentFailedArticles() + lostArticles);
+		nzbInfo->SetCurrentSuccessArticles(nzbInfo->GetCurrentSuccessArticles() - lostArticles);
+	}
+
 	if (m_fileInfo->GetTotalArticles() == m_fileInfo->GetSuccessArticles())
 	{
 		m_fileInfo->GetNzbInfo()->PrintMessage(Message::mkInfo, "Successfully downloaded %s", *infoFilename);
-- 
2.43.0


From 54b48777659650a7c24bb6f8d54a35b6120ff8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 44/47] fix: totals of downloads after merging and splitting

---
 daemon/queue/QueueCoordinator.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 89dd45e..93c1af4 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1175,6 +1175,7 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 
 	destNzbInfo->SetFileCount(destNzbInfo->GetFileCount() + srcNzbInfo->GetFileCount());
 	destNzbInfo->SetActiveDownloads(destNzbInfo->GetActiveDownloads() + srcNzbInfo->GetActiveDownloads());
+	destNzbInfo->SetExtraPriority(destNzbInfo->GetExtraPriority() + srcNzbInfo->GetExtraPriority());
 	destNzbInfo->SetFullContentHash(0);
 	destNzbInfo->SetFilteredContentHash(0);
 
@@ -1289,6 +1290,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		srcNzbInfo->SetSize(srcNzbInfo->GetSize() - fileInfo->GetSize());
 		srcNzbInfo->SetRemainingSize(srcNzbInfo->GetRemainingSize() - fileInfo->GetRemainingSize());
 		srcNzbInfo->SetCurrentSuccessSize(srcNzbInfo->GetCurrentSuccessSize() - fileInfo->GetSuccessSize());
+		srcNzbInfo->SetFailedSize(srcNzbInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetCurrentFailedSize(srcNzbInfo->GetCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetTotalArticles(srcNzbInfo->GetTotalArticles() - fileInfo->GetTotalArticles());
 		srcNzbInfo->SetFailedArticles(srcNzbInfo->GetFailedArticles() - fileInfo->GetMissedArticles());
@@ -1300,6 +1302,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		nzbInfo->SetSize(nzbInfo->GetSize() + fileInfo->GetSize());
 		nzbInfo->SetRemainingSize(nzbInfo->GetRemainingSize() + fileInfo->GetRemainingSize());
 		nzbInfo->SetCurrentSuccessSize(nzbInfo->GetCurrentSuccessSize() + fileInfo->GetSuccessSize());
+		nzbInfo->SetFailedSize(nzbInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetCurrentFailedSize(nzbInfo->GetCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetTotalArticles(nzbInfo->GetTotalArticles() + fileInfo->GetTotalArticles());
 		nzbInfo->SetFailedArticles(nzbInfo->GetFailedArticles() + fileInfo->GetMissedArticles());
@@ -1311,11 +1314,13 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo->SetParSize(srcNzbInfo->GetParSize() - fileInfo->GetSize());
 			srcNzbInfo->SetParCurrentSuccessSize(srcNzbInfo->GetParCurrentSuccessSize() - fileInfo->GetSuccessSize());
+			srcNzbInfo->SetParFailedSize(srcNzbInfo->GetParFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetParCurrentFailedSize(srcNzbInfo->GetParCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetRemainingParCount(srcNzbInfo->GetRemainingParCount() - 1);
 
 			nzbInfo->SetParSize(nzbInfo->GetParSize() + fileInfo->GetSize());
 			nzbInfo->SetParCurrentSuccessSize(nzbInfo->GetParCurrentSuccessSize() + fileInfo->GetSuccessSize());
+			nzbInfo->SetParFailedSize(nzbInfo->GetParFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetParCurrentFailedSize(nzbInfo->GetParCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetRemainingParCount(nzbInfo->GetRemainingParCount() + 1);
 		}
@@ -1325,9 +1330,15 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() - 1);
 			srcNzbInfo->SetPausedSize(srcNzbInfo->GetPausedSize() - fileInfo->GetRemainingSize());
 
-			nzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() + 1);
+			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
+
+		if (fileInfo->GetExtraPriority())
+		{
+			srcNzbInfo->SetExtraPriority(srcNzbInfo->GetExtraPriority() - 1);
+			nzbInfo->SetExtraPriority(nzbInfo->GetExtraPriority() + 1);
+		}
 	}
 
 	nzbInfo->UpdateMinMaxTime();
-- 
2.43.0


From b629707ffa24e7a8558a44564a6e3f7ae5440f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:45 +0000
Subject: [PATCH 45/47] fix: removal of a completed download was not saved if
 history and duplicate check were disabled

---
 daemon/postprocess/PrePostProcessor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/postprocess/PrePostProcessor.cpp b/daemon/postprocess/PrePostProcessor.cpp
index 756ef05..b026898 100644
--- a/daemon/postprocess/PrePostProcessor.cpp
+++ b/daemon/postprocess/PrePostProcessor.cpp
@@ -439,6 +439,7 @@ void PrePostProcessor::NzbCompleted(DownloadQueue* downloadQueue, NzbInfo* nzbIn
 	{
 		g_HistoryCoordinator->DeleteDiskFiles(nzbInfo);
 		downloadQueue->GetQueue()->Remove(nzbInfo);
+		needSave = true;
 	}
 
 	if (saveQueue && needSave)
-- 
2.43.0


From d1d611e8ada969336fe3d114cbdbb1ff96230f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 46/47] fix: edits of history items were not saved if the edit
 failed for a later item of the list

---
 daemon/queue/HistoryCoordinator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/HistoryCoordinator.cpp b/daemon/queue/HistoryCoordinator.cpp
index 1aa49a2..76a492c 100644
--- a/daemon/queue/HistoryCoordinator.cpp
+++ b/daemon/queue/HistoryCoordinator.cpp
@@ -244,6 +244,7 @@ bool HistoryCoordinator::EditList(DownloadQueue* downloadQueue, IdList* idList,
 	DownloadQueue::EEditAction action, const char* args)
 {
 	bool ok = false;
+	bool found = false;
 	PrepareEdit(downloadQueue, idList, action);
 
 	for (int id : *idList)
@@ -254,6 +255,7 @@ bool HistoryCoordinator::EditList(DownloadQueue* downloadQueue, IdList* idList,
 			if (historyInfo->GetId() == id)
 			{
 				ok = true;
+				found = true;
 
 				switch (action)
 				{
@@ -319,7 +321,7 @@ bool HistoryCoordinator::EditList(DownloadQueue* downloadQueue, IdList* idList,
 		}
 	}
 
-	if (ok)
+	if (found)
 	{
 		downloadQueue->HistoryChanged();
 		downloadQueue->Save();
-- 
2.43.0


From bdd9c60ca9722999623aa28a6618597712754edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 47/47] fix: return of a duplicate from history into the queue
 did not mark the history as changed

---
 daemon/queue/HistoryCoordinator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/queue/HistoryCoordinator.cpp b/daemon/queue/HistoryCoordinator.cpp
index 76a492c..9a0ceb4 100644
--- a/daemon/queue/HistoryCoordinator.cpp
+++ b/daemon/queue/HistoryCoordinator.cpp
@@ -418,6 +418,7 @@ void HistoryCoordinator::MoveToQueue(DownloadQueue* downloadQueue, HistoryList::
 	nzbInfo->SetFinalDir("");
 
 	downloadQueue->GetHistory()->erase(itHistory);
+	downloadQueue->HistoryChanged();
 	// the object "pHistoryInfo" is released few lines later, after the call to "NZBDownloaded"
 	nzbInfo->PrintMessage(Message::mkInfo, "%s returned from history back to download queue", *nicename);
 
@@ -443,6 +444,7 @@ void HistoryCoordinator::HistoryRedownload(DownloadQueue* downloadQueue, History
 		nzbInfo->SetDupeHint(nzbInfo->GetDupeHint() == NzbInfo::dhNone ? NzbInfo::dhRedownloadManual : nzbInfo->GetDupeHint());
 		downloadQueue->GetQueue()->Add(std::unique_ptr<NzbInfo>(nzbInfo), true);
 		downloadQueue->GetHistory()->erase(itHistory);
+		downloadQueue->HistoryChanged();
 
 		DownloadQueue::Aspect aspect = {DownloadQueue::eaUrlReturned, downloadQueue, nzbInfo, nullptr};
 		downloadQueue->Notify(&aspect);
-- 
2.43.0

