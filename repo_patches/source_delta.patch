From 6b616a9cb60e96fe01d9724115fcbe70aa3d25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:48 +0000
Subject: [PATCH 01/32] fix: unlock of a recursively held named mutex released
 every level at once

---
 lib/flckbaselist.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..8e7c208 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -393,6 +393,9 @@ namespace fullock
 					}
 					// why? but do recover
 					__sync_fetch_and_add(plockcnt, 1);						// not check result
+				}else{
+					// still locked recursively by this thread --> only counted down
+					break;
 				}
 			}
 		}while(-1 <= sched_yield());
-- 
2.43.0


From a901ccefeec31b10cabd33fe7a5f577355d9a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/32] fix: status query of a range answered for the whole
 file

---
 lib/flcklistfilelock.cc | 23 +++++++++++++++++++++++
 lib/flcklistfilelock.h  |  1 +
 lib/flckshm.cc          |  2 +-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..c581079 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -213,6 +213,29 @@ bool FlListFileLock::is_locked(void) const
 	return false;
 }
 
+//
+// Need to lock list before calling this.
+//
+bool FlListFileLock::is_locked(off_t offset, size_t length) const
+{
+	if(!pcurrent){
+		return false;
+	}
+	FLOFFLOCK	tmp;
+	tmp.offset	= offset;
+	tmp.length	= length;
+
+	// check all overlapping objects in offset list
+	FlListOffLock	tmpobj;
+	for(PFLOFFLOCK pabscur = to_abs(pcurrent->offset_lock_list); pabscur; pabscur = to_abs(pabscur->next)){
+		tmpobj.set(pabscur);
+		if(0 == fl_compare_list_base(&tmp, pabscur) && tmpobj.is_locked()){
+			return true;
+		}
+	}
+	return false;
+}
+
 bool FlListFileLock::free_offset_lock_list(void)
 {
 	if(!pcurrent){
diff --git a/lib/flcklistfilelock.h b/lib/flcklistfilelock.h
index 0d9dfa9..7574051 100644
--- a/lib/flcklistfilelock.h
+++ b/lib/flcklistfilelock.h
@@ -69,6 +69,7 @@ class FlListFileLock : public fllistbasefilelock
 		}
 
 		bool is_locked(void) const;
+		bool is_locked(off_t offset, size_t length) const;
 		inline void set_protect(void) { if(pcurrent){ pcurrent->protect = true; } }
 		bool free_offset_lock_list(void);
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..23f9b42 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -864,7 +864,7 @@ bool FlShm::IsLocked(int fd, off_t offset, size_t length)
 		return false;
 	}
 
-	bool	result = tglistobj.is_locked();
+	bool	result = tglistobj.is_locked(offset, length);
 	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
 
 	return result;
-- 
2.43.0


From 3d40a47feb50a79b0edf11b45783b19a7c69173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/32] fix: timed cond wait lost a signal racing with the
 timeout or returned without the mutex

---
 lib/flcklistncond.cc  | 4 ++++
 lib/flcklistwaiter.cc | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 372236e..24b576d 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -135,6 +135,10 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 
 		// retrieve waiter from list
 		fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);				// relock lockid
+		if(ETIMEDOUT == result && !tglistobj.is_wait()){
+			// signaled between timeouting and here, so must not lose that signal.
+			result = 0;
+		}
 		if(tglistobj.cutoff_list(pcurrent->waiter_list)){
 			// put back waiter to free
 			if(!tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..fd90d37 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -91,9 +91,9 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 			result = fl_timedwait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP, &timeout);
 		}
 
-		// do lock named mutex
+		// do lock named mutex(always need to get the mutex, the timeout is only for waiting the condition)
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From 0ee9e2a1536c0713a959cbaee6a8d2a0beed39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 04/32] fix: elapsed time lost a second when the nanoseconds
 borrowed

---
 lib/flckutil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..cf106e1 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -204,7 +204,7 @@ inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* en
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From 2ead19ac3d3c5b3959b2d0b1297c79291536dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 05/32] fix: locks of an ended thread were taken for live while
 its process kept the descriptor

---
 lib/flckutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..b7a16b9 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -48,7 +48,7 @@ typedef std::vector<std::string>				strlist_t;
 // Symbols
 //---------------------------------------------------------
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
-#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/fd/%d"
+#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/task/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
 
 //---------------------------------------------------------
@@ -320,7 +320,7 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		}
 	}else{
 		char	szPath[PATH_MAX];
-		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
+		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, tid, fd);
 		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
 			// Need to check thread(process) running.
 			//
-- 
2.43.0


From 3955da0c8186ba286eb451247344b27bc7687ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 06/32] fix: a dead owner that was not reaped yet was taken for
 live

---
 lib/flckutil.cc | 66 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index b7a16b9..e77ac77 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -50,6 +50,7 @@ typedef std::vector<std::string>				strlist_t;
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
 #define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/task/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
+#define	FLCK_PROC_STAT_PATH_FORM				"/proc/%d/task/%d/stat"
 
 //---------------------------------------------------------
 // Macros
@@ -236,6 +237,49 @@ bool MakeWorkDirectory(const char* pDirPath)
 	return true;
 }
 
+// [NOTE]
+// A thread(process) which ended but is not reaped yet(zombie) has still the
+// directory in /proc, so need to check its state.
+// This function is called with lockid, then it must not be a cancellation point.
+//
+static bool IsRunThread(pid_t pid, tid_t tid)
+{
+	char	szPath[PATH_MAX];
+	char	szStat[256];
+	ssize_t	length		= -1;
+	int		old_state	= PTHREAD_CANCEL_ENABLE;
+	int		error		= 0;
+	int		fd;
+
+	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old_state);
+	sprintf(szPath, FLCK_PROC_STAT_PATH_FORM, pid, tid);
+	if(FLCK_INVALID_HANDLE == (fd = open(szPath, O_RDONLY | O_CLOEXEC))){
+		error	= errno;
+	}else{
+		if(-1 == (length = read(fd, szStat, sizeof(szStat) - 1))){
+			error	= errno;
+		}
+		close(fd);
+	}
+	pthread_setcancelstate(old_state, NULL);
+
+	if(ENOENT == error || ESRCH == error){
+		return false;
+	}
+	if(0 < length){
+		// format: "<tid> (<name>) <state> ..."
+		szStat[length]		= '\0';
+		const char*	pstate	= strrchr(szStat, ')');
+		if(pstate && ' ' == pstate[1]){
+			return ('Z' != pstate[2] && 'X' != pstate[2]);
+		}
+	}
+	// could not read state, then check only existing
+	struct stat	st;
+	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
+	return (0 == stat(szPath, &st));
+}
+
 // [NOTE]
 // stat(fstat) function call to /proc system takes average 100-150ns.
 // FindThreadProcess and GetFileDevNode functions for the load reduction
@@ -250,14 +294,7 @@ bool FindThreadProcess(pid_t pid, tid_t tid, fl_pid_cache_map_t* pcache)
 		}
 	}
 
-	char		szPath[PATH_MAX];
-	struct stat	st;
-	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-	if(-1 == stat(szPath, &st)){
-		is_run = false;
-	}else{
-		is_run = true;
-	}
+	is_run = IsRunThread(pid, tid);
 
 	if(pcache){
 		set_execution_cache(pcache, pid, tid, is_run);
@@ -307,13 +344,10 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		// When fd is FLCK_RWLOCK_NO_FD, it means rwlock with no-fd.
 		// On no fd mode, check only pid/tid.
 		//
-		char		szPath[PATH_MAX];
-		struct stat	st;
-		sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-		if(-1 == stat(szPath, &st)){
+		if(!IsRunThread(pid, tid)){
 			devid	= FLCK_INVALID_ID;
 			inodeid	= FLCK_INVALID_ID;
-			result	= errno;
+			result	= ENOENT;
 		}else{
 			devid	= FLCK_EACCESS_ID;
 			inodeid	= FLCK_EACCESS_ID;
@@ -324,12 +358,10 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
 			// Need to check thread(process) running.
 			//
-			struct stat	st;
-			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-			if(-1 == stat(szPath, &st)){
+			if(!IsRunThread(pid, tid)){
 				devid	= FLCK_INVALID_ID;
 				inodeid	= FLCK_INVALID_ID;
-				result	= errno;
+				result	= ENOENT;
 			}
 		}
 	}
-- 
2.43.0


From 3bd54a6388eb8bbc7f5e9c8b2b3795db4a70cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 07/32] fix: check for dead owners could release a mutex from a
 new owner

---
 lib/flcklistnmtx.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flcklistnmtx.cc b/lib/flcklistnmtx.cc
index 8a7d429..e49d33c 100644
--- a/lib/flcklistnmtx.cc
+++ b/lib/flcklistnmtx.cc
@@ -113,6 +113,11 @@ bool FlListNMtx::check_dead_lock(fl_pid_cache_map_t* pcache, flckpid_t except_fl
 		return false;
 	}
 
+	// the owner could unlock and exit meanwhile, then the mutex may have another owner now.
+	if(lockval != pcurrent->lockval){
+		return false;
+	}
+
 	// thread(process) does not run, so mutex is dead lock
 	// do force unlock
 	fl_force_unlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt));
-- 
2.43.0


From 4e3be775709715a803c1d0f6d9b00544f443ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 08/32] fix: units of a lock refused for lack of room stayed
 protected for ever

---
 lib/flcklistfilelock.cc | 2 ++
 lib/flcklistofflock.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index c581079..d9035f9 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -104,6 +104,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;		// this object is not used by this call any more
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
@@ -117,6 +118,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 				if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
 					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
 				}
+				pcurrent->protect = false;		// this object is not used by this call any more
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..787ec03 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;			// this object is not used by this call any more
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
@@ -130,6 +131,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
 				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
 			}
+			pcurrent->protect = false;			// this object is not used by this call any more
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
-- 
2.43.0


From ea708d5af018743bf42a8c3e2f73ae40a635df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 09/32] fix: ranges kept by another free unit mode were lost
 when their file was given back

---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 23f9b42..5563d4c 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -768,6 +768,9 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t offset, size_t length, t
 		// check free
 		if(FlShm::IsFreeUnitFd()){
 			if(!tglistobj.is_locked()){
+				// free all (the offset locks are left if they were kept by another free unit mode)
+				tglistobj.free_offset_lock_list();
+
 				// retrieve target list
 				if(tglistobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
 					// return object to free list
-- 
2.43.0


From 9b3d7841155ae17b59f090abbd9b1784c9f40b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:22 +0000
Subject: [PATCH 10/32] fix: try and timed read locks were refused when only
 other readers raced with them

---
 lib/flckbaselist.tcc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 8e7c208..f787e88 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -161,14 +161,17 @@ namespace fullock
 
 	inline int fl_tryrdlock_rwlock(flck_rwlock_t* plockval)
 	{
-		flck_rwlock_t	beforeval	= *plockval;
-		flck_rwlock_t	newval		= beforeval + 1;
-		if(FLCK_RWLOCK_UNLOCK > beforeval){
-			return EBUSY;
-		}
-		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
-			return EBUSY;
-		}
+		flck_rwlock_t	newval;
+		flck_rwlock_t	beforeval;
+		do{
+			beforeval	= *plockval;
+			newval		= beforeval + 1;
+			if(FLCK_RWLOCK_UNLOCK > beforeval){
+				return EBUSY;
+			}
+			// [NOTE]
+			// If the value is changed by other readers, it is not busy. So need to retry.
+		}while(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval));
 		return 0;
 	}
 
@@ -189,6 +192,7 @@ namespace fullock
 				if(beforeval == __sync_val_compare_and_swap(plockval, beforeval, newval)){
 					break;
 				}
+				continue;		// changed by other readers, it is not busy
 			}
 
 			struct timespec	endtime;
-- 
2.43.0


From 225631f849614fb1692ee160d9d41e05c7ad3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 11/32] fix: forked child used the thread id of its parent

---
 lib/flckutil.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index e77ac77..d46debc 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -608,6 +608,11 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+
+				// The forked child inherits the value of the forking thread, then it must be reset.
+				if(0 != (result = pthread_atfork(NULL, NULL, FlTidCache::ForkChildHandler))){
+					ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+				}
 			}
 		}
 
@@ -630,6 +635,13 @@ class FlTidCache
 			return Cache;
 		}
 
+		static void ForkChildHandler(void)
+		{
+			if(IsInit()){
+				pthread_setspecific(GetTid(), NULL);
+			}
+		}
+
 	public:
 		static pthread_key_t& GetTid(void)
 		{
-- 
2.43.0


From 54da0729181cd53c0865ed2ca520f202b6a7cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 12/32] fix: forked child did not lock the shm file, its locks
 were lost when the parent ended

---
 lib/flckshm.cc     |  4 ++++
 lib/flckshminit.cc | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 5563d4c..f9d1607 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -627,9 +627,13 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //---------------------------------------------------------
 // When the program which loads this fullock library is forked, we need to start worker thread
 // in child process.
+// And the child does not inherit the read lock to the shm file, so it must lock the file itself.
 //
 void FlShm::PreforkHandler(void)
 {
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FileReadLock(FlShm::ShmFd, 0L, true)){
+		ERR_FLCKPRN("Could not lock read mode to %s for child process(%d), but continue...", FlShm::ShmPath().c_str(), getpid());
+	}
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..48a51d1 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -214,15 +214,20 @@ bool FlShm::InitializeShm(void)
 			FlShm::Detach();
 			return false;
 		}
+	}
 
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
+	// [NOTE]
+	// When the program which loads this fullock library is forked, we need to lock the shm file
+	// and to start worker thread in child process.
+	// Thus we set a handler at forking, and it does them in child process. It is set only once.
+	//
+	static bool	isSetForkHandler = false;
+	if(!isSetForkHandler){
 		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
 		if(0 != result){
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			isSetForkHandler = true;
 		}
 	}
 	return true;
-- 
2.43.0


From 6167f02e4c44625a66266791f03387080a1ddac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 13/32] fix: process creating the shm file failed to start when
 another one locked it first

---
 lib/flckshminit.cc | 98 +++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 48a51d1..be1be9b 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -134,69 +134,53 @@ bool FlShm::InitializeShm(void)
 			umask(old_umask);
 			return false;
 		}
-		umask(old_umask);
-
-		// check lock & locking
-		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
-		bool			isSuccess = false;
-		for(int cnt = 0; cnt < 100; cnt++){						// total 1s
-			// try to lock write mode
-			if(FileWriteLock(FlShm::ShmFd, 0L)){
-				// re-initialize file
-				if(!FlShm::InitializeShmFile()){
-					ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					break;
-				}
-				// Change lock mode to read mode
-				if(!FileReadLock(FlShm::ShmFd, 0L)){
-					ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-					break;
-				}
-				isSuccess = true;
+	}
+	umask(old_umask);
+
+	// check lock & locking
+	//
+	// [NOTE]
+	// Another process can lock the file which is just created by this process, then
+	// the creating process must do same as other processes.
+	//
+	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};			// 10ms
+	bool			isSuccess = false;
+	for(int cnt = 0; cnt < 100; cnt++){							// total 1s
+		// try to lock write mode
+		if(FileWriteLock(FlShm::ShmFd, 0L)){
+			// re-initialize file
+			if(!FlShm::InitializeShmFile()){
+				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
 				break;
+			}
+			// Change lock mode to read mode
+			if(!FileReadLock(FlShm::ShmFd, 0L)){
+				ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
+				break;
+			}
+			isSuccess = true;
+			break;
 
-			}else{
-				// try to lock read mode
-				if(FileReadLock(FlShm::ShmFd, 0L)){
-					// attach
-					if(!FlShm::Attach()){
-						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					}else{
-						isSuccess = true;
-					}
-					break;
+		}else{
+			// try to lock read mode
+			if(FileReadLock(FlShm::ShmFd, 0L)){
+				// attach
+				if(!FlShm::Attach()){
+					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+				}else{
+					isSuccess = true;
 				}
-				MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+				break;
 			}
-			nanosleep(&sleeptime, NULL);
-		}
-		if(!isSuccess){
-			ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
+			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
+		nanosleep(&sleeptime, NULL);
+	}
 
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
+	if(!isSuccess){
+		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
+		FlShm::Detach();
+		return false;
 	}
 
 	// run epoll thread
-- 
2.43.0


From 73f97f49e7cd19501fb952b250ed0ff3fc6a501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:28 +0000
Subject: [PATCH 14/32] fix: process attached a half initialized shm file when
 its initializing process was killed

---
 lib/flckshminit.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index be1be9b..8cdec46 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -41,6 +41,7 @@ using namespace fullock;
 // Symbols
 //---------------------------------------------------------
 #define	FLCK_SHM_PERMS				(S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
+#define	FLCK_SHM_ATTACH_OFFSET		1L							// lock position for attaching(0 is for using)
 
 //---------------------------------------------------------
 // FlShm : Initialize Methods
@@ -142,12 +143,18 @@ bool FlShm::InitializeShm(void)
 	// [NOTE]
 	// Another process can lock the file which is just created by this process, then
 	// the creating process must do same as other processes.
+	// All processes lock FLCK_SHM_ATTACH_OFFSET while attaching. So that if another
+	// process locks the file here, it always has finished attaching it. (A process which
+	// is killed while initializing does not leave a half initialized file to others.)
 	//
 	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};			// 10ms
 	bool			isSuccess = false;
 	for(int cnt = 0; cnt < 100; cnt++){							// total 1s
+		if(!FileWriteLock(FlShm::ShmFd, FLCK_SHM_ATTACH_OFFSET)){
+			MSG_FLCKPRN("Another process is attaching %s, so retry...", FlShm::ShmPath().c_str());
+
 		// try to lock write mode
-		if(FileWriteLock(FlShm::ShmFd, 0L)){
+		}else if(FileWriteLock(FlShm::ShmFd, 0L)){
 			// re-initialize file
 			if(!FlShm::InitializeShmFile()){
 				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
@@ -173,9 +180,11 @@ bool FlShm::InitializeShm(void)
 				break;
 			}
 			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+			FileUnlock(FlShm::ShmFd, FLCK_SHM_ATTACH_OFFSET);
 		}
 		nanosleep(&sleeptime, NULL);
 	}
+	FileUnlock(FlShm::ShmFd, FLCK_SHM_ATTACH_OFFSET);
 
 	if(!isSuccess){
 		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-- 
2.43.0


From eb5bf83eb0e218b76694edea2013e95b12e6ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 15/32] fix: threads attaching at the same time in the retry
 modes used a half attached shm file

---
 lib/flckshm.cc     | 16 ++++++++++++++--
 lib/flckshm.h      |  1 +
 lib/flckshminit.cc |  5 +++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index f9d1607..fbcfb9a 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -26,6 +26,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <errno.h>
+#include <pthread.h>
 
 #include "flckcommon.h"
 #include "flckshm.h"
@@ -188,6 +189,7 @@ size_t				FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
 size_t				FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 int					FlShm::ShmFd				= FLCK_INVALID_HANDLE;
+volatile bool		FlShm::IsAttached			= false;
 std::string*		FlShm::pShmDirPath			= NULL;
 std::string*		FlShm::pShmFileName			= NULL;
 std::string*		FlShm::pShmPath				= NULL;
@@ -647,13 +649,23 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 // FlShm : Lock
 //---------------------------------------------------------
+// [NOTE]
+// Several threads can find that the shm file is not attached at same time, then only
+// one of them initializes it and others wait for it.
+//
 bool FlShm::CheckAttach(void)
 {
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+	if(FlShm::IsAttached){
 		return true;
 	}
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		if(FlShm::InitializeShm()){
+		static pthread_mutex_t	AttachMutex = PTHREAD_MUTEX_INITIALIZER;
+
+		pthread_mutex_lock(&AttachMutex);
+		bool	result = (FlShm::IsAttached || FlShm::InitializeShm());
+		pthread_mutex_unlock(&AttachMutex);
+
+		if(result){
 			// Success to initialize
 			return true;
 		}
diff --git a/lib/flckshm.h b/lib/flckshm.h
index bd5b067..a7b520b 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -88,6 +88,7 @@ class FlShm
 
 		// Shared memory
 		static int				ShmFd;							// shm file descriptor
+		static volatile bool	IsAttached;						// shm file is completely attached(ShmFd is set before it)
 		static std::string*		pShmDirPath;					// flck shm Directory path
 		static std::string*		pShmFileName;					// flck shm file name
 		static std::string*		pShmPath;						// flck shm file path
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 8cdec46..a30942e 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -88,6 +88,8 @@ bool FlShm::Attach(void)
 
 bool FlShm::Detach(void)
 {
+	FlShm::IsAttached = false;
+
 	// munmap
 	if(!FlShm::pShmBase){
 		WAN_FLCKPRN("Already munmap.");
@@ -223,6 +225,9 @@ bool FlShm::InitializeShm(void)
 			isSetForkHandler = true;
 		}
 	}
+	__sync_synchronize();
+	FlShm::IsAttached = true;
+
 	return true;
 }
 
-- 
2.43.0


From 25dd371abad635526d233f55e3fd47eb892b89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 16/32] fix: FLRwlRcsv keeps the lock of the global stack after
 it unlocked really

A change of the lock type unlocks the object first, which releases the
mutex of the global stack, and then searched the stack without it while
other threads changed it.
---
 lib/rwlockrcsv.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e5141a3..1a58a03 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -280,6 +280,11 @@ bool FLRwlRcsv::RawReadLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// RawUnlock releases mutex for global stack when it unlocks really
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_READ_LOCK;
 
@@ -368,6 +373,11 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// RawUnlock releases mutex for global stack when it unlocks really
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_WRITE_LOCK;
 
-- 
2.43.0


From 878e88480480543a54abc1404fb87a97455550f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 17/32] fix: FLRwlRcsv releases the lock of the global stack
 before it locks again

When a write lock over readers fails, the readers are locked again by
their Lock method, which waited forever for the mutex held by itself.
---
 lib/rwlockrcsv.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 1a58a03..765e8dc 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -453,6 +453,10 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				break;
 			}
 		}
+		// unlock mutex for global stack, because Lock method locks it
+		FLRwlRcsv::StackUnlock();
+		is_mutex_locked = false;
+
 		// re-lock pending list(and put into global stack)
 		for(flrwlrcsv_vec_t::iterator iter = PendingStack.begin(); iter != PendingStack.end(); ++iter){
 			(*iter)->has_locker	= false;
-- 
2.43.0


From 742498966c3c2f6b9f12731fa87131e8cc2a45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 18/32] fix: FLRwlRcsv does not leave a destroyed object in the
 global stack

An object whose unlock failed puts itself back into the stack, so that
its destructor left a dangling pointer there.
---
 lib/rwlockrcsv.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 765e8dc..fd66f4c 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -106,7 +106,17 @@ FLRwlRcsv::FLRwlRcsv(int fd, off_t offset, size_t length, bool is_read) : lock_t
 FLRwlRcsv::~FLRwlRcsv(void)
 {
 	bool	is_mutex_locked = false;
-	RawUnlock(is_mutex_locked);
+	if(!RawUnlock(is_mutex_locked)){
+		// could not unlock, then this object is left in global stack(mutex for global stack is locked)
+		for(flrwlrcsv_vec_t::iterator iter = FLRwlRcsv::Stack().begin(); iter != FLRwlRcsv::Stack().end(); ++iter){
+			// cppcheck-suppress unmatchedSuppression
+			// cppcheck-suppress useStlAlgorithm
+			if(this == (*iter)){
+				FLRwlRcsv::Stack().erase(iter);
+				break;
+			}
+		}
+	}
 
 	if(is_mutex_locked){
 		FLRwlRcsv::StackUnlock();
-- 
2.43.0


From 2ff81ae1b379bbff1ac0d05dbc82bb84770f103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:48 +0000
Subject: [PATCH 19/32] fix: re-initializing failed and attached the default
 shm file when it was the first call to the library

---
 lib/flckshm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index fbcfb9a..156c8e1 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -294,6 +294,12 @@ bool FlShm::InitializeObject(bool is_load_env)
 
 bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t filelockcnt, size_t offlockcnt, size_t lockercnt, size_t nmtxcnt, size_t ncondcnt, size_t waitercnt)
 {
+	// [NOTE]
+	// When this is the first call to this library, the singleton must be initialized here.
+	// Otherwise it is initialized(and attached) in the middle of this method.
+	//
+	FlShm::InitializeSingleton(NULL);
+
 	// check parameters
 	if(	(FLCK_INITCNT_DEFAULT != filelockcnt	&& (filelockcnt < FLCK_FLCKFILECNT_MIN	|| FLCK_FLCKFILECNT_MAX < filelockcnt))	||
 		(FLCK_INITCNT_DEFAULT != offlockcnt		&& (offlockcnt < FLCK_FLCKOFFETCNT_MIN	|| FLCK_FLCKOFFETCNT_MAX < offlockcnt))	||
-- 
2.43.0


From 0d68326d8d807222c96edf810904f13c7942a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 20/32] fix: the waiter count of a re-initialization was
 checked only when a locker count was given

---
 lib/flckshm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 156c8e1..edca342 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -306,7 +306,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
-- 
2.43.0


From 006aba9c8b659cd5ea16bf80b3eab5fb6377153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 21/32] fix: a directory path with more '..' than directories
 crashed

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index d46debc..b58f4c6 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -159,7 +159,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From 7489e2c88b978d419a5b8c8ff979a889f2a40196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 22/32] fix: a relative directory path crashed when the current
 directory was removed

---
 lib/flckutil.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index b58f4c6..37cdf55 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -129,6 +129,10 @@ bool GetRealPath(const char* pPath, string& strreal)
 	string	tmppath;
 	if('/' != pPath[0]){
 		char*	cur = get_current_dir_name();
+		if(!cur){
+			WAN_FLCKPRN("Could not get current directory, errno=%d", errno);
+			return false;
+		}
 		tmppath	= cur;
 		tmppath	+= "/";
 		tmppath	+= pPath;
-- 
2.43.0


From d1377f844206dbb487649827cdc2e2ccdf20d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:03 +0000
Subject: [PATCH 23/32] fix: re-initializing kept the condition and waiter
 counts of the last time as defaults

---
 lib/flckshm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index edca342..741fb7d 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -366,6 +366,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From 77c9e4079f31db17fcdb11040e3d4800a8835276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:15 +0000
Subject: [PATCH 24/32] fix: attaching a too short file that another program
 had locked crashed

---
 lib/flckshminit.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index a30942e..4e8b8ab 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -57,6 +57,13 @@ bool FlShm::Attach(void)
 		return false;
 	}
 
+	// The file must be large enough for what is mapped, because another program could lock it.
+	struct stat	st;
+	if(0 != fstat(FlShm::ShmFd, &st) || st.st_size < static_cast<off_t>(sizeof(FLHEAD))){
+		ERR_FLCKPRN("FlShm::ShmFd(%d) is not fullock shm file.", FlShm::ShmFd);
+		return false;
+	}
+
 	// At first mmap only head
 	PFLHEAD	pTmpHead;
 	if(NULL == (pTmpHead = reinterpret_cast<PFLHEAD>(RawMap(FlShm::ShmFd, sizeof(FLHEAD), 0)))){
@@ -76,6 +83,11 @@ bool FlShm::Attach(void)
 	// munmap
 	RawUnmap(pTmpHead, sizeof(FLHEAD));
 
+	if(length < sizeof(FLHEAD) || static_cast<size_t>(st.st_size) < length){
+		ERR_FLCKPRN("Fullock shm file length(%zu) is wrong, file size is %zd.", length, static_cast<ssize_t>(st.st_size));
+		return false;
+	}
+
 	// remmap
 	if(NULL == (FlShm::pShmBase = RawMap(FlShm::ShmFd, length, 0))){
 		ERR_FLCKPRN("Failed to mmap FlShm::ShmFd(%d), size(%zu)", FlShm::ShmFd, length);
-- 
2.43.0


From c11f231bae90536ad3ab2082bcac0ec7cc7825fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:22 +0000
Subject: [PATCH 25/32] fix: numbers in the environment that exceed an int were
 taken as other numbers

---
 lib/flckshm.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 741fb7d..240e1eb 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -26,6 +26,8 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
 #include <pthread.h>
 
 #include "flckcommon.h"
@@ -1144,11 +1146,11 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKROBUSTCHKCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKROBUSTCHKCNT);
 	}else{
-		time_t	tmpenvval = static_cast<time_t>(atoi(pEnvVal));
-		if(tmpenvval < FLCK_ROBUST_CHKCNT_MIN){
-			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be over %d.", FlShm::FLCKROBUSTCHKCNT, pEnvVal, FLCK_ROBUST_CHKCNT_MIN);
+		long	tmpenvval = strtol(pEnvVal, NULL, 10);
+		if(tmpenvval < FLCK_ROBUST_CHKCNT_MIN || INT_MAX < tmpenvval){
+			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKROBUSTCHKCNT, pEnvVal, FLCK_ROBUST_CHKCNT_MIN, INT_MAX);
 		}else{
-			FlShm::RobustLoopCnt = tmpenvval;
+			FlShm::RobustLoopCnt = static_cast<int>(tmpenvval);
 			MSG_FLCKPRN("Set rwlock checking limit count %d by ENV(%s=%s).", FlShm::RobustLoopCnt, FlShm::FLCKROBUSTCHKCNT, pEnvVal);
 		}
 	}
@@ -1237,7 +1239,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKFILECNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKFILECNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKFILECNT_MIN || FLCK_FLCKFILECNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKFILECNT, pEnvVal, FLCK_FLCKFILECNT_MIN, FLCK_FLCKFILECNT_MAX);
 		}else{
@@ -1250,7 +1252,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKOFFETCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKOFFETCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKOFFETCNT_MIN || FLCK_FLCKOFFETCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKOFFETCNT, pEnvVal, FLCK_FLCKOFFETCNT_MIN, FLCK_FLCKOFFETCNT_MAX);
 		}else{
@@ -1263,7 +1265,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKLOCKERCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKLOCKERCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKLOCKERCNT_MIN || FLCK_FLCKLOCKERCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKLOCKERCNT, pEnvVal, FLCK_FLCKLOCKERCNT_MIN, FLCK_FLCKLOCKERCNT_MAX);
 		}else{
@@ -1276,7 +1278,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKNMTXCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKNMTXCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKNMTXCNT_MIN || FLCK_FLCKNMTXCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKNMTXCNT, pEnvVal, FLCK_FLCKNMTXCNT_MIN, FLCK_FLCKNMTXCNT_MAX);
 		}else{
@@ -1289,7 +1291,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKNCONDCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKNCONDCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKNCONDCNT_MIN || FLCK_FLCKNCONDCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKNCONDCNT, pEnvVal, FLCK_FLCKNCONDCNT_MIN, FLCK_FLCKNCONDCNT_MAX);
 		}else{
@@ -1302,7 +1304,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKWAITERCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKWAITERCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(strtol(pEnvVal, NULL, 10));
 		if(tmpenvval < FLCK_FLCKWAITERCNT_MIN || FLCK_FLCKWAITERCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKWAITERCNT, pEnvVal, FLCK_FLCKWAITERCNT_MIN, FLCK_FLCKWAITERCNT_MAX);
 		}else{
-- 
2.43.0


From 9a5e9e87d02ae27ddb0e6fd0c47080ae856cc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:07 +0000
Subject: [PATCH 26/32] fix: the root directory was refused unless its path
 ended with a slash

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 37cdf55..07799e4 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -179,7 +179,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		strreal += "/";
 		strreal += *iter;
 	}
-	if(is_last_slash){
+	if(is_last_slash || strreal.empty()){
 		strreal += "/";
 	}
 	return true;
-- 
2.43.0


From d23bbf618a81acb89da00301cd295d8677169de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:10 +0000
Subject: [PATCH 27/32] fix: a refused re-initialization does not initialize
 the library

---
 lib/flckshm.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 240e1eb..5c1adda 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -296,12 +296,6 @@ bool FlShm::InitializeObject(bool is_load_env)
 
 bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t filelockcnt, size_t offlockcnt, size_t lockercnt, size_t nmtxcnt, size_t ncondcnt, size_t waitercnt)
 {
-	// [NOTE]
-	// When this is the first call to this library, the singleton must be initialized here.
-	// Otherwise it is initialized(and attached) in the middle of this method.
-	//
-	FlShm::InitializeSingleton(NULL);
-
 	// check parameters
 	if(	(FLCK_INITCNT_DEFAULT != filelockcnt	&& (filelockcnt < FLCK_FLCKFILECNT_MIN	|| FLCK_FLCKFILECNT_MAX < filelockcnt))	||
 		(FLCK_INITCNT_DEFAULT != offlockcnt		&& (offlockcnt < FLCK_FLCKOFFETCNT_MIN	|| FLCK_FLCKOFFETCNT_MAX < offlockcnt))	||
@@ -336,6 +330,12 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// [NOTE]
+	// When this is the first call to this library, the singleton must be initialized here.
+	// Otherwise it is initialized(and attached) in the middle of this method.
+	//
+	FlShm::InitializeSingleton(NULL);
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From 22ea08ce88bce48bcaf3ff0c989e785b53132142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:29 +0000
Subject: [PATCH 28/32] fix: a forked child did not close the handles of its
 parent's worker

---
 lib/flckthread.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..73dc2d2 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -380,6 +380,11 @@ bool FlckThread::ReInitializeThread(void)
 		FlckThread::pThreadParam = NULL;
 	}
 
+	// close old thread's handles(these are copied by forking)
+	FLCK_CLOSE(FlckThread::InotifyFd);
+	FLCK_CLOSE(FlckThread::EventFd);
+	FlckThread::WatchFd = FLCK_INVALID_HANDLE;
+
 	// initialize inner data
 	string	tmppath	= bup_filepath;
 	thflag			= FlckThread::FLCK_THCNTL_STOP;
-- 
2.43.0


From 4afa35abdbbee3e2ef49227a948c8601e3199895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:02 +0000
Subject: [PATCH 29/32] fix: the worker did not notice the death of a process
 which closed the shm file earlier than its death

---
 lib/flckthread.cc | 21 ++++++++++++++++++++-
 lib/flckthread.h  |  1 +
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 73dc2d2..42b0c93 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -90,6 +90,7 @@ inline void set_exit_thread_cntrl_flag(volatile FlckThread::THCNTLFLAG* pflag)
 //---------------------------------------------------------
 const int	FlckThread::DEFAULT_INTERVALMS;
 const int	FlckThread::FLCK_WAIT_EVENT_MAX;
+const int	FlckThread::FLCK_CHECK_INTERVALMS;
 int			FlckThread::InotifyFd			= FLCK_INVALID_HANDLE;
 int			FlckThread::WatchFd				= FLCK_INVALID_HANDLE;
 int			FlckThread::EventFd				= FLCK_INVALID_HANDLE;
@@ -219,6 +220,8 @@ void* FlckThread::WorkerProc(void* param)
 	// do loop
 	struct timespec		sleepms = {(intervalms / 1000), (intervalms % 1000) * 1000 * 1000};
 	struct epoll_event  events[FLCK_WAIT_EVENT_MAX];
+	int					nextms	= intervalms;								// interval to next checking without event
+	int					checkms	= nextms;									// rest of interval
 	while(FlckThread::FLCK_THCNTL_EXIT > *pThFlag){
 		pthread_testcancel();												// check cancel
 
@@ -249,6 +252,8 @@ void* FlckThread::WorkerProc(void* param)
 						if(!LocalFlShm.CheckProcessDead()){
 							WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
 						}
+						nextms	= intervalms;
+						checkms	= nextms;
 					}
 				}
 
@@ -260,7 +265,21 @@ void* FlckThread::WorkerProc(void* param)
 				// signal occurred.
 
 			}else{	// 0 == eventcnt
-				// timeouted, nothing to do
+				// [NOTE]
+				// The process which closes the file is not dead at the time of CLOSE event(it closes
+				// the file when it is exiting), and no event occurs if the file is still opened by
+				// another process which inherited it by forking, or if the process was dead before
+				// watching. Then it needs to check after event again, and at least each FLCK_CHECK_INTERVALMS.
+				//
+				checkms -= intervalms;
+				if(checkms <= 0){
+					FlShm	LocalFlShm;
+					if(!LocalFlShm.CheckProcessDead()){
+						WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+					}
+					nextms	= (FLCK_CHECK_INTERVALMS < (nextms * 2) ? FLCK_CHECK_INTERVALMS : (nextms * 2));
+					checkms	= nextms;
+				}
 			}
 		}
 	}
diff --git a/lib/flckthread.h b/lib/flckthread.h
index 67faf91..873aa60 100644
--- a/lib/flckthread.h
+++ b/lib/flckthread.h
@@ -48,6 +48,7 @@ class FlckThread
 
 	protected:
 		static const int	FLCK_WAIT_EVENT_MAX	= 32;		// wait event max count
+		static const int	FLCK_CHECK_INTERVALMS= 1000;	// max interval ms for checking without event
 		static int			InotifyFd;
 		static int			WatchFd;
 		static int			EventFd;
-- 
2.43.0


From c47e26d97bafc4ffce07b7373022528d3ee957a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:05 +0000
Subject: [PATCH 30/32] fix: attaching failed when another process made the
 directory at the same moment

---
 lib/flckutil.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 07799e4..961ed8c 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -224,19 +224,23 @@ bool MakeWorkDirectory(const char* pDirPath)
 			}
 			// Make directory
 			mode_t	old_umask = umask(0);
-			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS)){
-				WAN_FLCKPRN("Could not make directory(%s), errno=%d", fullpath.c_str(), errno);
+			if(0 == mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS)){
 				umask(old_umask);
-				return false;
+				continue;
 			}
+			int		result = errno;
 			umask(old_umask);
 
-		}else{
-			if(0 == (st.st_mode & S_IFDIR)){
-				WAN_FLCKPRN("%s is not directory.", fullpath.c_str());
+			// another process(thread) can have made it after stat
+			if(EEXIST != result || 0 != stat(fullpath.c_str(), &st)){
+				WAN_FLCKPRN("Could not make directory(%s), errno=%d", fullpath.c_str(), result);
 				return false;
 			}
 		}
+		if(0 == (st.st_mode & S_IFDIR)){
+			WAN_FLCKPRN("%s is not directory.", fullpath.c_str());
+			return false;
+		}
 	}
 	return true;
 }
-- 
2.43.0


From 33c30d2482ff8d32b9973270f7c785200d5a34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:29 +0000
Subject: [PATCH 31/32] fix: a child forked while another thread was attaching
 hung at its first call

---
 lib/flckshm.cc | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 5c1adda..b9e07f8 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -662,18 +662,41 @@ void FlShm::PreforkHandler(void)
 // [NOTE]
 // Several threads can find that the shm file is not attached at same time, then only
 // one of them initializes it and others wait for it.
+// Forking waits for it too, otherwise the child process inherits the locked mutex(and
+// the half initialized members) from the thread which does not exist in it.
 //
+static pthread_mutex_t	AttachMutex		= PTHREAD_MUTEX_INITIALIZER;
+static pthread_once_t	AttachForkOnce	= PTHREAD_ONCE_INIT;
+
+static void LockAttachMutex(void)
+{
+	pthread_mutex_lock(&AttachMutex);
+}
+
+static void UnlockAttachMutex(void)
+{
+	pthread_mutex_unlock(&AttachMutex);
+}
+
+static void SetAttachForkHandler(void)
+{
+	int	result = pthread_atfork(LockAttachMutex, UnlockAttachMutex, UnlockAttachMutex);
+	if(0 != result){
+		ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+	}
+}
+
 bool FlShm::CheckAttach(void)
 {
 	if(FlShm::IsAttached){
 		return true;
 	}
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		static pthread_mutex_t	AttachMutex = PTHREAD_MUTEX_INITIALIZER;
+		pthread_once(&AttachForkOnce, SetAttachForkHandler);
 
-		pthread_mutex_lock(&AttachMutex);
+		LockAttachMutex();
 		bool	result = (FlShm::IsAttached || FlShm::InitializeShm());
-		pthread_mutex_unlock(&AttachMutex);
+		UnlockAttachMutex();
 
 		if(result){
 			// Success to initialize
-- 
2.43.0


From 16765a81911613c2ee42a81b7fd957c5c41b6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:29 +0000
Subject: [PATCH 32/32] fix: a child forked while another thread used the
 scoped lock class hung at its first use

---
 lib/rwlockrcsv.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index fd66f4c..3dd3de0 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -15,6 +15,8 @@
  *
  */
 
+#include <pthread.h>
+
 #include "rwlockrcsv.h"
 #include "flckutil.h"
 #include "flckdbg.h"
@@ -34,7 +36,14 @@ class FLRwlRcsvHelper
 		flrwlrcsv_vec_t	FLRwlStack;
 
 	protected:
-		FLRwlRcsvHelper(void) : LockVal(FLCK_NOSHARED_MUTEX_VAL_UNLOCKED) {}
+		FLRwlRcsvHelper(void) : LockVal(FLCK_NOSHARED_MUTEX_VAL_UNLOCKED)
+		{
+			// Another thread can have the lock(and be changing the stack) at forking, and it does not exist in the child.
+			int	result = pthread_atfork(FLRwlRcsvHelper::Lock, FLRwlRcsvHelper::Unlock, FLRwlRcsvHelper::Unlock);
+			if(0 != result){
+				ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+			}
+		}
 		virtual ~FLRwlRcsvHelper(void) {}
 
 		static FLRwlRcsvHelper& GetFlShm(void)
-- 
2.43.0

