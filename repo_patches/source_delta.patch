From f9c2f39f4a1cda8549c622b3c5fed2ac3c14369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 01/29] fix: report errors of the last block of a hash stream
 instead of terminating

HashOutputStream wrote the last incomplete block in its noexcept destructor, so a write error (for example, a full disk)
while saving a value called std::terminate. Flush() is public now and it is called by HashingSerializable.
---
 Awl/Io/HashStream.h          | 26 ++++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..03ea25c 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -171,15 +171,21 @@ namespace awl
             {
             }
 
+            // A destructor can't report an error, so call Flush() when all the data has been written.
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
+            // Writes the last incomplete block.
             void Flush()
             {
                 if (!m_v.empty())
@@ -188,12 +194,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        // Do not write the block again with the hash appended to it.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From 016337cb7aa6229f8aa14d9a4be935a2c2a7f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 02/29] fix: do not lose the last good copy in AtomicStorage
 after a failed write, read or crash

- A save after a failed write of the master overwrote the backup, which was the only good copy at that moment.
- A transient error while reading the backup caused the backup to be cleared.
- A backup that was written by a killed process was not flushed before overwriting the master with it.
- An interrupted write left a mixture of the blocks of two values, and each of the blocks had a correct hash.
---
 Awl/Io/AtomicStorage.cpp | 35 ++++++++++++++++++++---------------
 Awl/Io/AtomicStorage.h   | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..40b4bd4 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -12,25 +12,36 @@ using namespace awl::io;
 
 bool AtomicStorage::Load(Value& val)
 {
-    bool backup_success = LoadFromFile(val, m_backup, LogLevel::Debug);
+    const bool backup_success = LoadFromFile(val, m_backup, LogLevel::Debug);
 
     if (backup_success)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
-        WriteToStream(m_s, val);
-    }
+        // If the process that wrote the backup was killed, the backup is probably not on the disk yet.
+        m_backup.Flush();
 
-    ClearBackup();
+        WriteMaster([&val](UniqueStream& s) { val.Write(s); });
+
+        ClearBackup();
 
-    if (backup_success)
-    {
         return true;
     }
 
     //No need to reset the data after unsuccessful read because Serializable::Read should do std::mvoe in its implementation.
 
-    bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
+    const bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
+
+    // If both reads failed, probably the backup can be read next time.
+    if (master_success)
+    {
+        if (m_masterDirty)
+        {
+            WriteMaster([&val](UniqueStream& s) { val.Write(s); });
+        }
+
+        ClearBackup();
+    }
 
     return master_success;
 }
@@ -39,9 +50,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
-
-        WriteToStream(m_s, val);
+        WriteBoth([&val](UniqueStream& s) { val.Write(s); });
     }
     else
     {
@@ -53,12 +62,8 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
-
-        WriteSnapshot(m_s, snapshotable, v);
+        WriteBoth([&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
     }
-    
-    ClearBackup();
 }
 
 bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level)
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..8d8a281 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_masterDirty = other.m_masterDirty;
             return *this;
         }
 
@@ -58,6 +59,8 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name)
         {
+            m_masterDirty = false;
+
             try
             {
                 m_s = awl::io::CreateUniqueFile(file_name);
@@ -100,20 +103,38 @@ namespace awl::io
         {
             s.Seek(0);
 
+            // If writing fails, the file should not contain a mixture of new and old blocks.
+            s.Truncate();
+
             func(s);
 
-            s.Truncate();
             s.Flush();
         }
 
-        static void WriteToStream(UniqueStream& s, const Value& val)
+        template <class Func>
+        void WriteMaster(Func&& func)
         {
-            WriteToStreamFunc(s, [&val](UniqueStream& s) { val.Write(s); });
+            // If writing fails, the backup is the only good copy.
+            m_masterDirty = true;
+
+            WriteToStreamFunc(m_s, std::forward<Func>(func));
+
+            m_masterDirty = false;
         }
 
-        static void WriteSnapshot(UniqueStream& s, const awl::io::Snapshotable<SequentialOutputStream>& snapshotable, const std::vector<uint8_t>& v)
+        // Writes with func(stream) to the backup and to the master.
+        template <class Func>
+        void WriteBoth(Func&& func)
         {
-            WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
+            // If the previous attempt to write the master failed, the backup should not be touched until the master is correct.
+            if (!m_masterDirty)
+            {
+                WriteToStreamFunc(m_backup, func);
+            }
+
+            WriteMaster(func);
+
+            ClearBackup();
         }
 
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
@@ -128,5 +149,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        // The master file is probably broken, because writing to it failed.
+        bool m_masterDirty = false;
     };
 }
-- 
2.43.0


From e5b06a5745290e694edf6c21a4092ae9e1cb17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 03/29] fix: do not change the value when AtomicStorage fails
 to determine the end of the file

---
 Awl/Io/AtomicStorage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 40b4bd4..6a71ab7 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -72,9 +72,12 @@ bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel
 
     try
     {
+        // Check the length before the value changes, because this can throw.
+        const size_t length = s.GetLength();
+
         ReadFromStream(s, val);
         
-        if (s.End())
+        if (s.GetPosition() == length)
         {
             success = true;
         }
-- 
2.43.0


From 25c1d692dcf436dc2712193bf5f1b3d4f4aeeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 04/29] fix: flush the master of AtomicStorage before clearing
 the backup when loading

If the process that wrote the master was killed, the loaded value was not on the disk yet.
---
 Awl/Io/AtomicStorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 6a71ab7..67394ff 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -39,6 +39,11 @@ bool AtomicStorage::Load(Value& val)
         {
             WriteMaster([&val](UniqueStream& s) { val.Write(s); });
         }
+        else
+        {
+            // If the process that wrote the master was killed, the master is probably not on the disk yet.
+            m_s.Flush();
+        }
 
         ClearBackup();
     }
-- 
2.43.0


From 157486a48c0a41c13fd034b4a567586d456db2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 05/29] fix: handle interrupted and partial reads and writes in
 PosixStream

---
 Platforms/Posix/Awl/Io/NativeStream.h | 81 +++++++++++++++++++++------
 1 file changed, 64 insertions(+), 17 deletions(-)

diff --git a/Platforms/Posix/Awl/Io/NativeStream.h b/Platforms/Posix/Awl/Io/NativeStream.h
index 91af013..6c6fa44 100644
--- a/Platforms/Posix/Awl/Io/NativeStream.h
+++ b/Platforms/Posix/Awl/Io/NativeStream.h
@@ -17,6 +17,20 @@
 
 namespace awl::io
 {
+    // Repeats a system call while it is interrupted by a signal.
+    template <class Func>
+    auto RetryIfInterrupted(Func&& func)
+    {
+        auto result = func();
+
+        while (result == -1 && errno == EINTR)
+        {
+            result = func();
+        }
+
+        return result;
+    }
+
     template <class FileHandle>
     class PosixStream : public IoStream
     {
@@ -53,26 +67,53 @@ namespace awl::io
 
         size_t Read(uint8_t* buffer, size_t count) override
         {
-            const ssize_t read_count = ::read(m_hFile, buffer, count);
+            size_t total_count = 0;
 
-            Check(read_count);
-            
-            return static_cast<size_t>(read_count);
+            // ::read can return fewer bytes than requested, zero means the end of the file.
+            while (total_count != count)
+            {
+                const ssize_t read_count = RetryIfInterrupted([&]()
+                {
+                    return ::read(m_hFile, buffer + total_count, count - total_count);
+                });
+
+                Check(read_count);
+
+                if (read_count == 0)
+                {
+                    break;
+                }
+
+                total_count += static_cast<size_t>(read_count);
+            }
+
+            return total_count;
         }
 
         void Write(const uint8_t* buffer, size_t count) override
         {
-            const ssize_t written_count = ::write(m_hFile, buffer, count);
+            size_t total_count = 0;
 
-            if (written_count == static_cast<ssize_t>(-1))
+            // ::write can write fewer bytes than requested.
+            while (total_count != count)
             {
-                throw PosixException("::write failed. This may indicate that the disk is full.");
-            }
-
-            if (static_cast<size_t>(written_count) != count)
-            {
-                throw PosixException(format() << _T("Requested ") << count
-                    << _T(" bytes, but actually written ") << written_count << _T("."));
+                const ssize_t written_count = RetryIfInterrupted([&]()
+                {
+                    return ::write(m_hFile, buffer + total_count, count - total_count);
+                });
+
+                if (written_count == static_cast<ssize_t>(-1))
+                {
+                    throw PosixException("::write failed. This may indicate that the disk is full.");
+                }
+
+                if (written_count == 0)
+                {
+                    throw PosixException(format() << _T("Requested ") << count
+                        << _T(" bytes, but actually written ") << total_count << _T("."));
+                }
+
+                total_count += static_cast<size_t>(written_count);
             }
         }
 
@@ -93,7 +134,7 @@ namespace awl::io
 
         void Flush() override
         {
-            Check(::fsync(m_hFile));
+            Check(RetryIfInterrupted([this]() { return ::fsync(m_hFile); }));
         }
 
         void Truncate() override
@@ -102,7 +143,7 @@ namespace awl::io
 
             Check(pos);
 
-            Check(::ftruncate(m_hFile, pos));
+            Check(RetryIfInterrupted([this, pos]() { return ::ftruncate(m_hFile, pos); }));
         }
 
         String GetFileName() const
@@ -144,7 +185,10 @@ namespace awl::io
         openedExisting = access(file_name.c_str(), F_OK) != -1;
         
         // user readable and writable
-        HANDLE hFile = ::open(file_name.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+        HANDLE hFile = RetryIfInterrupted([&file_name]()
+        {
+            return ::open(file_name.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+        });
 
         if (hFile == NullHandleValue)
         {
@@ -161,7 +205,10 @@ namespace awl::io
 
     inline UniqueFileHandle OpenUniqueFile(const String& file_name)
     {
-        HANDLE hFile = ::open(file_name.c_str(), O_RDONLY);
+        HANDLE hFile = RetryIfInterrupted([&file_name]()
+        {
+            return ::open(file_name.c_str(), O_RDONLY);
+        });
 
         if (hFile == NullHandleValue)
         {
-- 
2.43.0


From ec3dc33298aa160881033b08b43171f7c56e94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 06/29] fix: write the loaded copy of AtomicStorage again
 before touching the other copy

If the process that wrote the file was killed or flushing the file failed, its content can be in the cache but not on the disk.
---
 Awl/Io/AtomicStorage.cpp | 14 +++++---------
 Awl/Io/AtomicStorage.h   | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 67394ff..50f9a53 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,8 +18,7 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
-        // If the process that wrote the backup was killed, the backup is probably not on the disk yet.
-        m_backup.Flush();
+        Rewrite(m_backup);
 
         WriteMaster([&val](UniqueStream& s) { val.Write(s); });
 
@@ -35,14 +34,11 @@ bool AtomicStorage::Load(Value& val)
     // If both reads failed, probably the backup can be read next time.
     if (master_success)
     {
-        if (m_masterDirty)
+        if (m_masterDirty || m_backup.GetLength() != 0)
         {
-            WriteMaster([&val](UniqueStream& s) { val.Write(s); });
-        }
-        else
-        {
-            // If the process that wrote the master was killed, the master is probably not on the disk yet.
-            m_s.Flush();
+            Rewrite(m_s);
+
+            m_masterDirty = false;
         }
 
         ClearBackup();
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 8d8a281..efbd962 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -10,6 +10,8 @@
 #include "Awl/Io/Serializable.h"
 #include "Awl/Io/NativeStream.h"
 #include "Awl/Io/Snapshotable.h"
+
+#include <vector>
 #include <cassert>
 
 namespace awl::io
@@ -137,6 +139,25 @@ namespace awl::io
             ClearBackup();
         }
 
+        // The content can be in the cache of the operating system but not on the disk, if the process that wrote it was killed,
+        // or if flushing it failed: the next flush does not write the same pages again, so they should be modified.
+        static void Rewrite(UniqueStream& s)
+        {
+            std::vector<uint8_t> v(s.GetLength());
+
+            s.Seek(0);
+
+            if (s.Read(v.data(), v.size()) != v.size())
+            {
+                throw ReadFailException();
+            }
+
+            // The file is not truncated, so it remains correct if this is interrupted.
+            s.Seek(0);
+            s.Write(v.data(), v.size());
+            s.Flush();
+        }
+
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         void ClearBackup()
-- 
2.43.0


From 7c49cc28ee055de0c6ab8945fc089464c852fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 07/29] fix: do not leak or keep captured objects when pushing
 to UpdateQueue fails or it is cleared

---
 Awl/UpdateQueue.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..1154883 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -18,7 +18,7 @@ namespace awl
     {
         struct Message : public awl::quick_link
         {
-            Message(const std::function<void(Args ...)> & func) : Func(func)
+            Message(std::function<void(Args ...)> && func) : Func(std::move(func))
             {
             }
 
@@ -55,28 +55,35 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
+            //a destructor of a lambda expression can access the queue
+            MessageQueue clearedMessages;
+            clearedMessages = std::move(pendingMessages);
+
             //put them directly to freeBlocks, but not to renderingMessages
             //note that using pendingMessages.clear() here will result in memory leak
-            freeBlocks.push_back(pendingMessages);
+            Recycle(clearedMessages);
         }
 
         //called by UI thread to propagate changes to render thread
         void Push(const std::function<void(Args ...)> & func)
         {
+            //copying the function can throw an exception, so do it while there is nothing to lose
+            std::function<void(Args ...)> func_copy(func);
+
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
             Message * p_message = nullptr;
 
             if (freeBlocks.empty())
             {
-                p_message = new Message(func);
+                p_message = new Message(std::move(func_copy));
             }
             else
             {
                 p_message = freeBlocks.pop_front();
-            }
 
-            p_message->Func = func;
+                p_message->Func = std::move(func_copy);
+            }
 
             pendingMessages.push_back(p_message);
         }
@@ -132,14 +139,19 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
-            for (Message * p_message : renderingMessages)
+            Recycle(renderingMessages);
+        }
+
+        void Recycle(MessageQueue & messages)
+        {
+            for (Message * p_message : messages)
             {
                 //release lambda expression
                 p_message->Func = std::function<void(Args ...)>();
             }
 
-            //recycle renderingMessages (also very short operation)
-            freeBlocks.push_back(renderingMessages);
+            //recycle the messages (also very short operation)
+            freeBlocks.push_back(messages);
         }
 
         //an update can queue another updates by calling Push() while it is processed, so the mutex is recursive
-- 
2.43.0


From 3aa5d8b65e01a939f3a85d5a307b9a85fb9d60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 08/29] fix: do not lose a stop request that comes right before
 sleep_for starts waiting

---
 Awl/Sleep.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..6008f28 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,20 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                {
+                    // Otherwise the notification can come between checking the token and waiting and be lost.
+                    std::lock_guard<std::mutex> guard{ mutex };
+                }
+
                 cv.notify_one();
             }
         };
 
+        // The callback can be called by the constructor of stop_wait, so the mutex is locked after it.
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From 8cc211a8117bbc33b4b25ca6f001ab768798a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 09/29] fix: start the thread of watch_dog after and join it
 before the members it uses

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..fa2b2a1 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
+            m_log(log),
             m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
-            m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_callback(m_token, std::bind(&watch_dog::callback_proc, this))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
+        std::function<void()> m_log;
+
+        //The thread uses all the members above, so it should be started after they are constructed and joined before they are destroyed.
         std::jthread m_thread;
 
         std::stop_callback<std::function<void()>> m_callback;
-
-        std::function<void()> m_log;
     };
 }
-- 
2.43.0


From f88cf9b2a25cf96bc8b3435ccebf75b19a442c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 10/29] fix: do not delete the stop state while there are other
 tokens but no sources

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..2742824 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,8 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    // Check if this was the last reference, there can be other tokens even if there are no sources.
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From a074bb1030b1b4a30fc946c3e01fe94059835d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 11/29] fix: destroy the coroutine when a finished UpdateTask
 is released

---
 Awl/Coro/UpdateTask.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..6a3d221 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,7 +146,15 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                // There will be no final suspend that destroys it.
+                m_h.destroy();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
+            }
 
             m_h = nullptr;
         }
-- 
2.43.0


From b0fdfc2ee5f0708cbc7299dded7cfc2a0cc23033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 12/29] fix: resume the coroutines of TimeQueue in the order of
 their deadlines

---
 Awl/Testing/TimeQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..e1cd931 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -49,7 +49,7 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        using Compare = member_compare<&Task::targetTime, std::greater<>>; // the earliest on the top
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From 379ef714b2ac9726297739db09c988064160f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 13/29] fix: do not deliver a block of a hash stream that was
 not completely read or verified

---
 Awl/Io/HashStream.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 03ea25c..8632e3b 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -44,7 +44,19 @@ namespace awl
 
             bool InternalEnd()
             {
-                PeekBuf();
+                try
+                {
+                    PeekBuf();
+                }
+                catch (...)
+                {
+                    // Do not leave a block that was not completely read or verified.
+                    m_block.clear();
+
+                    m_i = m_block.end();
+
+                    throw;
+                }
 
                 return m_i == m_block.end();
             }
-- 
2.43.0


From 0e64d9b41bdd07156a9d16f61a45bc640f6fffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 14/29] fix: report read errors of StdInputStream instead of
 the end of file

---
 Awl/Io/StdStream.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/Io/StdStream.h b/Awl/Io/StdStream.h
index 6b47935..8b56ebc 100644
--- a/Awl/Io/StdStream.h
+++ b/Awl/Io/StdStream.h
@@ -25,6 +25,12 @@ namespace awl
                 //good() returns false at the end of file.
                 m_in.read(reinterpret_cast<char *>(buffer), count);
 
+                //An error is not the end of file.
+                if (m_in.bad())
+                {
+                    throw ReadFailException();
+                }
+
                 const size_t actually_read = m_in.gcount();
 
                 return actually_read;
-- 
2.43.0


From 837b9aca1a21a1524cc523b7412da55ff7bb3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 15/29] fix: do not leak or keep half inserted nodes when
 vector_set throws

---
 Awl/VectorSet.h | 67 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..17126ca 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -168,23 +168,33 @@ namespace awl
 
         Node * CreateNode(const T & val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
+            return ConstructNode(val);
         }
 
         Node * CreateNode(T && val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
+            return ConstructNode(std::move(val));
         }
 
         template <class... Args>
         Node * CreateNode(Args&&... args)
+        {
+            return ConstructNode(std::forward<Args>(args) ...);
+        }
+
+        template <class... Args>
+        Node * ConstructNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
             return node;
         }
 
@@ -194,6 +204,19 @@ namespace awl
             m_nodeAlloc.deallocate(node, 1);
         }
 
+        //Destroys a node that is not included in the tree.
+        struct NodeDeleter
+        {
+            vector_set * owner;
+
+            void operator () (Node * node) const
+            {
+                owner->DestroyNode(node);
+            }
+        };
+
+        using NodePtr = std::unique_ptr<Node, NodeDeleter>;
+
         using List = quick_list<Node>;
 
     public:
@@ -228,7 +251,8 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        //The constructors that copy the elements delegate, so the elements already copied are destroyed if copying throws.
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -239,7 +263,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -277,10 +301,14 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            //Not an assignment to itself.
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
             return *this;
         }
 
@@ -354,15 +382,15 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            NodePtr val_node(CreateNode(std::forward<Args>(args) ...), NodeDeleter{ this });
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
             if (!exists)
             {
-                node = val_node.release();
+                node = val_node.get();
                 InsertNode(node, parent);
+                val_node.release();
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
@@ -758,14 +786,17 @@ namespace awl
 
             if (!exists)
             {
-                node = CreateNode(std::forward<V>(val));
+                NodePtr val_node(CreateNode(std::forward<V>(val)), NodeDeleter{ this });
+                node = val_node.get();
                 InsertNode(node, parent);
+                val_node.release();
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
         }
 
         //Inserts a node that does not exist to the specified parent.
+        //The elements are compared, which can throw, only before the node is included in the tree.
         void InsertNode(Node * node, Node * parent)
         {
             node->parent = parent;
@@ -795,12 +826,10 @@ namespace awl
             Node * pred = GetPredecessor(node);
             if (pred != nullptr)
             {
-                assert(m_comp(pred->value, node->value));
                 m_list.insert(typename List::iterator(pred), node);
             }
             else
             {
-                assert(node == m_root || m_comp(node->value, front()));
                 m_list.push_front(node);
             }
         }
-- 
2.43.0


From d7c2e235d736ea796d4b8c158690e2428daf1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 16/29] fix: keep ring valid without a buffer and when its
 elements throw

---
 Awl/Ring.h | 135 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 76 insertions(+), 59 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..0f26bef 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -176,8 +176,7 @@ namespace awl
         using reverse_iterator = std::reverse_iterator<iterator>;
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-        ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+        ring(Allocator alloc = {}) : m_alloc(alloc)
         {
         }
 
@@ -188,7 +187,8 @@ namespace awl
             assert(cap != 0);
         }
 
-        ring(const ring & other)
+        //It delegates, so the elements already copied are destroyed if copying throws.
+        ring(const ring & other) : ring()
         {
             copy(other);
         }
@@ -203,7 +203,7 @@ namespace awl
         ring & operator = (const ring & other)
         {
             //Not an assignment to itself.
-            if (m_buf != other.m_buf)
+            if (this != &other)
             {
                 free();
 
@@ -216,7 +216,7 @@ namespace awl
         ring & operator = (ring && other) noexcept
         {
             //Not an assignment to itself.
-            if (m_buf != other.m_buf)
+            if (this != &other)
             {
                 free();
 
@@ -242,37 +242,21 @@ namespace awl
         {
             assert(cap != 0);
 
-            T * buf = m_alloc.allocate(cap);
+            //The new ring destroys its elements if moving throws, in which case this ring keeps all its elements.
+            ring other(cap, m_alloc);
 
-            size_type min_size;
-            
-            if (m_buf != nullptr)
-            {
-                min_size = std::min(cap, size());
-
-                for (size_type i = 0; i != min_size; ++i)
-                {
-                    new (buf + i) T(std::move(operator[](size() - min_size + i)));
-                }
+            const size_type min_size = std::min(cap, size());
 
-                free();
-            }
-            else
+            for (size_type i = 0; i != min_size; ++i)
             {
-                min_size = 0;
+                other.push_back(std::move_if_noexcept(operator[](size() - min_size + i)));
             }
 
-            m_buf = buf;
-            m_capacity = cap;
-
-            m_data = m_buf;
-            m_size = min_size;
+            *this = std::move(other);
         }
 
         void clear()
         {
-            assert(m_buf != nullptr);
-
             while(!empty())
             {
                 pop_front();
@@ -290,22 +274,22 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            emplace_prev(val);
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            emplace_prev(std::move(val));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            emplace_next(val);
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            emplace_next(std::move(val));
         }
 
         void pop_front()
@@ -392,7 +376,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
@@ -495,42 +479,67 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
+        //The size changes only after the element has been constructed, so if its constructor throws the ring does not contain it.
+        template <class V>
+        void emplace_next(V && val)
         {
-            T * const p_write = data_end();
-
             if (full())
             {
-                assert(m_data == p_write);
+                //A ring that has not been given a capacity stays empty.
+                if (capacity() != 0)
+                {
+                    //val can be an element of this ring.
+                    T copy(std::forward<V>(val));
 
-                m_data->~T();
+                    pop_front();
 
-                m_data = next(m_data);
+                    construct_next(std::move(copy));
+                }
             }
             else
             {
-                ++m_size;
+                construct_next(std::forward<V>(val));
             }
-
-            return p_write;
         }
 
-        T * allocate_prev()
+        template <class V>
+        void emplace_prev(V && val)
         {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
-
-            if (saved_full)
+            if (full())
             {
-                m_data->~T();
+                if (capacity() != 0)
+                {
+                    T copy(std::forward<V>(val));
+
+                    pop_back();
+
+                    construct_prev(std::move(copy));
+                }
             }
             else
             {
-                ++m_size;
+                construct_prev(std::forward<V>(val));
             }
+        }
+
+        template <class V>
+        void construct_next(V && val)
+        {
+            new (data_end()) T(std::forward<V>(val));
 
-            return m_data;
+            ++m_size;
+        }
+
+        template <class V>
+        void construct_prev(V && val)
+        {
+            T * const p = prev(m_data);
+
+            new (p) T(std::forward<V>(val));
+
+            m_data = p;
+
+            ++m_size;
         }
 
         void free()
@@ -541,13 +550,17 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -561,11 +574,15 @@ namespace awl
 
         void copy(const ring & other)
         {
-            m_capacity = other.m_capacity;
-            m_buf = m_alloc.allocate(m_capacity);
+            //There is nothing to copy from a ring without a buffer.
+            if (other.m_buf != nullptr)
+            {
+                m_buf = m_alloc.allocate(other.m_capacity);
+                m_capacity = other.m_capacity;
 
-            m_data = m_buf;
-            m_size = 0;
+                m_data = m_buf;
+                m_size = 0;
+            }
 
             for (const T & val : other)
             {
@@ -575,11 +592,11 @@ namespace awl
 
         Allocator m_alloc;
 
-        T * m_buf;
-        std::size_t m_capacity;
+        T * m_buf = nullptr;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From 16bd970fd037efdd8a1baefeaa1d7695bd0ba7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 17/29] fix: keep a moved scope_guard disengaged

---
 Awl/ScopeGuard.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..bf0baf3 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,7 +23,7 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(other.engaged)
         {
             other.engaged = false;
         }
@@ -31,6 +31,7 @@ namespace awl
         scope_guard & operator = (scope_guard && other)
         {
             free = std::move(other.free);
+            engaged = other.engaged;
             other.engaged = false;
             return *this;
         }
-- 
2.43.0


From 8f23aafa002fd32b29f688c95de4a5cb0944b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 18/29] fix: do not make a pooled object available before it is
 finalized

---
 Awl/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..ebecbcb 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,9 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
+                //The object should not be given to anyone until it is finalized.
                 p->Finalize();
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From ffa66b6c9acc11305522e24c340c3b3b5bbe73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 19/29] fix: replace the old elements when a collection, an
 optional or a pointer is read

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 Awl/Io/Rw/OptionalReadWrite.h   | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h    | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From 55e234f515d443eec5205fd3172641dc49c6e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 20/29] fix: restore the old value whatever exception
 interrupts a version tolerant read

---
 Awl/Io/VersionTolerantSerializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..f8b5aaf 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,7 +62,7 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
                         // Restore old value.
                         ReadSnapshot(v);
-- 
2.43.0


From 156126a227b0c24c24bc4d20c5c38f88a33250a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 21/29] fix: do not keep the field map of incompatible
 prototypes

---
 Awl/Io/Reader.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..e022753 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -381,10 +381,9 @@ namespace awl::io
             
             std::optional<ProtoMap> & pm = protoMaps[old_struct_index];
 
-            pm = ProtoMap{};
+            //If the prototypes are incompatible, nothing is stored.
+            pm = ProtoMap{ new_index, MakeProtoMap<Struct>(old_struct_index, new_index) };
             assert(pm.has_value());
-            pm->newStructIndex = new_index;
-            pm->fieldMap = MakeProtoMap<Struct>(old_struct_index, new_index);
 
             return pm->fieldMap;
         }
-- 
2.43.0


From 803650828827b1cf10528737100a4dfe74029476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 22/29] fix: the test runner exits with zero when the tests
 have passed and with one when they have failed

---
 Awl/Testing/TestConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/Testing/TestConsole.cpp b/Awl/Testing/TestConsole.cpp
index 7a743f1..0b1bbbc 100644
--- a/Awl/Testing/TestConsole.cpp
+++ b/Awl/Testing/TestConsole.cpp
@@ -83,7 +83,7 @@ namespace awl::testing
 
             awl::cout() << _T("Total ") << test_map->GetCount(f) << _T(" tests.") << std::endl;
 
-            return 0;
+            return true;
         }
 
         auto test_map = awl::testing::CreateTestMap();
@@ -134,7 +134,7 @@ namespace awl::testing
     {
         try
         {
-            return RunTests();
+            return RunTests() ? 0 : 1;
         }
         catch (const TestException& e)
         {
-- 
2.43.0


From d8736af244e0bdd6445a0b911e14a56b198d9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 23/29] fix: Assert::Throws reports the absence of an exception
 also when a TestException is expected

---
 Awl/Testing/TestAssert.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..a3eb5e7 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -54,11 +54,13 @@ namespace awl::testing
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                return;
             }
+
+            Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
         }
     };
 }
-- 
2.43.0


From b488063f579357c9b2601f5b5da49553a13e9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 24/29] fix: interruptible sleep of a duration close to the
 maximum returned at once

---
 Awl/Sleep.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 6008f28..6ec493d 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -43,9 +43,21 @@ namespace awl
         // The callback can be called by the constructor of stop_wait, so the mutex is locked after it.
         std::unique_lock<std::mutex> lock{ mutex };
 
-        cv.wait_for(lock, d, [&token]()
+        const auto stopped = [&token]()
         {
             return token.stop_requested();
-        });
+        };
+
+        const auto now = std::chrono::steady_clock::now();
+
+        // The end of a long sleep, hours::max() for example, can be not representable. The comparison is not exact.
+        if (std::chrono::duration<double>(d) >= std::chrono::steady_clock::time_point::max() - now - std::chrono::seconds(1))
+        {
+            cv.wait(lock, stopped);
+        }
+        else
+        {
+            cv.wait_until(lock, now + std::chrono::ceil<std::chrono::steady_clock::duration>(d), stopped);
+        }
     }
 }
-- 
2.43.0


From 5cc2c3735713139f62704a263f36d610fa7626b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 25/29] fix: timer queue resumed a coroutine with a timeout
 close to the maximum at once

---
 Awl/Testing/TimeQueue.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index e1cd931..fa25f4d 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -3,6 +3,7 @@
 // Author: Dmitriano
 /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
 #include <chrono>
 #include <queue>
 #include <vector>
@@ -19,7 +20,12 @@ namespace awl::testing
 
         void push(std::coroutine_handle<> handle, std::chrono::nanoseconds timeout)
         {
-            m_tasks.push(Task{ std::chrono::steady_clock::now() + timeout, handle });
+            const auto now = std::chrono::steady_clock::now();
+
+            // Adding a long timeout, nanoseconds::max() for example, would overflow.
+            const auto remaining = std::chrono::steady_clock::time_point::max() - now;
+
+            m_tasks.push(Task{ now + std::min<std::chrono::steady_clock::duration>(timeout, remaining), handle });
         }
 
         void loop()
-- 
2.43.0


From 264a06319b2e565b1f3113c8e1f16e4d32a088fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 26/29] fix: stop watch reported intervals longer than the
 clock can represent as elapsed

---
 Awl/StopWatch.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Awl/StopWatch.h b/Awl/StopWatch.h
index 76c86ef..8768b02 100644
--- a/Awl/StopWatch.h
+++ b/Awl/StopWatch.h
@@ -51,6 +51,17 @@ namespace awl
         template <class Duration>
         bool HasElapsed(Duration interval) const
         {
+            // A long interval, hours::max() for example, can't be casted to the duration of the clock.
+            if (std::chrono::duration<double>(interval) >= std::chrono::steady_clock::duration::max())
+            {
+                return false;
+            }
+
+            if (std::chrono::duration<double>(interval) <= std::chrono::steady_clock::duration::min())
+            {
+                return true;
+            }
+
             return GetElapsedTime() >= std::chrono::duration_cast<std::chrono::steady_clock::duration>(interval);
         }
 
-- 
2.43.0


From 8a3663658f6b8ac0863f19be61b9da4f84c72d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 27/29] fix: interruptible condition wait for a duration close
 to the maximum timed out at once

---
 Extras/JThread/JThreadExtras/condition_variable_any2.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Extras/JThread/JThreadExtras/condition_variable_any2.hpp b/Extras/JThread/JThreadExtras/condition_variable_any2.hpp
index f9b78b1..ef6aa7b 100644
--- a/Extras/JThread/JThreadExtras/condition_variable_any2.hpp
+++ b/Extras/JThread/JThreadExtras/condition_variable_any2.hpp
@@ -286,10 +286,14 @@ inline bool condition_variable_any2::wait_for(Lockable& lock,
                                               const chrono::duration<Rep, Period>& rel_time,
                                               Predicate pred)
 {
-  auto abs_time = std::chrono::steady_clock::now() + rel_time;
+  const auto now = std::chrono::steady_clock::now();
+  // the end of a long wait, hours::max() for example, can be not representable, the comparison is not exact
+  if (std::chrono::duration<double>(rel_time) >= std::chrono::steady_clock::time_point::max() - now - std::chrono::seconds(1)) {
+    return wait(lock, std::move(stoken), std::move(pred));
+  }
   return wait_until(lock,
                     std::move(stoken),
-                    abs_time,
+                    now + rel_time,
                     std::move(pred));
 }
 
-- 
2.43.0


From d58fdc8991c2a983854e829cd93b0ab9f8218398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 28/29] fix: do not abort when closing a file reports an
 interruption or an I/O error

---
 Platforms/Posix/Awl/Io/UniqueHandle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Platforms/Posix/Awl/Io/UniqueHandle.h b/Platforms/Posix/Awl/Io/UniqueHandle.h
index 712ef3b..c4bfbdc 100644
--- a/Platforms/Posix/Awl/Io/UniqueHandle.h
+++ b/Platforms/Posix/Awl/Io/UniqueHandle.h
@@ -8,6 +8,7 @@
 #include "NonOwningHandle.h"
 
 #include <cassert>
+#include <cerrno>
 
 namespace awl::io
 {
@@ -70,7 +71,8 @@ namespace awl::io
             {
                 int res = ::close(m_h);
 
-                assert(res == 0);
+                // The descriptor is released also if an interruption or an I/O error is reported.
+                assert(res == 0 || errno != EBADF);
                 static_cast<void>(res);
 
                 m_h = NullHandleValue;
-- 
2.43.0


From 0ce21041f893012f030357319d96121fc58b57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 29/29] fix: read a structure written when it had no fields
 with its new fields missing

---
 Awl/Io/Reader.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index e022753..d5ed2f0 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -233,9 +233,10 @@ namespace awl::io
 
                 const std::vector<size_t> name_map = this->template FindProtoMap<Struct>(old_struct_index);
 
-                //An empty map means either an empty structure or equal prototypes
-                //(the prototypes of empty structures are equal).
-                if (name_map.empty())
+                //An empty map means either an empty old structure or equal prototypes,
+                //and an empty old structure can be not equal to the new one.
+                if (name_map.empty() &&
+                    oldPrototypes[old_struct_index].GetCount() == this->template FindNewPrototype<Struct>().GetCount())
                 {
                     //Read in the same way we write it.
                     ReadTuplizable(s, val);
-- 
2.43.0

