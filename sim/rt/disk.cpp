// Simulated disk: files below /simdisk/ live in memory. Every file has a cached content (what processes read) and a durable
// content plus the not yet synced operations; a crash keeps an arbitrary part of those.
#include "sim.h"
#include "rt_int.h"

#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <cstdio>
#include <map>
#include <memory>
#include <algorithm>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>

namespace sim
{
    namespace rt
    {
        ssize_t real_write(int fd, const void* p, size_t n) { long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_write), "D"(fd), "S"(p), "d"(n) : "rcx", "r11", "memory"); return r; }
        extern "C" void sim_range(const void* p, size_t n, int write, const void* pc) { accessRange(p, n, write != 0, pc); }
        extern "C" bool sim_active(void) { return in_sim && !in_rt; }
    }
    using namespace rt;

    namespace disk
    {
        static const char Prefix[] = "/simdisk/";
        constexpr int FdBase = 100000;

        struct Op { bool trunc; uint64_t off; std::string data; }; // trunc: off is the new length
        struct Inode { int id; std::string cache, durable; std::vector<Op> pend; bool regular = true; mode_t mode = 0600; uint64_t base = 0; /* the file begins with that many zeroes which are not stored */ uint64_t size() const { return base + cache.size(); } };
        using InodeP = std::shared_ptr<Inode>;
        using Dir = std::map<std::string, InodeP>;
        struct MetaOp { int type; std::string a, b; InodeP ino; }; // 0 create a, 1 unlink a, 2 rename a -> b
        struct Fd { InodeP ino; uint64_t off; int flags; bool open; std::string path; };

        static Dir cur, durDir;
        static std::vector<MetaOp> metaPend;
        static std::vector<Fd> fds;
        static int nextIno;
        static uint64_t opCount, crashOp, firedCount, hardCount; static bool crashArmed, crashLoss, isCrashed;
        static Dir image;
        static uint32_t sector = 64;
        static uint64_t capacity;
        static Faults flt;
        
        static void resize(std::string& s, uint64_t n) { s.resize(size_t(n), '\0'); }
        static void applyOp(std::string& s, const Op& o)
        {
            if (o.trunc) { resize(s, o.off); return; }
            if (s.size() < o.off + o.data.size()) resize(s, o.off + o.data.size());
            memcpy(&s[size_t(o.off)], o.data.data(), o.data.size());
        }

        // What is left of a file when the power is lost: a prefix of the size changes, and for every sector either the durable
        // content or that after any of the pending writes that touch it.
        static std::string crashContent(const Inode& f)
        {
            uint32_t n = uint32_t(f.pend.size());
            if (n == 0) return f.durable;
            uint32_t how = choose(K_CRASHIMG, 4);   // 0: nothing more is durable, 1: everything, 2: prefix, 3: arbitrary
            if (how == 0) return f.durable;
            uint32_t cut = how == 1 ? n : choose(K_CRASHIMG, n + 1);
            // the size after the prefix
            std::string full = f.durable;
            for (uint32_t i = 0; i < cut; ++i) applyOp(full, f.pend[i]);
            if (how != 3)
            {
                if (how == 2 && cut < n && !f.pend[cut].trunc && f.pend[cut].data.size() > 1 && choose(K_CRASHIMG, 2))
                {
                    // torn write
                    Op o = f.pend[cut];
                    o.data.resize(1 + choose(K_CRASHIMG, uint32_t(o.data.size() - 1)));
                    applyOp(full, o);
                }
                return full;
            }
            // arbitrary subset of the sectors
            uint64_t len = full.size();
            std::string res = f.durable;
            // truncations within the prefix drop old data
            std::vector<std::string> versions; versions.push_back(f.durable);
            std::string v = f.durable;
            for (uint32_t i = 0; i < cut; ++i) { applyOp(v, f.pend[i]); versions.push_back(v); }
            res.assign(size_t(len), '\0');
            for (uint64_t s = 0; s < len; s += sector)
            {
                // versions since the last truncation below this sector
                uint32_t first = 0;
                for (uint32_t i = 0; i < cut; ++i) if (f.pend[i].trunc && f.pend[i].off <= s) first = i + 1;
                uint32_t pick = uint32_t(versions.size() - 1) - choose(K_CRASHIMG, uint32_t(versions.size() - first));
                const std::string& src = versions[pick];
                for (uint64_t k = s; k < std::min<uint64_t>(len, s + sector); ++k) res[size_t(k)] = k < src.size() ? src[size_t(k)] : '\0';
            }
            return res;
        }

        static void applyMeta(Dir& d, const MetaOp& m)
        {
            if (m.type == 0) d[m.a] = m.ino;
            else if (m.type == 1) d.erase(m.a);
            else { d.erase(m.a); d[m.b] = m.ino; }
        }

        static void takeCrash()
        {
            isCrashed = true; crashArmed = false;
            image.clear();
            count_fault(K_CRASH);
            probe(crashLoss ? "crash: power loss" : "crash: process killed");
            if (!crashLoss)
            {
                for (auto& p : cur) { auto i = std::make_shared<Inode>(); i->id = p.second->id; i->cache = p.second->cache; i->durable = p.second->durable; i->pend = p.second->pend; image[p.first] = i; }
                return; // the page cache survives; directory changes stay pending
            }
            Dir d = durDir;
            uint32_t cut = metaPend.empty() ? 0 : uint32_t(metaPend.size()) - choose(K_CRASHIMG, uint32_t(metaPend.size()) + 1);
            for (uint32_t i = 0; i < cut; ++i) applyMeta(d, metaPend[i]);
            for (auto& p : d)
            {
                auto i = std::make_shared<Inode>(); i->id = p.second->id;
                bool partial = !p.second->pend.empty();
                i->cache = i->durable = crashContent(*p.second);
                if (partial) { probe("crash with unsynced data"); uint64_t h = i->cache.size(); for (char c : i->cache) h = h * 31 + uint8_t(c); state(h); }
                image[p.first] = i;
            }
        }

        Faults& faults() { return flt; }
        void reset()
        {
            RtScope s;
            cur.clear(); durDir.clear(); image.clear(); metaPend.clear(); fds.clear(); nextIno = 1; opCount = 0; crashArmed = false; isCrashed = false; sector = 64; capacity = 0; flt = Faults{}; firedCount = hardCount = 0;
        }
        void set_sector(uint32_t n) { sector = n; }
        void set_capacity(uint64_t b) { capacity = b; }
        uint64_t ops() { return opCount; }
        uint64_t faults_fired() { return firedCount; }
        uint64_t hard_faults() { return hardCount; }
        void crash_at(uint64_t from, bool loss) { crashArmed = true; crashOp = opCount + from; crashLoss = loss; }
        bool crashed() { return isCrashed; }
        void cancel_crash() { crashArmed = false; }
        void crash_now(bool loss) { RtScope s; if (isCrashed) return; crashLoss = loss; takeCrash(); }
        void reboot()
        {
            RtScope s;
            if (!isCrashed) return;
            cur = image; if (crashLoss) { durDir = image; metaPend.clear(); }
            else
            {
                // descriptors are gone, unsynced directory changes are still pending: keep their inodes in step
                for (auto& m : metaPend) for (auto& p : cur) if (m.ino && p.second->id == m.ino->id) m.ino = p.second;
                Dir d; for (auto& p : durDir) { auto i = p.second; for (auto& q : cur) if (q.second->id == i->id) i = q.second; d[p.first] = i; } durDir = d;
            }
            image.clear(); isCrashed = false; crashArmed = false;
            for (auto& f : fds) f.open = false;
        }
        int open_fds() { int n = 0; for (auto& f : fds) if (f.open) ++n; return n; }
        bool exists(const char* p) { return cur.count(p) != 0; }
        std::string content(const char* p) { RtScope s; auto i = cur.find(p); return i == cur.end() ? std::string() : i->second->cache; }
        std::string durable(const char* p) { RtScope s; auto i = durDir.find(p); return i == durDir.end() ? std::string() : i->second->durable; }
        uint64_t size(const char* p) { auto i = cur.find(p); return i == cur.end() ? 0 : i->second->cache.size(); }
        void put(const char* p, const std::string& d)
        {
            RtScope s;
            InodeP i; auto it = cur.find(p);
            if (it == cur.end()) { i = std::make_shared<Inode>(); i->id = nextIno++; cur[p] = i; } else i = it->second;
            durDir[p] = i;
            i->cache = i->durable = d; i->pend.clear();
        }
        void set_base(const char* p, uint64_t base) { RtScope s; auto i = cur.find(p); if (i != cur.end()) i->second->base = base; }
        void drop_file(const char* p) { RtScope s; cur.erase(p); durDir.erase(p); }

        static bool mine(const char* p) { return in_sim && p && !strncmp(p, Prefix, sizeof Prefix - 1); }
        static bool mineFd(int fd) { return fd >= FdBase; }
        static Fd* get(int fd) { size_t i = size_t(fd - FdBase); if (fd < FdBase || i >= fds.size() || !fds[i].open) { errno = EBADF; return nullptr; } return &fds[i]; }
        static uint64_t used() { uint64_t n = 0; for (auto& p : cur) n += p.second->cache.size(); return n; }
        static bool dead() { return isCrashed; }
        static bool fault(Kind k, double p)
        {
            if (dead() || !choose_p(k, 2, p)) return false;
            count_fault(k); ++firedCount;
            if (k != K_READ_EINTR && k != K_READ_SHORT && k != K_WRITE_EINTR && k != K_WRITE_SHORT && k != K_CLOSE_ERR) ++hardCount;
            return true;
        }
        static void opPoint(const char* what)
        {
            point(what);
            if (crashArmed && !isCrashed && opCount >= crashOp) takeCrash();
            ++opCount;
        }
        static void log(const char* what, const char* path, long a, long b, long r) { char t[300]; snprintf(t, sizeof t, "disk: %s %s %ld %ld -> %ld%s", what, path, a, b, r, isCrashed ? " (after the crash)" : ""); logEvent(t); }

        static int doOpen(const char* path, int flags, mode_t mode)
        {
            opPoint("d.open");
            if (fault(K_READ_EINTR, flt.read_eintr)) { errno = EINTR; log("open", path, flags, 0, -errno); return -1; }
            if (fault(K_OPEN_ERR, flt.open_err)) { static const int e[] = { EACCES, EMFILE, EIO, ENOSPC }; errno = e[choose(K_OPEN_ERR, 4)]; log("open", path, flags, 0, -errno); return -1; }
            auto i = cur.find(path);
            InodeP ino;
            if (i == cur.end())
            {
                if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
                ino = std::make_shared<Inode>(); ino->id = nextIno++; ino->mode = mode & 0777;
                cur[path] = ino; metaPend.push_back({ 0, path, "", ino });
            }
            else
            {
                if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
                ino = i->second;
            }
            if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !ino->cache.empty()) { Op o{ true, 0, "" }; applyOp(ino->cache, o); ino->pend.push_back(o); }
            fds.push_back(Fd{ ino, 0, flags, true, path });
            int fd = FdBase + int(fds.size()) - 1;
            log("open", path, flags, 0, fd);
            return fd;
        }
        constexpr size_t MaxTransfer = 0x7ffff000; // of a single system call
        static ssize_t doRead(int fd, void* buf, size_t n, int64_t at)
        {
            opPoint("d.read");
            Fd* f = get(fd); if (!f) return -1;
            if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
            if (fault(K_READ_EINTR, flt.read_eintr)) { errno = EINTR; log("read", f->path.c_str(), long(n), 0, -errno); return -1; }
            if (fault(K_READ_ERR, flt.read_err)) { errno = EIO; log("read", f->path.c_str(), long(n), 0, -errno); return -1; }
            uint64_t off = at >= 0 ? uint64_t(at) : f->off;
            uint64_t avail = off < f->ino->size() ? f->ino->size() - off : 0;
            size_t k = size_t(std::min<uint64_t>(avail, std::min(n, MaxTransfer)));
            if (k > 1 && fault(K_READ_SHORT, flt.read_short)) k = 1 + choose(K_READ_SHORT, uint32_t(k - 1));
            for (size_t i = 0; i < k; ++i) static_cast<char*>(buf)[i] = off + i < f->ino->base ? '\0' : f->ino->cache[size_t(off + i - f->ino->base)];
            if (at < 0) f->off += k;
            log("read", f->path.c_str(), long(n), long(off), long(k));
            return ssize_t(k);
        }
        static ssize_t doWrite(int fd, const void* buf, size_t n, int64_t at)
        {
            opPoint("d.write");
            Fd* f = get(fd); if (!f) return -1;
            if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
            if (fault(K_WRITE_EINTR, flt.write_eintr)) { errno = EINTR; log("write", f->path.c_str(), long(n), 0, -errno); return -1; }
            if (fault(K_WRITE_ERR, flt.write_err)) { static const int e[] = { EIO, ENOSPC, EDQUOT }; errno = e[choose(K_WRITE_ERR, 3)]; log("write", f->path.c_str(), long(n), 0, -errno); return -1; }
            uint64_t off = at >= 0 ? uint64_t(at) : ((f->flags & O_APPEND) ? f->ino->size() : f->off);
            if (off < f->ino->base && n && !dead()) fail("misplaced", "%zu bytes are written at %llu, which is not where the stream is", n, (unsigned long long)off);
            off -= f->ino->base;
            size_t k = std::min(n, MaxTransfer);
            if (capacity && !dead())
            {
                uint64_t u = used(), end = off + k, len = f->ino->cache.size();
                uint64_t grow = end > len ? end - len : 0;
                if (u + grow > capacity)
                {
                    uint64_t room = capacity > u ? capacity - u : 0;
                    uint64_t fit = off < len ? (len - off) + room : (room > off - len ? room - (off - len) : 0);
                    count_fault(K_ENOSPC); ++firedCount; ++hardCount;
                    if (fit == 0) { errno = ENOSPC; log("write", f->path.c_str(), long(n), 0, -errno); return -1; }
                    k = size_t(std::min<uint64_t>(k, fit));
                }
            }
            if (k > 1 && fault(K_WRITE_SHORT, flt.write_short)) k = 1 + choose(K_WRITE_SHORT, uint32_t(k - 1));
            Op o{ false, off, std::string(static_cast<const char*>(buf), k) };
            if (k) { applyOp(f->ino->cache, o); f->ino->pend.push_back(o); }
            if (at < 0) f->off = off + f->ino->base + k;
            log("write", f->path.c_str(), long(n), long(off), long(k));
            return ssize_t(k);
        }
        static int doSync(int fd)
        {
            opPoint("d.fsync");
            Fd* f = get(fd); if (!f) return -1;
            if (fault(K_WRITE_EINTR, flt.write_eintr)) { errno = EINTR; log("fsync", f->path.c_str(), 0, 0, -errno); return -1; }
            if (fault(K_FSYNC_ERR, flt.fsync_err))
            {
                // the kernel marks the pages clean: data that did not reach the disk by now never will; sizes are in the journal
                uint32_t how = choose(K_CRASHIMG, 3); // 0: all data is lost, 1: nothing is lost, 2: arbitrary
                std::string& d = f->ino->durable;
                for (auto& o : f->ino->pend)
                {
                    if (o.trunc) { applyOp(d, o); continue; }
                    uint64_t end = o.off + o.data.size();
                    if (d.size() < end) resize(d, end);
                    if (how == 0) continue;
                    for (uint64_t a = o.off; a < end; )
                    {
                        uint64_t b = std::min<uint64_t>(end, (a / sector + 1) * sector);
                        if (how == 1 || choose(K_CRASHIMG, 2)) memcpy(&d[size_t(a)], o.data.data() + (a - o.off), size_t(b - a));
                        a = b;
                    }
                }
                f->ino->pend.clear();
                static const int e[] = { EIO, ENOSPC, EDQUOT }; errno = e[choose(K_FSYNC_ERR, 3)];
                log("fsync", f->path.c_str(), 0, 0, -errno);
                return -1;
            }
            if (!dead())
            {
                for (auto& o : f->ino->pend) applyOp(f->ino->durable, o);
                f->ino->pend.clear();
                // the journal commits in order: everything up to the last directory operation on this file
                size_t last = 0;
                for (size_t i = 0; i < metaPend.size(); ++i) if (metaPend[i].ino == f->ino) last = i + 1;
                for (size_t i = 0; i < last; ++i) applyMeta(durDir, metaPend[i]);
                metaPend.erase(metaPend.begin(), metaPend.begin() + std::ptrdiff_t(last));
            }
            log("fsync", f->path.c_str(), 0, 0, 0);
            return 0;
        }
        static int doTrunc(int fd, off_t len)
        {
            opPoint("d.ftruncate");
            Fd* f = get(fd); if (!f) return -1;
            if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
            if (len < 0) { errno = EINVAL; return -1; }
            if (fault(K_WRITE_EINTR, flt.write_eintr)) { errno = EINTR; log("ftruncate", f->path.c_str(), len, 0, -errno); return -1; }
            if (fault(K_TRUNC_ERR, flt.trunc_err)) { errno = EIO; log("ftruncate", f->path.c_str(), len, 0, -errno); return -1; }
            if (uint64_t(len) < f->ino->base && !dead()) fail("misplaced", "the file is cut off at %lld, which is not where the stream is", (long long)len);
            Op o{ true, uint64_t(len) - f->ino->base, "" };
            applyOp(f->ino->cache, o); f->ino->pend.push_back(o);
            log("ftruncate", f->path.c_str(), len, 0, 0);
            return 0;
        }
        static off_t doSeek(int fd, off_t off, int whence)
        {
            Fd* f = get(fd); if (!f) return -1;
            int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? int64_t(f->off) : int64_t(f->ino->size());
            if (base + off < 0) { errno = EINVAL; return -1; }
            f->off = uint64_t(base + off);
            return off_t(f->off);
        }
        static void fillStat(struct stat* st, const InodeP& i) { memset(st, 0, sizeof *st); st->st_size = off_t(i->size()); st->st_mode = S_IFREG | i->mode; st->st_nlink = 1; st->st_ino = ino_t(i->id); st->st_blksize = 4096; }
        static int doStat(int fd, struct stat* st) { Fd* f = get(fd); if (!f) return -1; if (fault(K_READ_ERR, flt.stat_err)) { errno = EIO; return -1; } fillStat(st, f->ino); return 0; }
        static int doClose(int fd)
        {
            size_t i = size_t(fd - FdBase);
            if (i < fds.size() && !fds[i].open && !dead()) fail("double-close", "file descriptor %d of %s is closed twice", fd, fds[i].path.c_str());
            Fd* f = get(fd); if (!f) return -1;
            f->open = false;
            // the descriptor is released whatever is reported
            if (fault(K_CLOSE_ERR, flt.close_err)) { static const int e[] = { EINTR, EIO, ENOSPC, EDQUOT }; errno = e[choose(K_CLOSE_ERR, 4)]; log("close", f->path.c_str(), 0, 0, -errno); return -1; }
            log("close", f->path.c_str(), 0, 0, 0);
            return 0;
        }
        static int doUnlink(const char* p)
        {
            opPoint("d.unlink");
            auto i = cur.find(p);
            if (i == cur.end()) { errno = ENOENT; return -1; }
            if (fault(K_OPEN_ERR, flt.unlink_err)) { static const int e[] = { EACCES, EIO, EBUSY }; errno = e[choose(K_OPEN_ERR, 3)]; log("unlink", p, 0, 0, -errno); return -1; }
            metaPend.push_back({ 1, p, "", i->second });
            cur.erase(i);
            log("unlink", p, 0, 0, 0);
            return 0;
        }
        static int doRename(const char* a, const char* b)
        {
            opPoint("d.rename");
            auto i = cur.find(a);
            if (i == cur.end()) { errno = ENOENT; return -1; }
            InodeP n = i->second;
            metaPend.push_back({ 2, a, b, n });
            cur.erase(i); cur[b] = n;
            log("rename", a, 0, 0, 0);
            return 0;
        }
        static int doAccess(const char* p) { if (cur.count(p)) return 0; std::string d = p; if (d == "/simdisk/") return 0; errno = ENOENT; return -1; }
    }

    namespace rt { void diskBeginRun() { disk::reset(); } void diskEndRun() { disk::cur.clear(); disk::durDir.clear(); disk::image.clear(); disk::metaPend.clear(); disk::fds.clear(); } }
}

using namespace sim;
using namespace sim::disk;
using sim::rt::RtScope;

template <class... A> static long raw(long nr, A... a)
{
    long v[6] = { long(a)... };
    long r; register long r10 asm("r10") = v[3]; register long r8 asm("r8") = v[4]; register long r9 asm("r9") = v[5];
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(v[0]), "S"(v[1]), "d"(v[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

// A run must not touch the real file system for anything but reading the sandbox's own files.
static bool blocked(const char* what, const char* p) { if (in_sim && !rt::in_rt) { RtScope s; fail("real-filesystem", "the code under test calls %s on the real path %s", what, p ? p : "(null)"); } return false; }

extern "C"
{
    int open(const char* p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } if (mine(p)) { RtScope s; return doOpen(p, flags, m); } if ((flags & O_ACCMODE) != O_RDONLY) blocked("open", p); return int(raw(SYS_openat, AT_FDCWD, p, flags, m)); }
    int open64(const char* p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } return open(p, flags, m); }
    int openat(int d, const char* p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } if (mine(p)) return open(p, flags, m); if ((flags & O_ACCMODE) != O_RDONLY) blocked("openat", p); return int(raw(SYS_openat, d, p, flags, m)); }
    int creat(const char* p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
    ssize_t read(int fd, void* b, size_t n) { if (mineFd(fd)) { rt::accessRange(b, std::min<size_t>(n, 1 << 20), true, __builtin_return_address(0)); RtScope s; return doRead(fd, b, n, -1); } return raw(SYS_read, fd, b, n); }
    ssize_t pread(int fd, void* b, size_t n, off_t o) { if (mineFd(fd)) { rt::accessRange(b, n, true, __builtin_return_address(0)); RtScope s; return doRead(fd, b, n, o); } return raw(SYS_pread64, fd, b, n, o); }
    ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
    ssize_t write(int fd, const void* b, size_t n) { if (mineFd(fd)) { rt::accessRange(b, std::min<size_t>(n, 1 << 20), false, __builtin_return_address(0)); RtScope s; return doWrite(fd, b, n, -1); } return raw(SYS_write, fd, b, n); }
    ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (mineFd(fd)) { rt::accessRange(b, n, false, __builtin_return_address(0)); RtScope s; return doWrite(fd, b, n, o); } return raw(SYS_pwrite64, fd, b, n, o); }
    ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
    ssize_t writev(int fd, const struct iovec* v, int c) { if (mineFd(fd)) { RtScope s; std::string all; for (int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); return doWrite(fd, all.data(), all.size(), -1); } return raw(SYS_writev, fd, v, c); }
    ssize_t readv(int fd, const struct iovec* v, int c) { if (mineFd(fd)) { RtScope s; ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if (size_t(r) < v[i].iov_len) break; } return t; } return raw(SYS_readv, fd, v, c); }
    int fsync(int fd) { if (mineFd(fd)) { RtScope s; return doSync(fd); } return int(raw(SYS_fsync, fd)); }
    int fdatasync(int fd) { if (mineFd(fd)) { RtScope s; return doSync(fd); } return int(raw(SYS_fdatasync, fd)); }
    int ftruncate(int fd, off_t n) noexcept { if (mineFd(fd)) { RtScope s; return doTrunc(fd, n); } return int(raw(SYS_ftruncate, fd, n)); }
    int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
    int truncate(const char* p, off_t n) noexcept { if (mine(p)) { RtScope s; int fd = doOpen(p, O_RDWR, 0); if (fd < 0) return -1; int r = doTrunc(fd, n); doClose(fd); return r; } blocked("truncate", p); return int(raw(SYS_truncate, p, n)); }
    off_t lseek(int fd, off_t o, int w) noexcept { if (mineFd(fd)) { RtScope s; return doSeek(fd, o, w); } return raw(SYS_lseek, fd, o, w); }
    off_t lseek64(int fd, off_t o, int w) noexcept { return lseek(fd, o, w); }
    int fstat(int fd, struct stat* st) noexcept { if (mineFd(fd)) { RtScope s; return doStat(fd, st); } return int(raw(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH)); }
    int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
    int stat(const char* p, struct stat* st) noexcept { if (mine(p)) { RtScope s; auto i = cur.find(p); if (i == cur.end()) { errno = ENOENT; return -1; } fillStat(st, i->second); return 0; } return int(raw(SYS_newfstatat, AT_FDCWD, p, st, 0)); }
    int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
    int lstat(const char* p, struct stat* st) noexcept { if (mine(p)) return stat(p, st); return int(raw(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)); }
    int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
    int fstatat(int d, const char* p, struct stat* st, int fl) noexcept { if (mine(p)) return stat(p, st); return int(raw(SYS_newfstatat, d, p, st, fl)); }
    int access(const char* p, int m) noexcept { if (mine(p)) { RtScope s; return doAccess(p); } return int(raw(SYS_access, p, m)); }
    int faccessat(int d, const char* p, int m, int) noexcept { if (mine(p)) return access(p, m); return int(raw(SYS_faccessat, d, p, m)); }
    int close(int fd) { if (mineFd(fd)) { RtScope s; return doClose(fd); } return int(raw(SYS_close, fd)); }
    int unlink(const char* p) noexcept { if (mine(p)) { RtScope s; return doUnlink(p); } blocked("unlink", p); return int(raw(SYS_unlink, p)); }
    int unlinkat(int d, const char* p, int f) noexcept { if (mine(p)) { RtScope s; return doUnlink(p); } blocked("unlinkat", p); return int(raw(SYS_unlinkat, d, p, f)); }
    int remove(const char* p) noexcept { return unlink(p); }
    int rename(const char* a, const char* b) noexcept { if (mine(a) && mine(b)) { RtScope s; return doRename(a, b); } blocked("rename", a); return int(raw(SYS_rename, a, b)); }
    int mkdir(const char* p, mode_t m) noexcept { if (mine(p)) return 0; blocked("mkdir", p); return int(raw(SYS_mkdir, p, m)); }
    int rmdir(const char* p) noexcept { blocked("rmdir", p); return int(raw(SYS_rmdir, p)); }
    void sync() noexcept { if (in_sim) { RtScope s; for (auto& f : fds) if (f.open) doSync(disk::FdBase + int(&f - fds.data())); } }
    int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (mineFd(fd)) { RtScope s; Fd* f = get(fd); if (!f) return -1; if (cmd == F_GETFL) return f->flags; return 0; } return int(raw(SYS_fcntl, fd, cmd, x)); }
    int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return fcntl(fd, cmd, x); }
    int fallocate(int fd, int, off_t, off_t) { if (mineFd(fd)) return 0; errno = ENOSYS; return -1; }
    int posix_fallocate(int fd, off_t, off_t) { if (mineFd(fd)) return 0; return ENOSYS; }
    int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
    int dup(int fd) noexcept { if (mineFd(fd)) { RtScope s; Fd* f = get(fd); if (!f) return -1; fds.push_back(*f); return disk::FdBase + int(fds.size()) - 1; } return int(raw(SYS_dup, fd)); }
    int flock(int fd, int op) noexcept { if (mineFd(fd)) return 0; return int(raw(SYS_flock, fd, op)); }
}
