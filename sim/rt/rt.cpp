// Deterministic simulator runtime: fibers instead of threads, simulated clock, interposed pthread / futex / clock / allocator
// calls and the __tsan_* entry points that the compiler inserts into the code under test.
// This file is compiled without instrumentation.
#include "sim.h"
#include "rt_int.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <new>
#include <map>
#include <mutex>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <elf.h>
#include <exception>
#include <typeinfo>
#include <chrono>
#include <cxxabi.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <link.h>

extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals { void* caught; unsigned int uncaught; }; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim
{
    static const char* const kindNames[K_COUNT] = { "WORK", "SCHED", "NOTIFY", "SPURIOUS", "WEAKCAS", "CLOCK", "CLOCKJUMP", "ALLOC", "THREAD",
        "CRASH", "CRASHIMG", "READ_ERR", "READ_SHORT", "READ_EINTR", "WRITE_ERR", "WRITE_SHORT", "WRITE_EINTR", "ENOSPC",
        "FSYNC_ERR", "TRUNC_ERR", "OPEN_ERR", "CLOSE_ERR", "CORRUPT", "THROW", "STREAM", "USER" };
    const char* kind_name(int k) { return kindNames[k]; }

    namespace rt
    {
        bool in_sim = false;
        bool in_rt = true;   // true outside of a run: everything is forwarded
        bool verbose = false;

        // ------------------------------------------------------------------ PRNG and decisions
        struct Rng
        {
            uint64_t s[4];
            static uint64_t split(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
            void seed(uint64_t x) { for (auto& v : s) v = split(x); }
            static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
            uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
            uint32_t below(uint32_t n) { return n <= 1 ? 0 : uint32_t((next() >> 32) * uint64_t(n) >> 32); }
            double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
        };
        static Rng rng, tuneRng;

        struct Decision { int kind; uint32_t idx; uint32_t val; };
        static std::vector<Decision> trace;              // non-zero decisions of this run
        static uint32_t kindIdx[K_COUNT];
        static bool replaying = false;
        static std::unordered_map<uint64_t, uint32_t> replayMap;
        static uint64_t faultCount[K_COUNT];             // in this process
        static uint64_t kindTotal[K_COUNT];

        static uint32_t replay_val(int k, uint32_t idx, uint32_t n)
        {
            auto i = replayMap.find((uint64_t(k) << 32) | idx);
            if (i == replayMap.end()) return 0;
            return n ? i->second % n : i->second;
        }
        static void record(int k, uint32_t idx, uint32_t v) { if (v) { trace.push_back({ k, idx, v }); ++kindTotal[k]; } }

        // ------------------------------------------------------------------ run state
        static uint64_t runHash, mixHash;
        static uint64_t stepCount, clockNs, seqNo, accessCount, stepMost;
        static int64_t realOffset;
        static Config config;
        static const char* scenarioName = "";
        static uint64_t runSeed, runIndex;
        static bool warm = false;
        static std::map<std::string, uint64_t>* probes;
        static std::unordered_set<uint64_t>* stateSet;
        static std::unordered_set<uint64_t>* runSet;
        static std::vector<Rec>* recs;
        static int64_t cells[256];
        static uint64_t simTimeTotal, stepTotal, switchTotal;

        static inline void fold(uint64_t& h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

        // event log (verbose replays only)
        static void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
        static FILE* logFile = nullptr;

        // ------------------------------------------------------------------ fibers
        constexpr int MaxFibers = 24;
        constexpr size_t StackSize = 512 * 1024;
        enum State { Free, Runnable, Blocked, Done };
        enum Why { W_None, W_Mutex, W_Cond, W_Join, W_Sleep, W_Futex, W_Rw, W_Guard };
        struct VC { uint32_t c[MaxFibers]; void join(const VC& o) { for (int i = 0; i < MaxFibers; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(c, 0, sizeof c); } };
        struct Fiber
        {
            int id; State st; Why why; const void* addr; bool timed; uint64_t deadline; bool realClock; int wake; // 0 woken, 1 timeout, 2 spurious
            void* sp; char* stack; void* (*fn)(void*); void* arg; void* ret; bool detached, joined;
            VC vc, relFence, acqPending; bool hasRel;
            __cxxabiv1::__cxa_eh_globals eh;
            const void* calls[256]; int depth;
            int prio; uint32_t streak; uint32_t yields;
            uint32_t rdepth;
        };
        static Fiber fibers[MaxFibers];
        // The thread local variables of the program: every fiber has its own copy, which is in place while it runs.
        static char* tlsAddr; static size_t tlsSize, tlsImageSize; static const char* tlsImage; static char* tlsCopies; // one per fiber and one of the host
        static char* tlsCopy(int id) { return tlsCopies + tlsSize * size_t(id); }
        // what is local to a thread in the libraries
        struct LibTls { int err; void* callable; void (*call)(); };
        static LibTls libTls[MaxFibers + 1]; static int* errnoAddr; static void* onceAddr[2];
        static void swapTls(int from, int to) { libTls[from] = { *errnoAddr, std::__once_callable, std::__once_call }; *errnoAddr = libTls[to].err; std::__once_callable = libTls[to].callable; std::__once_call = libTls[to].call; if (tlsSize) { memcpy(tlsCopy(from), tlsAddr, tlsSize); memcpy(tlsAddr, tlsCopy(to), tlsSize); } }
        static bool inTls(uintptr_t a) { return a - reinterpret_cast<uintptr_t>(tlsAddr) < tlsSize || a - reinterpret_cast<uintptr_t>(errnoAddr) < sizeof(int) || a - reinterpret_cast<uintptr_t>(onceAddr[0]) < 8 || a - reinterpret_cast<uintptr_t>(onceAddr[1]) < 8; }
        struct ThreadExit { void (*fn)(void*); void* obj; };
        static std::vector<ThreadExit>* threadExits; // destructors of thread_local objects, one list per fiber
        static int nFibers, cur;
        static char* stackBase;
        static void* hostSp;
        static bool unfairOver;

        // scheduling strategy of the run
        static int strategy; static double pSwitch; static std::vector<uint64_t> prioPoints; static int lowPrio;
        static bool faultsOff() { return stepCount > config.step_cap; }

        extern "C" void sim_switch(void** save, void* to);
        asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

        // ------------------------------------------------------------------ arena
        constexpr size_t ArenaSize = size_t(1) << 30, ArenaKept = size_t(64) << 20, AllocMax = size_t(96) << 20; // nothing is allocated twice within a run
        static char* arena; static uint8_t* shadow; // one byte per 8 bytes: 0 not allocated, 1..8 usable bytes, 0xfd freed
        static size_t bump; static size_t liveCount, liveBase; static bool arenaOn;
        struct Hdr { uint64_t size; uint64_t seq; const void* site[4]; }; // 48 bytes, preceded and followed by red zones
        constexpr size_t Red = 16;
        static uint64_t allocSeq; static uint32_t nthAlloc; static int nthAllocFiber; static uint32_t allocFailed; static uint64_t allocFaultsOn /* by fiber */; static uint8_t fillByte;
        static std::vector<char*>* liveList;

        static bool inArena(const void* p) { return arena && p >= arena && p < arena + ArenaSize; }

        static void collectSite(const void** site)
        {
            Fiber& f = fibers[cur];
            for (int i = 0; i < 4; ++i) site[i] = (f.depth - 1 - i >= 0 && f.depth - 1 - i < 256) ? f.calls[f.depth - 1 - i] : nullptr;
        }

        static void clearCells(uintptr_t a, size_t n);

        static void* arenaAlloc(size_t n, size_t align)
        {
            if (align < 16) align = 16;
            size_t pos = bump + Red + sizeof(Hdr);
            pos = (pos + align - 1) & ~(align - 1);
            size_t end = pos + ((n + 15) & ~size_t(15)) + Red;
            if (n > AllocMax || end > ArenaSize) return nullptr;
            Hdr* h = reinterpret_cast<Hdr*>(arena + pos - sizeof(Hdr));
            h->size = n; h->seq = ++allocSeq; collectSite(h->site);
            memset(shadow + pos / 8, 8, n / 8);
            if (n % 8) shadow[pos / 8 + n / 8] = uint8_t(n % 8);
            memset(arena + pos, fillByte, n);
            bump = end;
            ++liveCount;
            liveList->push_back(arena + pos);
            clearCells(reinterpret_cast<uintptr_t>(arena + pos), n);
            return arena + pos;
        }

        // ------------------------------------------------------------------ failure report
        static int reportFd = -1;
        static bool failing = false;
        static void jsonStr(std::string& o, const char* s) { o += '"'; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } o += '"'; }

        static std::string stacks()
        {
            std::string o = "[";
            for (int i = 0; i < nFibers; ++i)
            {
                Fiber& f = fibers[i];
                if (i) o += ',';
                char b[128]; snprintf(b, sizeof b, "{\"fiber\":%d,\"state\":%d,\"why\":%d,\"pcs\":[", i, int(f.st), int(f.why)); o += b;
                int n = 0;
                for (int d = std::min(f.depth, 256) - 1; d >= 0 && n < 24; --d, ++n) { snprintf(b, sizeof b, "%s\"%p\"", n ? "," : "", f.calls[d]); o += b; }
                o += "]}";
            }
            return o + "]";
        }

        static void emit(const std::string& s)
        {
            int fd = reportFd >= 0 ? reportFd : 1;
            size_t off = 0;
            while (off < s.size()) { ssize_t w = real_write(fd, s.data() + off, s.size() - off); if (w <= 0) break; off += size_t(w); }
        }

        [[noreturn]] static void failv(const char* cls, const char* msg)
        {
            in_rt = true;
            if (failing) _exit(4);
            failing = true;
            std::string o = "{\"outcome\":\"violation\",\"scenario\":";
            jsonStr(o, scenarioName);
            char b[256];
            snprintf(b, sizeof b, ",\"seed\":%llu,\"index\":%llu,\"warm\":%d,\"hash\":\"%016llx\",\"steps\":%llu,\"sim_ns\":%llu,\"fiber\":%d,\"class\":", (unsigned long long)runSeed, (unsigned long long)runIndex, int(warm), (unsigned long long)runHash,
                (unsigned long long)stepCount, (unsigned long long)clockNs, cur);
            o += b; jsonStr(o, cls); o += ",\"msg\":"; jsonStr(o, msg);
            o += ",\"stacks\":" + stacks();
            o += ",\"trace\":[";
            bool first = true;
            for (auto& d : trace) { snprintf(b, sizeof b, "%s[\"%s\",%u,%u]", first ? "" : ",", kindNames[d.kind], d.idx, d.val); o += b; first = false; }
            o += "]}\n";
            if (logFile) { fprintf(logFile, "VIOLATION %s: %s\n", cls, msg); fflush(logFile); }
            emit(o);
            _exit(3);
        }

        [[noreturn]] static void failf(const char* cls, const char* fmt, ...)
        {
            char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
            failv(cls, b);
        }

        static void logf(const char* fmt, ...)
        {
            if (!logFile) return;
            fprintf(logFile, "%6llu t=%llu f%d ", (unsigned long long)stepCount, (unsigned long long)clockNs, cur);
            va_list a; va_start(a, fmt); vfprintf(logFile, fmt, a); va_end(a);
            fputc('\n', logFile);
        }
        void logEvent(const char* s) { logf("%s", s); }

        // ------------------------------------------------------------------ race detection
        struct Ent { uint8_t tid, mask, flags; uint32_t clk; const void* pc; };
        struct Cell { uint64_t key; uint32_t gen; uint8_t n; Ent e[8]; };
        constexpr size_t CellCount = 1 << 18;
        static Cell* cellTab; static uint32_t cellGen; static size_t cellsUsed;
        static Cell& cellOf(uint64_t key)
        {
            uint64_t h = key * 0x9e3779b97f4a7c15ull >> 46;
            for (;;)
            {
                Cell& c = cellTab[h & (CellCount - 1)];
                if (c.gen != cellGen) { c.gen = cellGen; c.key = key; c.n = 0; ++cellsUsed; return c; }
                if (c.key == key) return c;
                ++h;
                if (cellsUsed > CellCount - 1024) { ++cellGen; cellsUsed = 0; }
            }
        }
        static void clearCells(uintptr_t a, size_t n)
        {
            if (nFibers <= 1 || n > 65536) return;
            for (uintptr_t k = a >> 3; k <= (a + (n ? n - 1 : 0)) >> 3; ++k) cellOf(k).n = 0;
        }

        enum { F_Write = 1, F_Atomic = 2, F_Free = 4 };

        static void describe(char* b, size_t n, const void* p)
        {
            if (inArena(p)) snprintf(b, n, "heap+0x%zx", size_t((const char*)p - arena));
            else if ((const char*)p >= stackBase && (const char*)p < stackBase + StackSize * MaxFibers) snprintf(b, n, "stack of fiber %d", int(((const char*)p - stackBase) / StackSize));
            else snprintf(b, n, "global %p", p);
        }

        static void raceCheck(uintptr_t a, unsigned size, int flags, const void* pc)
        {
            if (a - reinterpret_cast<uintptr_t>(cells) < sizeof cells) return; // the oracles' own state
            Fiber& f = fibers[cur];
            while (size)
            {
                unsigned off = a & 7, n = std::min(8 - off, size);
                uint8_t mask = uint8_t(((1u << n) - 1) << off);
                Cell& c = cellOf(a >> 3);
                int slot = -1;
                for (int i = 0; i < c.n; ++i)
                {
                    Ent& e = c.e[i];
                    if (!(e.mask & mask)) { continue; }
                    if (e.tid == f.id)
                    {
                        if (e.mask == mask && (e.flags & F_Atomic) == (flags & F_Atomic) && ((flags & F_Write) >= (e.flags & F_Write))) slot = i;
                        continue;
                    }
                    if (!((e.flags | flags) & F_Write)) continue;
                    if ((e.flags & F_Atomic) && (flags & F_Atomic)) continue;
                    if (e.clk > f.vc.c[e.tid])
                    {
                        char d[64]; describe(d, sizeof d, (const void*)a);
                        failf("data-race", "data race on %u bytes at %s: %s%s by thread %d at %p is concurrent with earlier %s%s by thread %d at %p", n, d,
                            flags & F_Atomic ? "atomic " : "", flags & F_Free ? "free" : (flags & F_Write ? "write" : "read"), f.id, pc,
                            e.flags & F_Atomic ? "atomic " : "", e.flags & F_Write ? "write" : "read", e.tid, e.pc);
                    }
                    // ordered before this access: a write supersedes it completely
                    if ((flags & F_Write) && !(e.mask & ~mask) && slot < 0 && !((e.flags & F_Atomic) ^ (flags & F_Atomic))) slot = i;
                }
                if (slot < 0) { if (c.n < 8) slot = c.n++; else slot = int((a >> 3) + stepCount) & 7; }
                c.e[slot] = Ent{ uint8_t(f.id), mask, uint8_t(flags & 3), f.vc.c[f.id], pc };
                a += n; size -= n;
            }
        }

        static void validCheck(uintptr_t a, unsigned size, bool write, const void* pc)
        {
            const char* p = reinterpret_cast<const char*>(a);
            if (inArena(p))
            {
                size_t o = size_t(p - arena);
                for (size_t g = o / 8; g <= (o + size - 1) / 8; ++g)
                {
                    uint8_t s = shadow[g];
                    size_t need = std::min<size_t>(8, o + size - g * 8);
                    if (s == 8 || (s >= 1 && s <= 8 && need <= s)) continue;
                    if (s == 0xfd) failf("use-after-free", "%s of %u bytes at heap+0x%zx which has been freed, at %p", write ? "write" : "read", size, o, pc);
                    failf("heap-overflow", "%s of %u bytes at heap+0x%zx outside of any object, at %p", write ? "write" : "read", size, o, pc);
                }
            }
            else if (p >= stackBase && p < stackBase + StackSize * MaxFibers)
            {
                int id = int((p - stackBase) / StackSize);
                if (id != cur && id < nFibers && fibers[id].st != Free)
                {
                    Fiber& f = fibers[id];
                    if (f.st == Done || p < static_cast<char*>(f.sp) - 128)
                        failf("dead-stack", "%s of %u bytes in a stack frame of thread %d which no longer exists, at %p", write ? "write" : "read", size, id, pc);
                }
            }
            else if (a < 4096) failf("crash:null", "%s of %u bytes at address %p, at %p", write ? "write" : "read", size, (void*)a, pc);
        }

        static inline void access(const void* p, unsigned size, int flags, const void* pc)
        {
            if (in_rt || !in_sim) return;
            uintptr_t a = reinterpret_cast<uintptr_t>(p);
            if (++accessCount > 400000000ull) { in_rt = true; failf("livelock", "the run does not end: %llu memory accesses", (unsigned long long)accessCount); }
            in_rt = true;
            validCheck(a, size, flags & F_Write, pc);
            if (nFibers > 1 && !inTls(a)) raceCheck(a, size, flags, pc);
            in_rt = false;
        }

        void accessRange(const void* p, size_t n, bool write, const void* pc)
        {
            if (in_rt || !in_sim || n == 0) return;
            in_rt = true;
            uintptr_t a = reinterpret_cast<uintptr_t>(p);
            accessCount += n;
            validCheck(a, unsigned(n), write, pc);
            if (nFibers > 1 && !inTls(a)) for (size_t i = 0; i < n; ) { unsigned k = unsigned(std::min<size_t>(8 - ((a + i) & 7), n - i)); raceCheck(a + i, k, write ? F_Write : 0, pc); i += k; }
            in_rt = false;
        }

        // ------------------------------------------------------------------ scheduler
        static uint64_t effDeadline(const Fiber& f)
        {
            if (!f.realClock) return f.deadline;
            int64_t d = int64_t(f.deadline) - realOffset;
            return d < 0 ? 0 : uint64_t(d);
        }

        static void makeRunnable(Fiber& f, int wake) { f.st = Runnable; f.wake = wake; f.timed = false; }

        static int earliestTimer()
        {
            int best = -1;
            for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].timed && (best < 0 || effDeadline(fibers[i]) < effDeadline(fibers[best]))) best = i;
            return best;
        }

        static void fireTimers()
        {
            for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].timed && effDeadline(fibers[i]) <= clockNs) { logf("timer of f%d fires", i); makeRunnable(fibers[i], 1); }
        }

        static void switchTo(int id)
        {
            if (id == cur) return;
            ++switchTotal;
            Fiber& a = fibers[cur]; Fiber& b = fibers[id];
            auto* g = __cxxabiv1::__cxa_get_globals();
            a.eh = *g; *g = b.eh;
            swapTls(cur, id);
            cur = id;
            sim_switch(&a.sp, b.sp);
        }

        static const char* whyName(Why w) { static const char* n[] = { "-", "mutex", "condition variable", "join", "sleep", "futex", "rwlock", "guard" }; return n[w]; }

        // Chooses the next fiber and switches to it. Called with in_rt set.
        static void schedule(const char* what)
        {
            ++stepCount; clockNs += 20;
            if (stepCount > config.step_max) failf("livelock", "no progress: %llu scheduling steps", (unsigned long long)stepCount);
            if (!faultsOff())
            {
                {
                    int t = earliestTimer();
                    if (t >= 0 && choose_p(K_CLOCK, 2, config.p_clock)) { clockNs = std::max(clockNs, effDeadline(fibers[t])); count_fault(K_CLOCK); }
                }
                {
                    int w[MaxFibers], n = 0;
                    for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].why == W_Cond) w[n++] = i;
                    if (n) { uint32_t v = choose_p(K_SPURIOUS, uint32_t(n) + 1, config.p_spurious); if (v) { logf("spurious wakeup of f%d", w[v - 1]); makeRunnable(fibers[w[v - 1]], 2); count_fault(K_SPURIOUS); } }
                }
            }
            fireTimers();
            int r[MaxFibers], n = 0;
            for (;;)
            {
                n = 0;
                for (int k = 0; k < nFibers; ++k) { int i = (cur + k) % nFibers; if (fibers[i].st == Runnable) r[n++] = i; }
                if (n) break;
                int t = earliestTimer();
                if (t < 0)
                {
                    std::string s;
                    char b[128];
                    for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked) { snprintf(b, sizeof b, " thread %d waits for a %s;", i, whyName(fibers[i].why)); s += b; }
                    failf("deadlock", "no thread can run:%s", s.c_str());
                }
                clockNs = std::max(clockNs, effDeadline(fibers[t]));
                fireTimers();
            }
            // default: keep running the current fiber, unless it has been running alone for long (spin loops have to make progress)
            uint32_t v = 0;
            if (n > 1)
            {
                Fiber& f = fibers[cur];
                uint32_t def = 0;
                bool fair = faultsOff();
                if (r[0] == cur && (++f.streak > (fair ? 20u : 300u))) { def = 1; f.streak = 0; }
                uint32_t idx = kindIdx[K_SCHED]++;
                if (replaying) v = replay_val(K_SCHED, idx, uint32_t(n));
                else if (fair) v = 0;
                else if (strategy == 0) { if (rng.unit() < pSwitch) v = rng.below(uint32_t(n)); }
                else
                {
                    while (!prioPoints.empty() && stepCount >= prioPoints.back()) { prioPoints.pop_back(); fibers[r[0]].prio = --lowPrio; }
                    uint32_t best = 0;
                    for (int i = 1; i < n; ++i) if (fibers[r[i]].prio > fibers[r[best]].prio) best = uint32_t(i);
                    v = best;
                    if (def && best == 0) { fibers[r[0]].prio = --lowPrio; }
                    if (def) v = (best + uint32_t(n) - 1) % uint32_t(n); // expressed relative to the default
                }
                v %= uint32_t(n);
                record(K_SCHED, idx, v);
                v = (v + def) % uint32_t(n);
                if (r[v] != cur) f.streak = 0;
            }
            if (r[v] != cur) { fold(runHash, uint64_t(r[v]) * 1000003u + uint64_t(n)); if (logFile) logf("-> f%d (%s)", r[v], what); }
            else if (logFile && what && *what) logf("%s", what);
            fold(runHash, reinterpret_cast<uintptr_t>(what) ? uint64_t(what[0]) * 131 + uint64_t(what[1]) : 7);
            switchTo(r[v]);
        }

        void point(const char* what) { schedule(what); }

        // blocks the current fiber; returns the wake reason
        static int blockOn(Why w, const void* addr, const char* what, bool timed = false, uint64_t deadline = 0, bool realClock = false)
        {
            Fiber& f = fibers[cur];
            f.st = Blocked; f.why = w; f.addr = addr; f.timed = timed; f.deadline = deadline; f.realClock = realClock; f.wake = 0;
            schedule(what);
            f.why = W_None;
            return f.wake;
        }

        static void tick() { Fiber& f = fibers[cur]; ++f.vc.c[f.id]; }

        // ------------------------------------------------------------------ sync objects
        struct Mutex { int owner = -1; uint32_t depth = 0; VC vc; int readers = 0; uint32_t heldBy = 0; Mutex() { vc.clear(); } };
        struct AtomicLoc { VC vc; AtomicLoc() { vc.clear(); } };
        static std::unordered_map<const void*, Mutex>* mutexes;
        static std::unordered_map<const void*, AtomicLoc>* atomics;

        struct Scope { bool saved; bool active; Scope() : saved(in_rt), active(!in_rt && in_sim) { in_rt = true; } ~Scope() { in_rt = saved; } };

        static void wakeAll(Why w, const void* addr) { for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].why == w && fibers[i].addr == addr) makeRunnable(fibers[i], 0); }

        static void validCheck(uintptr_t a, unsigned size, bool write, const void* pc);
        // a synchronisation object is used: it must be alive, and its end must not be concurrent with this
        static void syncTouch(const void* p, const void* pc)
        {
            validCheck(uintptr_t(p), 8, true, pc);
            if (nFibers > 1) raceCheck(uintptr_t(p), 1, F_Atomic, pc);
        }

        static void mtxLock(const void* m, bool recursive)
        {
            Fiber& f = fibers[cur];
            for (;;)
            {
                Mutex& x = (*mutexes)[m];
                if (x.owner == f.id)
                {
                    if (!recursive) failf("self-deadlock", "thread %d locks a mutex it already owns", f.id);
                    ++x.depth; return;
                }
                if (x.owner < 0 && x.readers == 0) { x.owner = f.id; x.depth = 1; f.vc.join(x.vc); return; }
                blockOn(W_Mutex, m, "mutex.wait");
            }
        }
        static void mtxUnlock(const void* m)
        {
            Fiber& f = fibers[cur];
            Mutex& x = (*mutexes)[m];
            if (x.owner != f.id) failf("bad-unlock", "thread %d unlocks a mutex it does not own", f.id);
            if (--x.depth) return;
            x.owner = -1; x.vc = f.vc; tick();
            wakeAll(W_Mutex, m);
        }

        static uint64_t toNs(const timespec* ts) { return ts->tv_sec < 0 ? 0 : (ts->tv_sec > 9000000000ll ? ~0ull >> 1 : uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec)); }

        static int condWait(const void* c, const void* m, bool timed, uint64_t dl, bool real)
        {
            Mutex& x = (*mutexes)[m];
            Fiber& f = fibers[cur];
            if (x.owner != f.id) failf("bad-cond-wait", "thread %d waits on a condition variable with a mutex it does not own", f.id);
            schedule("cond.wait");
            uint32_t depth = x.depth;
            x.depth = 1;
            mtxUnlock(m);
            int wake = blockOn(W_Cond, c, "cond.block", timed, dl, real);
            if (wake == 1) ::sim::probe("cond wait timed out");
            mtxLock(m, false);
            (*mutexes)[m].depth = depth;
            return wake == 1 ? ETIMEDOUT : 0;
        }

        static void condNotify(const void* c, bool all, const void* pc)
        {
            schedule(all ? "cond.broadcast" : "cond.signal");
            syncTouch(c, pc);
            int w[MaxFibers], n = 0;
            for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].why == W_Cond && fibers[i].addr == c) w[n++] = i;
            if (!n) return;
            if (all) { for (int i = 0; i < n; ++i) makeRunnable(fibers[w[i]], 0); return; }
            uint32_t v = n > 1 ? choose(K_NOTIFY, uint32_t(n)) : 0;
            makeRunnable(fibers[w[v]], 0);
        }

        uint64_t readClock(bool real)
        {
            clockNs += 40;
            if (real)
            {
                {
                    uint32_t v = choose_p(K_CLOCKJUMP, 5, faultsOff() ? 0 : config.p_clockjump);
                    static const int64_t jumps[] = { 0, 3600000000000ll, -3600000000000ll, 5000000ll, -5000000ll };
                    if (v) { realOffset += jumps[v]; count_fault(K_CLOCKJUMP); logf("wall clock jumps by %lld", (long long)jumps[v]); }
                }
                return uint64_t(int64_t(clockNs) + realOffset);
            }
            return clockNs;
        }

        static void sleepUntil(uint64_t dl, bool real)
        {
            blockOn(W_Sleep, nullptr, "sleep", true, dl, real);
        }

        // ------------------------------------------------------------------ fiber entry
        static void fiberMain() noexcept
        {
            Fiber& f = fibers[cur];
            in_rt = false;
            f.ret = f.fn(f.arg);
            in_rt = true;
            while (!threadExits[cur].empty()) { ThreadExit e = threadExits[cur].back(); threadExits[cur].pop_back(); in_rt = false; e.fn(e.obj); in_rt = true; }
            Fiber& g = fibers[cur];
            g.st = Done;
            tick();
            wakeAll(W_Join, &g);
            logf("thread ends");
            if (g.id == 0)
            {
                // the scenario has returned: let the others finish
                bool left = false;
                for (int i = 1; i < nFibers; ++i) if (fibers[i].st != Done) left = true;
                if (!left) { void* dummy; sim_switch(&dummy, hostSp); }
            }
            bool allDone = true;
            for (int i = 0; i < nFibers; ++i) if (fibers[i].st != Done) allDone = false;
            if (allDone) { void* dummy; sim_switch(&dummy, hostSp); }
            if (!config.expect_all_done && fibers[0].st == Done)
            {
                bool runnable = false;
                for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Runnable || (fibers[i].st == Blocked && fibers[i].timed)) runnable = true;
                if (!runnable) { void* dummy; sim_switch(&dummy, hostSp); }
            }
            schedule("exit");
            abort();
        }

        static int newFiber(void* (*fn)(void*), void* arg)
        {
            if (nFibers >= MaxFibers) return -1;
            int id = nFibers++;
            Fiber& f = fibers[id];
            char* stack = stackBase + size_t(id) * StackSize;
            f = Fiber{};
            f.id = id; f.st = Runnable; f.stack = stack; f.fn = fn; f.arg = arg;
            f.vc.clear(); f.relFence.clear(); f.acqPending.clear();
            f.prio = int(rng.below(1000)) + 1000; f.yields = 0;
            memset(stack + StackSize - 48 * 1024, 0xA5, 48 * 1024);
            libTls[id] = {}; threadExits[id].clear();
            if (tlsSize) { memcpy(tlsCopy(id), tlsImage, tlsImageSize); memset(tlsCopy(id) + tlsImageSize, 0, tlsSize - tlsImageSize); }
            uintptr_t top = (reinterpret_cast<uintptr_t>(stack) + StackSize - 64) & ~uintptr_t(63);
            uint64_t* sp = reinterpret_cast<uint64_t*>(top);
            *--sp = 0;                                  // fake return address of fiberMain
            *--sp = reinterpret_cast<uint64_t>(&fiberMain);
            for (int i = 0; i < 6; ++i) *--sp = 0;
            --sp; uint32_t* ctl = reinterpret_cast<uint32_t*>(sp); ctl[0] = 0x1f80; ctl[1] = 0x037f;
            f.sp = sp;
            if (id > 0) { f.vc = fibers[cur].vc; tick(); }
            f.vc.c[id] = 1;
            return id;
        }

        // ------------------------------------------------------------------ run control
        static std::map<std::string, ScenarioFn>& registry() { static std::map<std::string, ScenarioFn> r; return r; }

        static void* mainEntry(void* p) { reinterpret_cast<ScenarioFn>(p)(); return nullptr; }

        void diskBeginRun();
        void diskEndRun();

        static void beginRun(uint64_t seed)
        {
            runSeed = seed;
            rng.seed(seed); tuneRng.seed(seed ^ 0x5bd1e995aabbccddull);
            trace.clear(); memset(kindIdx, 0, sizeof kindIdx);
            runHash = 0x1234567; mixHash = 0;
            stepCount = 0; clockNs = 1000000000ull; seqNo = 0; accessCount = 0; realOffset = 1700000000000000000ll;
            config = Config{};
            nFibers = 0; cur = 0; unfairOver = false;
            if (bump > ArenaKept) { madvise(arena + ArenaKept, ArenaSize - ArenaKept, MADV_DONTNEED); madvise(shadow + ArenaKept / 8, (ArenaSize - ArenaKept) / 8, MADV_DONTNEED); bump = ArenaKept; }
            if (bump) memset(shadow, 0, bump / 8 + 64);
            bump = 0; liveCount = 0; liveBase = 0; allocSeq = 0; nthAlloc = 0; allocFailed = 0; allocFaultsOn = 0; liveList->clear();
            fillByte = uint8_t(0xA0 + (seed % 61));
            ++cellGen; cellsUsed = 0;
            mutexes->clear(); atomics->clear(); recs->clear(); memset(cells, 0, sizeof cells);
            // schedule strategy
            strategy = tuneRng.below(3) ? 1 : 0;
            static const double ps[] = { 0.02, 0.05, 0.1, 0.25, 0.5, 0.9 };
            pSwitch = ps[tuneRng.below(6)];
            prioPoints.clear(); lowPrio = 1000;
            if (strategy == 1)
            {
                uint32_t d = tuneRng.below(5), len = 30u << tuneRng.below(6);
                for (uint32_t i = 0; i < d; ++i) prioPoints.push_back(1 + tuneRng.below(len));
                std::sort(prioPoints.rbegin(), prioPoints.rend());
            }
            diskBeginRun();
            for (auto& f : fibers) f.st = Free;
            newFiber(&mainEntry, nullptr);
        }

        static void runOne(ScenarioFn fn, uint64_t seed)
        {
            beginRun(seed);
            fibers[0].arg = reinterpret_cast<void*>(fn);
            auto* g = __cxxabiv1::__cxa_get_globals();
            auto savedEh = *g; *g = {};
            cur = 0;
            swapTls(MaxFibers, 0);
            in_sim = true;
            sim_switch(&hostSp, fibers[0].sp);
            in_rt = true;
            swapTls(0, MaxFibers);
            *g = savedEh;
            if (config.check_leaks && arenaOn && liveCount != liveBase)
            {
                std::string s; char b[256];
                int n = 0;
                for (char* p : *liveList) if (p && shadow[(p - arena) / 8] != 0xfd && n < 4) { Hdr* h = reinterpret_cast<Hdr*>(p - sizeof(Hdr)); snprintf(b, sizeof b, " %llu bytes allocated at %p %p %p %p;", (unsigned long long)h->size, h->site[0], h->site[1], h->site[2], h->site[3]); s += b; ++n; }
                failf("leak", "%zd objects leaked:%s", ssize_t(liveCount) - ssize_t(liveBase), s.c_str());
            }
            diskEndRun();
            in_sim = false;
            fold(runHash, stepCount); fold(runHash, mixHash); fold(runHash, clockNs);
            simTimeTotal += clockNs - 1000000000ull; stepTotal += stepCount; if (stepCount > stepMost) stepMost = stepCount;
        }

        static void onSignal(int s)
        {
            const char* n = s == SIGSEGV ? "crash:SIGSEGV" : s == SIGABRT ? "crash:SIGABRT" : s == SIGFPE ? "crash:SIGFPE" : s == SIGBUS ? "crash:SIGBUS" : s == SIGILL ? "crash:SIGILL" : s == SIGALRM ? "hang" : "crash";
            failf(n, "signal %d in the code under test", s);
        }

        static void onTerminate()
        {
            in_rt = true;
            const char* t = "no exception";
            if (std::type_info* ti = abi::__cxa_current_exception_type()) t = ti->name();
            int st; char* d = abi::__cxa_demangle(t, nullptr, nullptr, &st);
            failf("terminate", "std::terminate called (%s)", d ? d : t);
        }

        static void* Raw(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(5); } return p; }
        static void* RawAt(uintptr_t a, size_t n) { void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) { perror("mmap fixed"); _exit(5); } return p; }

        static void init()
        {
            arena = static_cast<char*>(RawAt(0x600000000000ull, ArenaSize));
            shadow = static_cast<uint8_t*>(Raw(ArenaSize / 8 + 4096));
            stackBase = static_cast<char*>(RawAt(0x610000000000ull, StackSize * MaxFibers));
            cellTab = static_cast<Cell*>(Raw(sizeof(Cell) * CellCount));
            mutexes = new std::unordered_map<const void*, Mutex>; atomics = new std::unordered_map<const void*, AtomicLoc>;
            recs = new std::vector<Rec>; probes = new std::map<std::string, uint64_t>; stateSet = new std::unordered_set<uint64_t>; runSet = new std::unordered_set<uint64_t>;
            liveList = new std::vector<char*>;
            cellGen = 1;
            stack_t ss{}; ss.ss_sp = Raw(1 << 18); ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
            struct sigaction sa{}; sa.sa_handler = &onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM }) sigaction(s, &sa, nullptr);
            std::set_terminate(&onTerminate);
            errnoAddr = &errno; onceAddr[0] = &std::__once_callable; onceAddr[1] = &std::__once_call; threadExits = new std::vector<ThreadExit>[MaxFibers];
            dl_iterate_phdr([](dl_phdr_info* info, size_t, void*) -> int
            {
                for (int i = 0; i < info->dlpi_phnum; ++i)
                    if (info->dlpi_phdr[i].p_type == PT_TLS)
                    {
                        tlsAddr = static_cast<char*>(info->dlpi_tls_data); tlsSize = tlsAddr ? info->dlpi_phdr[i].p_memsz : 0;
                        tlsImage = reinterpret_cast<const char*>(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); tlsImageSize = info->dlpi_phdr[i].p_filesz;
                    }
                return 1; // the first one is the program
            }, nullptr);
            if (tlsSize) tlsCopies = static_cast<char*>(Raw(tlsSize * (MaxFibers + 1)));
            __libc_single_threaded = 0;
        }
    }

    using namespace rt;

    // ---------------------------------------------------------------------- public API
    uint32_t choose(Kind k, uint32_t n)
    {
        if (n <= 1) return 0;
        Scope s;
        uint32_t idx = kindIdx[k]++;
        uint32_t v = replaying ? replay_val(k, idx, n) : rng.below(n);
        record(k, idx, v);
        return v;
    }
    uint32_t choose_p(Kind k, uint32_t n, double p)
    {
        Scope s;
        if (n <= 1) return 0;
        uint32_t idx = kindIdx[k]++;
        uint32_t v;
        if (replaying) v = replay_val(k, idx, n);
        else v = (p > 0 && rng.unit() < p) ? 1 + rng.below(n - 1) : 0;
        record(k, idx, v);
        return v;
    }
    double tune(std::initializer_list<double> values) { Scope s; return values.begin()[tuneRng.below(uint32_t(values.size()))]; }
    uint32_t tune_n(uint32_t n) { Scope s; return tuneRng.below(n); }
    Config& cfg() { return config; }
    void swarm_sched()
    {
        config.p_spurious = tune({ 0, 0, 0.01, 0.05, 0.2 });
        config.p_weakcas = tune({ 0, 0, 0.05, 0.3 });
        config.p_clock = tune({ 0, 0, 0.002, 0.02, 0.1 });
        config.p_clockjump = tune({ 0, 0, 0.1 });
    }
    // A scope without faults also suspends a failure armed with fail_nth_alloc.
    AllocFaults::AllocFaults(bool on) : saved(allocFaultsOn >> cur & 1), armed(0)
    {
        allocFaultsOn = (allocFaultsOn & ~(uint64_t(1) << cur)) | uint64_t(on) << cur;
        if (!on && nthAllocFiber == cur) { armed = nthAlloc; nthAlloc = 0; }
    }
    AllocFaults::~AllocFaults()
    {
        allocFaultsOn = (allocFaultsOn & ~(uint64_t(1) << cur)) | uint64_t(saved) << cur;
        if (armed) { nthAlloc = armed; nthAllocFiber = cur; }
    }
    uint32_t alloc_failures() { return allocFailed; }
    void fail_nth_alloc(uint32_t n) { nthAlloc = n; nthAllocFiber = cur; }
    uint64_t now_ns() { return clockNs; }
    uint64_t steps() { return stepCount; }
    uint64_t seq() { return ++seqNo; }
    void yield(const char* what) { Scope s; if (s.active) schedule(what); }
    void advance(uint64_t ns) { clockNs += ns; }
    int fiber_id() { return cur; }
    size_t live_allocs() { return liveCount; }
    void ignore_live() { liveBase = liveCount; }

    namespace
    {
        struct StaticExit { void (*fn)(void*); void* obj; };
        bool freshStatics = false;
        // What function-local statics of the library contain at the begin of the process, with their guards.
        struct StaticData { char* at; size_t size; char* content; };
        StaticData* staticData = nullptr; size_t staticDataCount = 0;
        void findStatics()
        {
            if (staticData) return;
            staticData = static_cast<StaticData*>(std::malloc(4096 * sizeof(StaticData)));
            FILE* f = fopen("/proc/self/exe", "rb"); if (!f) failf("harness", "the symbols cannot be read");
            auto get = [&](void* to, size_t n, size_t at) { if (fseek(f, long(at), SEEK_SET) != 0 || fread(to, 1, n, f) != n) failf("harness", "the symbols cannot be read"); };
            Elf64_Ehdr h; get(&h, sizeof h, 0);
            uintptr_t constFrom = 0, constTo = 0;   // not writable after the start
            for (int i = 0; i < h.e_phnum; ++i) { Elf64_Phdr ph; get(&ph, sizeof ph, h.e_phoff + size_t(i) * h.e_phentsize); if (ph.p_type == PT_GNU_RELRO) { constFrom = ph.p_vaddr; constTo = (ph.p_vaddr + ph.p_memsz + 4095) & ~uintptr_t(4095); } }
            for (int i = 0; i < h.e_shnum; ++i)
            {
                Elf64_Shdr sec, strs; get(&sec, sizeof sec, h.e_shoff + size_t(i) * h.e_shentsize);
                if (sec.sh_type != SHT_DYNSYM) continue;
                get(&strs, sizeof strs, h.e_shoff + size_t(sec.sh_link) * h.e_shentsize);
                char* names = static_cast<char*>(std::malloc(strs.sh_size)); get(names, strs.sh_size, strs.sh_offset);
                Elf64_Sym* syms = static_cast<Elf64_Sym*>(std::malloc(sec.sh_size)); get(syms, sec.sh_size, sec.sh_offset);
                for (size_t k = 0; k < sec.sh_size / sizeof(Elf64_Sym); ++k)
                {
                    const char* n = names + syms[k].st_name;
                    if (ELF64_ST_TYPE(syms[k].st_info) != STT_OBJECT || !syms[k].st_value || !syms[k].st_size) continue;
                    // Local to a function, members and variables of the namespace.
                    if (!strstr(n, "3awl") || (strncmp(n, "_ZZ", 3) != 0 && strncmp(n, "_ZGV", 4) != 0 && strncmp(n, "_ZN3awl", 7) != 0)) continue;
                    if (syms[k].st_shndx == SHN_UNDEF || syms[k].st_shndx >= h.e_shnum || (syms[k].st_value >= constFrom && syms[k].st_value < constTo)) continue;
                    { Elf64_Shdr home; get(&home, sizeof home, h.e_shoff + size_t(syms[k].st_shndx) * h.e_shentsize); if (!(home.sh_flags & SHF_WRITE)) continue; }
                    if (staticDataCount == 4096) break;
                    StaticData& d = staticData[staticDataCount++];
                    d = { reinterpret_cast<char*>(syms[k].st_value), syms[k].st_size, static_cast<char*>(std::malloc(syms[k].st_size)) };
                    memcpy(d.content, d.at, d.size);
                }
            }
            fclose(f);
        }
        StaticExit staticExits[256]; size_t staticExitCount = 0;
        StaticExit earlyExits[256]; size_t earlyExitCount = 0; // of variables that are made before main
        long long int* staticGuards[256]; size_t staticGuardCount = 0;
        void resetStatics()
        {
            for (size_t i = 0; i < staticDataCount; ++i) memcpy(staticData[i].at, staticData[i].content, staticData[i].size);
            while (staticGuardCount) { long long int* g = staticGuards[--staticGuardCount]; reinterpret_cast<uint8_t*>(g)[0] = 0; reinterpret_cast<uint8_t*>(g)[1] = 0; }
        }
    }
    void fresh_statics()
    {
        { const bool was = in_rt; in_rt = true; findStatics(); in_rt = was; }
        // Left by a run that did not come to its end.
        while (staticExitCount) memset(staticExits[--staticExitCount].obj, 0, 16);
        resetStatics();
        freshStatics = true;
    }
    void exit_statics()
    {
        freshStatics = false;
        while (staticExitCount) { StaticExit e = staticExits[--staticExitCount]; e.fn(e.obj); memset(e.obj, 0, 16); }
        for (size_t i = earlyExitCount; i-- > 0;)
            for (size_t k = 0; k < staticDataCount; ++k)
                if (staticData[k].at == earlyExits[i].obj && memcmp(staticData[k].at, staticData[k].content, staticData[k].size) != 0) { earlyExits[i].fn(earlyExits[i].obj); break; }
        resetStatics();
    }
    void ev(const char* tag, int64_t a, int64_t b, int64_t c)
    {
        Scope s;
        if (logFile) logf("%s %lld %lld %lld", tag, (long long)a, (long long)b, (long long)c);
        for (const char* t = tag; *t; ++t) fold(runHash, uint64_t(*t));
        fold(runHash, uint64_t(a)); fold(runHash, uint64_t(b)); fold(runHash, uint64_t(c));
    }
    void mix(uint64_t v) { fold(mixHash, v); }
    void state(uint64_t v) { Scope s; if (!warm && stateSet->size() < 4000000) stateSet->insert(v); }
    void probe(const char* name, uint64_t n) { Scope s; if (!warm) (*probes)[name] += n; }
    void count_fault(int kind, uint64_t n) { if (!warm) faultCount[kind] += n; }
    void fail(const char* cls, const char* fmt, ...)
    {
        in_rt = true;
        char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
        failv(cls, b);
    }
    void rec(int op, int64_t a, int64_t b, int64_t c)
    {
        Scope s;
        recs->push_back(Rec{ ++seqNo, cur, op, a, b, c, clockNs });
        if (logFile) logf("history: op %d (%lld, %lld, %lld)", op, (long long)a, (long long)b, (long long)c);
        fold(runHash, uint64_t(op) * 31 + uint64_t(cur)); fold(runHash, uint64_t(a)); fold(runHash, uint64_t(b));
    }
    size_t rec_count() { return recs->size(); }
    Rec rec_at(size_t i) { return (*recs)[i]; }
    int64_t& cell(int i) { return cells[i]; }
    Register::Register(const char* name, ScenarioFn fn) { registry()[name] = fn; }
}

using namespace sim;
using namespace sim::rt;

// ---------------------------------------------------------------------- allocator
static void* simNew(size_t n, size_t align, bool nothrow)
{
    if (!in_rt && in_sim)
    {
        in_rt = true;
        bool failNow = false;
        if (((allocFaultsOn >> cur & 1) || (nthAlloc && nthAllocFiber == cur)) && !std::uncaught_exceptions())
        {
            if (nthAlloc && nthAllocFiber == cur && --nthAlloc == 0) failNow = true;
            else if ((allocFaultsOn >> cur & 1) && choose_p(K_ALLOC, 2, config.p_alloc)) failNow = true;
        }
        void* p = nullptr;
        if (failNow) { ++allocFailed; count_fault(K_ALLOC); if (logFile) logf("allocation of %zu bytes fails", n); }
        else if (arenaOn)
        {
            p = arenaAlloc(n ? n : 1, align);
            if (!p) failf("out-of-memory", "allocation of %zu bytes", n); // a run never legitimately needs so much
        }
        else { p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1); if (p) { memset(p, fillByte, n); clearCells(reinterpret_cast<uintptr_t>(p), n); } }
        in_rt = false;
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void simDelete(void* p, const void* pc)
{
    if (!p) return;
    if (inArena(p))
    {
        if (failing) return;
        bool saved = in_rt; in_rt = true;
        size_t o = size_t(static_cast<char*>(p) - arena);
        Hdr* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - sizeof(Hdr));
        if (shadow[o / 8] == 0xfd) failf("double-free", "memory at heap+0x%zx is freed twice, at %p", o, pc);
        if (shadow[o / 8] == 0 || o % 16) failf("bad-free", "free of heap+0x%zx which is not an object, at %p", o, pc);
        size_t n = h->size;
        if (n <= 8192 && nFibers > 1 && in_sim) raceCheck(reinterpret_cast<uintptr_t>(p), unsigned(n), F_Write | F_Free, pc);
        memset(shadow + o / 8, 0xfd, (n + 7) / 8);
        memset(p, 0xDD, n);
        --liveCount;
        in_rt = saved;
        return;
    }
    free(p);
}
#define RA __builtin_return_address(0)
void* operator new(size_t n) { return simNew(n, 0, false); }
void* operator new[](size_t n) { return simNew(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return simNew(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return simNew(n, size_t(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return simNew(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return simNew(n, size_t(a), true); }
void operator delete(void* p) noexcept { simDelete(p, RA); }
void operator delete[](void* p) noexcept { simDelete(p, RA); }
void operator delete(void* p, size_t) noexcept { simDelete(p, RA); }
void operator delete[](void* p, size_t) noexcept { simDelete(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { simDelete(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { simDelete(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simDelete(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simDelete(p, RA); }

// ---------------------------------------------------------------------- compiler inserted hooks
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void* pc) { if (in_rt || !in_sim) return; Fiber& f = fibers[cur]; if (f.depth < 256) f.calls[f.depth] = pc; ++f.depth; }
    void __tsan_func_exit() { if (in_rt || !in_sim) return; Fiber& f = fibers[cur]; if (f.depth > 0) --f.depth; }
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, 0, RA); } \
    void __tsan_write##n(void* p) { access(p, n, F_Write, RA); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 0, RA); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, F_Write, RA); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, 0, RA); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, F_Write, RA); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0, RA); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, F_Write, RA); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { accessRange(p, n, false, RA); }
    void __tsan_write_range(void* p, size_t n) { accessRange(p, n, true, RA); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, F_Write, RA); else access(p, 8, 0, RA); }
    void __tsan_vptr_read(void** p) { access(p, 8, 0, RA); }
}

namespace
{
    enum { relaxed, consume, acquire, release, acq_rel, seq_cst };
    bool isAcq(int m) { return m == consume || m == acquire || m == acq_rel || m == seq_cst; }
    bool isRel(int m) { return m == release || m == acq_rel || m == seq_cst; }

    void atomAcq(const void* p, int mo)
    {
        auto i = atomics->find(p);
        if (i == atomics->end()) return;
        Fiber& f = fibers[cur];
        if (isAcq(mo)) f.vc.join(i->second.vc); else f.acqPending.join(i->second.vc);
    }
    void atomRel(const void* p, int mo, bool rmw)
    {
        Fiber& f = fibers[cur];
        AtomicLoc& l = (*atomics)[p];
        if (isRel(mo)) { if (rmw) l.vc.join(f.vc); else l.vc = f.vc; tick(); }
        else
        {
            if (!rmw) l.vc.clear();
            if (f.hasRel) l.vc.join(f.relFence);
        }
    }
    struct AtomScope
    {
        bool act;
        AtomScope(const char* what, const volatile void* p, unsigned size, bool write, const void* pc) : act(!in_rt && in_sim)
        {
            if (!act) return;
            in_rt = true;
            if (++accessCount > 400000000ull) failf("livelock", "the run does not end");
            validCheck(reinterpret_cast<uintptr_t>(p), size, write, pc);
            if (nFibers > 1) { schedule(what); validCheck(reinterpret_cast<uintptr_t>(p), size, write, pc); raceCheck(reinterpret_cast<uintptr_t>(p), size, F_Atomic | (write ? F_Write : 0), pc); }
            else { ++stepCount; if (stepCount > config.step_max * 20ull) failf("livelock", "no progress: %llu atomic operations", (unsigned long long)stepCount); }
        }
        ~AtomScope() { if (act) in_rt = false; }
    };
}

#define ATOMIC(bits, T) \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { AtomScope s("a.load", p, bits / 8, false, RA); T v = *p; if (s.act) atomAcq(const_cast<const T*>(p), mo); return v; } \
    extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { AtomScope s("a.store", p, bits / 8, true, RA); *p = v; if (s.act) atomRel(const_cast<const T*>(p), mo, false); } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { AtomScope s("x.chg", p, bits / 8, true, RA); T o = *p; *p = v; if (s.act) { atomAcq(const_cast<const T*>(p), mo); atomRel(const_cast<const T*>(p), mo, true); } return o; } \
    static inline int cas##bits(volatile T* p, T* c, T v, int mo, int fmo, bool weak, const void* pc) { \
        AtomScope s("x.cas", p, bits / 8, true, pc); \
        T o = *p; \
        bool spur = weak && s.act && nFibers > 1 && o == *c && choose_p(K_WEAKCAS, 2, faultsOff() ? 0 : config.p_weakcas); \
        if (spur) count_fault(K_WEAKCAS); \
        if (o == *c && !spur) { *p = v; if (s.act) { atomAcq(const_cast<const T*>(p), mo); atomRel(const_cast<const T*>(p), mo, true); } return 1; } \
        *c = o; if (s.act) atomAcq(const_cast<const T*>(p), fmo); return 0; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { return cas##bits(p, c, v, mo, fmo, false, RA); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return cas##bits(p, c, v, mo, fmo, true, RA); } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { cas##bits(p, &c, v, mo, fmo, false, RA); return c; } \
    RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o & v) RMW(bits, T, or, o | v) RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))
#define RMW(bits, T, name, expr) \
    extern "C" T __tsan_atomic##bits##_fetch_##name(volatile T* p, T v, int mo) { AtomScope s("x." #name, p, bits / 8, true, RA); T o = *p; *p = T(expr); if (s.act) { atomAcq(const_cast<const T*>(p), mo); atomRel(const_cast<const T*>(p), mo, true); } return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (in_rt || !in_sim) return;
    Fiber& f = fibers[cur];
    if (isAcq(mo)) { f.vc.join(f.acqPending); f.acqPending.clear(); }
    if (isRel(mo)) { f.relFence = f.vc; f.hasRel = true; tick(); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------- pthread
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { Scope s; if (!s.active) return 0; schedule("m.lock"); syncTouch(m, RA); mtxLock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        Scope s; if (!s.active) return 0;
        schedule("m.trylock");
        syncTouch(m, RA);
        Mutex& x = (*mutexes)[m];
        if (x.owner == cur) { if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return 0; } return EBUSY; }
        if (x.owner >= 0) return EBUSY;
        mtxLock(m, false); return 0;
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return pthread_mutex_lock(m); }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return pthread_mutex_lock(m); }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { Scope s; if (!s.active) return 0; syncTouch(m, RA); mtxUnlock(m); schedule("m.unlock"); return 0; }
    int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
    {
        memset(m, 0, sizeof *m);
        if (a) { int kind; memcpy(&kind, a, sizeof kind); m->__data.__kind = kind & 3; }
        if (mutexes) { Scope s; mutexes->erase(m); }
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
    {
        Scope s; if (!s.active) return 0;
        auto i = mutexes->find(m);
        if (i != mutexes->end()) { if (i->second.owner >= 0) failf("mutex-destroyed-locked", "a locked mutex is destroyed"); mutexes->erase(i); }
        return 0;
    }
    int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
    int pthread_cond_destroy(pthread_cond_t* c) noexcept
    {
        Scope s; if (!s.active) return 0;
        for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].why == W_Cond && fibers[i].addr == c) failf("cond-destroyed", "a condition variable is destroyed while thread %d waits on it", i);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Scope s; if (!s.active) return 0; syncTouch(c, RA); return condWait(c, m, false, 0, false); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { Scope s; if (!s.active) return 0; syncTouch(c, RA); return condWait(c, m, true, toNs(ts), true); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts) { Scope s; if (!s.active) return 0; syncTouch(c, RA); return condWait(c, m, true, toNs(ts), id == CLOCK_REALTIME); }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { Scope s; if (!s.active) return 0; condNotify(c, false, RA); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { Scope s; if (!s.active) return 0; condNotify(c, true, RA); return 0; }

    int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
    int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { Scope s; if (!s.active) return 0; schedule("rw.wrlock"); mtxLock(l, false); return 0; }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
    {
        Scope s; if (!s.active) return 0;
        schedule("rw.rdlock");
        for (;;)
        {
            Mutex& x = (*mutexes)[l];
            if (x.owner == cur) failf("self-deadlock", "shared lock of a mutex owned exclusively");
            if (x.owner < 0) { ++x.readers; x.heldBy |= 1u << cur; fibers[cur].vc.join(x.vc); return 0; }
            blockOn(W_Mutex, l, "rw.wait");
        }
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { Scope s; if (!s.active) return 0; schedule("rw.tryrd"); Mutex& x = (*mutexes)[l]; if (x.owner >= 0) return EBUSY; ++x.readers; x.heldBy |= 1u << cur; fibers[cur].vc.join(x.vc); return 0; }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { Scope s; if (!s.active) return 0; schedule("rw.trywr"); Mutex& x = (*mutexes)[l]; if (x.owner >= 0 || x.readers) return EBUSY; mtxLock(l, false); return 0; }
    int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
    {
        Scope s; if (!s.active) return 0;
        Mutex& x = (*mutexes)[l];
        if (x.owner == cur) { mtxUnlock(l); schedule("rw.unlock"); return 0; }
        if (!x.readers) failf("bad-unlock", "unlock of a shared mutex that is not locked");
        x.vc.join(fibers[cur].vc); tick();
        if (--x.readers == 0) wakeAll(W_Mutex, l);
        schedule("rw.unlock");
        return 0;
    }

    int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
    {
        Scope s;
        if (!s.active) { fprintf(stderr, "pthread_create outside of a simulated run\n"); _exit(5); }
        schedule("t.create");
        if (choose_p(K_THREAD, 2, config.p_thread)) { count_fault(K_THREAD); logf("thread creation fails"); return EAGAIN; }
        int id = newFiber(fn, arg);
        if (id < 0) return EAGAIN;
        *t = pthread_t(id + 1);
        logf("thread %d created", id);
        schedule("t.created");
        return 0;
    }
    int pthread_join(pthread_t t, void** ret)
    {
        Scope s; if (!s.active) return 0;
        schedule("t.join");
        int id = int(t) - 1;
        if (id < 0 || id >= nFibers || fibers[id].joined || fibers[id].detached) failf("bad-join", "join of a thread that is not joinable");
        if (id == cur) return EDEADLK;
        while (fibers[id].st != Done) blockOn(W_Join, &fibers[id], "t.join.wait");
        fibers[id].joined = true;
        fibers[cur].vc.join(fibers[id].vc);
        if (ret) *ret = fibers[id].ret;
        return 0;
    }
    int pthread_detach(pthread_t t) noexcept { Scope s; if (!s.active) return 0; int id = int(t) - 1; if (id < 0 || id >= nFibers || fibers[id].joined || fibers[id].detached) failf("bad-join", "detach of a thread that is not joinable"); fibers[id].detached = true; return 0; }
    pthread_t pthread_self() noexcept { return in_sim ? pthread_t(cur + 1) : pthread_t(1); }
    int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
    int pthread_once(pthread_once_t* c, void (*fn)())
    {
        // 0: not done, 2: done, otherwise the fiber that does it
        bool active;
        {
            Scope s; active = s.active;
            for (;;)
            {
                if (*c == 2) { if (active) { auto i = atomics->find(c); if (i != atomics->end()) fibers[cur].vc.join(i->second.vc); } return 0; }
                if (!active || !*c) break;
                if (*c == 0x100 + cur) failf("recursive-init", "recursive call_once");
                blockOn(W_Guard, c, "once.wait");
            }
            *c = active ? 0x100 + cur : 1;
        }
        try { fn(); }
        catch (...) { Scope s; *c = 0; if (active) wakeAll(W_Guard, c); throw; }
        Scope s; *c = 2; if (active) { (*atomics)[c].vc = fibers[cur].vc; tick(); wakeAll(W_Guard, c); }
        return 0;
    }
    int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
    int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) noexcept { if (!in_sim) return __cxa_thread_atexit_impl(fn, obj, dso); bool was = in_rt; in_rt = true; threadExits[cur].push_back({ fn, obj }); in_rt = was; return 0; }
    int sched_yield() noexcept { Scope s; if (!s.active) return 0; Fiber& f = fibers[cur]; f.streak += 15; if (strategy && ++f.yields % 4 == 0) f.prio = --lowPrio; schedule("yield"); return 0; }

    int nanosleep(const timespec* ts, timespec*)
    {
        Scope s; if (!s.active) return 0;
        sleepUntil(clockNs + toNs(ts), false); return 0;
    }
    int clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec*)
    {
        Scope s; if (!s.active) return 0;
        bool real = id == CLOCK_REALTIME;
        if (flags & TIMER_ABSTIME) sleepUntil(toNs(ts), real); else sleepUntil(clockNs + toNs(ts), false);
        return 0;
    }
    int usleep(useconds_t us) { Scope s; if (!s.active) return 0; sleepUntil(clockNs + uint64_t(us) * 1000, false); return 0; }
    unsigned sleep(unsigned sec) { Scope s; if (!s.active) return 0; sleepUntil(clockNs + uint64_t(sec) * 1000000000ull, false); return 0; }
    int clock_gettime(clockid_t id, timespec* ts) noexcept
    {
        if (!in_sim) return int(::syscall(SYS_clock_gettime, id, ts));
        Scope s;
        uint64_t v = readClock(id == CLOCK_REALTIME);
        ts->tv_sec = time_t(v / 1000000000ull); ts->tv_nsec = long(v % 1000000000ull);
        return 0;
    }
    time_t time(time_t* t) noexcept { time_t v; if (in_sim) { Scope s; v = time_t(readClock(true) / 1000000000ull); } else { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }

    long syscall(long nr, ...) noexcept
    {
        va_list va; va_start(va, nr);
        long a[6]; for (long& x : a) x = va_arg(va, long);
        va_end(va);
        if (nr == SYS_futex)
        {
            Scope s;
            if (!s.active) return 0;
            const uint32_t* p = reinterpret_cast<const uint32_t*>(a[0]);
            int op = int(a[1]) & 127;
            validCheck(uintptr_t(p), 4, false, RA);
            schedule("futex");
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                if (*p != uint32_t(a[2])) { errno = EAGAIN; return -1; }
                const timespec* ts = reinterpret_cast<const timespec*>(a[3]);
                bool real = int(a[1]) & FUTEX_CLOCK_REALTIME;
                uint64_t dl = ts ? (op == FUTEX_WAIT ? clockNs + toNs(ts) : toNs(ts)) : 0;
                int w = blockOn(W_Futex, p, "futex.wait", ts != nullptr, dl, real);
                if (w == 1) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                long n = a[2]; long done = 0;
                while (n-- > 0)
                {
                    int w[MaxFibers], k = 0;
                    for (int i = 0; i < nFibers; ++i) if (fibers[i].st == Blocked && fibers[i].why == W_Futex && fibers[i].addr == p) w[k++] = i;
                    if (!k) break;
                    makeRunnable(fibers[w[k > 1 ? choose(K_NOTIFY, uint32_t(k)) : 0]], 0);
                    ++done;
                }
                return done;
            }
            failf("harness", "unsupported futex operation %d", op);
        }
        long ret;
        register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
        asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (ret < 0 && ret > -4096) { errno = int(-ret); return -1; }
        return ret;
    }

    // destructors of statics
    int __cxa_atexit(void (*fn)(void*), void* obj, void* dso) noexcept
    {
        if (in_sim && freshStatics && staticExitCount < 256) { staticExits[staticExitCount++] = { fn, obj }; return 0; }
        if (!in_sim && earlyExitCount < 256) earlyExits[earlyExitCount++] = { fn, obj };
        static int (*real)(void (*)(void*), void*, void*) = nullptr;
        if (!real) real = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
        return real(fn, obj, dso);
    }
    // function-local statics
    int __cxa_guard_acquire(long long int* g)
    {
        uint8_t* b = reinterpret_cast<uint8_t*>(g);
        Scope s;
        if (!s.active) { if (b[0]) return 0; b[1] = 1; return 1; }
        for (;;)
        {
            if (b[0]) { auto i = atomics->find(g); if (i != atomics->end()) fibers[cur].vc.join(i->second.vc); return 0; }
            if (!b[1])
            {
                b[1] = uint8_t(cur + 1);
                { auto i = atomics->find(g); if (i != atomics->end()) fibers[cur].vc.join(i->second.vc); } // a construction that failed
                if (freshStatics && staticGuardCount < 256 && std::find(staticGuards, staticGuards + staticGuardCount, g) == staticGuards + staticGuardCount) staticGuards[staticGuardCount++] = g;
                return 1;
            }
            if (b[1] == cur + 1) failf("recursive-init", "recursive initialization of a static");
            blockOn(W_Guard, g, "guard.wait");
        }
    }
    void __cxa_guard_release(long long int* g) { uint8_t* b = reinterpret_cast<uint8_t*>(g); Scope s; b[0] = 1; b[1] = 0; if (s.active) { (*atomics)[g].vc = fibers[cur].vc; tick(); wakeAll(W_Guard, g); } }
    void __cxa_guard_abort(long long int* g) { uint8_t* b = reinterpret_cast<uint8_t*>(g); Scope s; b[1] = 0; if (s.active) { (*atomics)[g].vc = fibers[cur].vc; tick(); wakeAll(W_Guard, g); } }

    void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept
    {
        in_rt = true;
        const char* base = strrchr(file, '/'); base = base ? base + 1 : file;
        char cls[64]; snprintf(cls, sizeof cls, "assert:%s", base);
        failf(cls, "assertion failed: %s (%s:%u)", e, base, line);
    }
    // Exception objects come from malloc, which reuses memory: forget earlier accesses.
    void* __cxa_allocate_exception(size_t n) noexcept
    {
        static void* (*real)(size_t) = reinterpret_cast<void* (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
        bool s = in_rt; in_rt = true;
        void* p = real(n);
        if (in_sim) clearCells(reinterpret_cast<uintptr_t>(p), n);
        in_rt = s;
        return p;
    }
    void __cxa_pure_virtual() { in_rt = true; failf("pure-virtual", "a pure virtual function is called"); }
}

namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept { if (!in_sim) { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); } Scope s; return time_point(duration(int64_t(readClock(false)))); }
        system_clock::time_point system_clock::now() noexcept { if (!in_sim) { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); } Scope s; return time_point(duration(int64_t(readClock(true)))); }
    }
}

// ---------------------------------------------------------------------- command line
static uint64_t monoMs() { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return uint64_t(ts.tv_sec) * 1000 + uint64_t(ts.tv_nsec) / 1000000; }

static uint64_t mixSeed(uint64_t base, uint64_t i) { uint64_t x = base * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull; return sim::rt::Rng::split(x); }

static int kindByName(const std::string& s) { for (int k = 0; k < K_COUNT; ++k) if (s == kindNames[k]) return k; return -1; }

int main(int argc, char** argv)
{
    std::string scen, replayFile, hashOut; uint64_t base = 1, start = 0, count = ~0ull, step = 1; double secs = 5; bool single = false; uint64_t singleSeed = 0; bool list = false, dumpHashes = false; int warmRuns = 16;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--scenario") scen = next();
        else if (a == "--base") base = strtoull(next(), nullptr, 10);
        else if (a == "--start") start = strtoull(next(), nullptr, 10);
        else if (a == "--step") step = strtoull(next(), nullptr, 10);
        else if (a == "--count") count = strtoull(next(), nullptr, 10);
        else if (a == "--secs") secs = atof(next());
        else if (a == "--replay") replayFile = next();
        else if (a == "--seed") { single = true; singleSeed = strtoull(next(), nullptr, 10); }
        else if (a == "--log") { const char* f = next(); logFile = strcmp(f, "-") ? fopen(f, "w") : stdout; }
        else if (a == "--hashes") hashOut = next();
        else if (a == "--dump-hashes") dumpHashes = true;
        else if (a == "--warm") warmRuns = atoi(next());
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 5; }
    }
    if (list) { for (auto& p : registry()) printf("%s\n", p.first.c_str()); return 0; }
    auto it = registry().find(scen);
    if (it == registry().end()) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 5; }
    scenarioName = it->first.c_str();
    ScenarioFn fn = it->second;
    init();

    std::vector<Decision> decisions;
    if (!replayFile.empty())
    {
        FILE* f = fopen(replayFile.c_str(), "r");
        if (!f) { perror("replay file"); return 5; }
        char line[256], name[64]; unsigned idx, val;
        while (fgets(line, sizeof line, f))
        {
            if (line[0] == '#' || sscanf(line, "%63s %u %u", name, &idx, &val) < 2) continue;
            int k = kindByName(name);
            if (k >= 0) replayMap[(uint64_t(k) << 32) | idx] = val;
            else if (!strcmp(name, "SEED")) singleSeed = (uint64_t(idx) << 32) | val;
            else if (!strcmp(name, "WARM")) warmRuns = int(idx);
        }
        fclose(f);
    }

    // Warm-up runs outside of the arena initialize the function-local statics and the caches of the standard library,
    // so that a run does not depend on the runs before it.
    {
        FILE* lf = logFile; logFile = nullptr;
        warm = true; arenaOn = false;
        for (int i = 0; i < warmRuns; ++i) runOne(fn, mixSeed(0x77, uint64_t(i)));
        warm = false; arenaOn = true;
        memset(faultCount, 0, sizeof faultCount); memset(kindTotal, 0, sizeof kindTotal); simTimeTotal = stepTotal = switchTotal = 0;
        logFile = lf;
    }

    auto one = [&](uint64_t seed) { alarm(120); runOne(fn, seed); alarm(0); };
    if (!replayFile.empty() || single)
    {
        replaying = !replayFile.empty();
        one(singleSeed);
        char b[256]; snprintf(b, sizeof b, "{\"outcome\":\"ok\",\"scenario\":\"%s\",\"seed\":%llu,\"hash\":\"%016llx\",\"steps\":%llu}\n", scenarioName, (unsigned long long)singleSeed, (unsigned long long)runHash, (unsigned long long)stepCount);
        emit(b);
        if (logFile) fclose(logFile);
        return 0;
    }
    uint64_t t0 = monoMs(), n = 0, nontrivial = 0;
    FILE* hf = dumpHashes ? stdout : nullptr;
    for (uint64_t i = start; n < count; i += step)
    {
        uint64_t seed = mixSeed(base, i);
        runIndex = i;
        one(seed);
        ++n;
        if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)seed, (unsigned long long)runHash);
        bool nt = false; for (auto& d : trace) if (d.kind != K_WORK) { nt = true; break; }
        if (nt) ++nontrivial;
        if (runSet->size() < 3000000 && nt) runSet->insert(runHash);
        if ((n & 15) == 0 && double(monoMs() - t0) > secs * 1000) break;
    }
    if (hf) return 0;
    if (!hashOut.empty()) { FILE* f = fopen(hashOut.c_str(), "wb"); if (f) { for (uint64_t h : *runSet) fwrite(&h, 8, 1, f); fclose(f); } FILE* g = fopen((hashOut + ".states").c_str(), "wb"); if (g) { for (uint64_t h : *stateSet) fwrite(&h, 8, 1, g); fclose(g); } }
    std::string o = "{\"outcome\":\"done\",\"scenario\":"; jsonStr(o, scenarioName);
    char b[384];
    snprintf(b, sizeof b, ",\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"states\":%zu,\"sim_ns\":%llu,\"steps\":%llu,\"most_steps\":%llu,\"switches\":%llu,\"wall_ms\":%llu,\"faults\":{", (unsigned long long)n, (unsigned long long)nontrivial,
        runSet->size(), stateSet->size(), (unsigned long long)simTimeTotal, (unsigned long long)stepTotal, (unsigned long long)stepMost, (unsigned long long)switchTotal, (unsigned long long)(monoMs() - t0));
    o += b;
    bool first = true;
    for (int k = 0; k < K_COUNT; ++k) if (faultCount[k]) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", kindNames[k], (unsigned long long)faultCount[k]); o += b; first = false; }
    o += "},\"probes\":{"; first = true;
    for (auto& p : *probes) { if (!first) o += ','; jsonStr(o, p.first.c_str()); snprintf(b, sizeof b, ":%llu", (unsigned long long)p.second); o += b; first = false; }
    o += "}}\n";
    emit(o);
    return 0;
}
