// Deterministic simulator: public interface used by the scenarios in /verif/sim/scn.
// One seed decides every choice; every non-default choice is recorded and can be replayed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim
{
    // Every nondeterministic choice belongs to a kind. A choice is addressed by (kind, ordinal of the choice within the kind).
    // Value 0 is always the benign default: "no fault", "no preemption", "smallest argument".
    enum Kind : int
    {
        K_WORK,         // workload generation
        K_SCHED,        // which fiber runs next
        K_NOTIFY,       // which waiter a notify_one / futex wake / mutex release wakes
        K_SPURIOUS,     // spurious wakeup of a condition variable wait
        K_WEAKCAS,      // spurious failure of a weak compare-exchange
        K_CLOCK,        // time passes although something is runnable (slow threads)
        K_CLOCKJUMP,    // system (wall) clock jump
        K_ALLOC,        // failing allocation
        K_THREAD,       // failing thread creation
        K_CRASH,        // crash point selection
        K_CRASHIMG,     // which un-synced effects survive a crash
        K_READ_ERR, K_READ_SHORT, K_READ_EINTR,
        K_WRITE_ERR, K_WRITE_SHORT, K_WRITE_EINTR, K_ENOSPC,
        K_FSYNC_ERR, K_TRUNC_ERR, K_OPEN_ERR, K_CLOSE_ERR,
        K_CORRUPT,      // stored bytes changed
        K_THROW,        // user supplied code (callbacks, constructors, comparers) throws
        K_STREAM,       // behaviour of an injected stream: chunking, failure
        K_USER,
        K_COUNT
    };

    const char* kind_name(int k);

    // 0..n-1. The first form is uniform; in the second a non-zero value is chosen with probability p.
    uint32_t choose(Kind k, uint32_t n);
    uint32_t choose_p(Kind k, uint32_t n, double p);
    inline bool chance(Kind k, double p) { return choose_p(k, 2, p) != 0; }
    // Workload choices.
    inline uint32_t W(uint32_t n) { return choose(K_WORK, n); }

    // Tuning of fault probabilities: not recorded, drawn from the seed only (the resulting faults are recorded).
    double tune(std::initializer_list<double> values);
    uint32_t tune_n(uint32_t n);

    struct Config
    {
        double p_spurious = 0, p_weakcas = 0, p_clock = 0, p_clockjump = 0, p_thread = 0, p_alloc = 0;
        uint32_t step_cap = 60000;   // after this many steps scheduling becomes fair and faults stop
        uint32_t step_max = 600000;  // then the run has to end: otherwise it is a livelock
        bool check_leaks = true;
        bool expect_all_done = true; // threads still blocked when the scenario returns are a deadlock
    };
    Config& cfg();
    void swarm_sched();               // picks random probabilities for the scheduling related faults

    // Allocation faults hit only while enabled by the current scope.
    struct AllocFaults
    {
        bool saved; uint32_t armed;
        AllocFaults(bool on = true);
        ~AllocFaults();
    };
    // Fault bookkeeping for scenarios: true if an allocation failed since the last reset.
    uint32_t alloc_failures();
    // Fail the n-th allocation from now (0 = none); recorded by the caller through a choice.
    void fail_nth_alloc(uint32_t n);

    uint64_t now_ns();                // simulated monotonic clock, without the side effect of reading it
    uint64_t steps();
    uint64_t seq();                   // global event sequence number, grows by one with each call
    void yield(const char* what = "yield");
    void advance(uint64_t ns);
    int fiber_id();
    size_t live_allocs();
    void ignore_live();               // objects living now are not leaks

    void ev(const char* tag, int64_t a = 0, int64_t b = 0, int64_t c = 0); // goes to the event log and the run hash
    void mix(uint64_t v);             // only to the run hash
    void state(uint64_t v);           // counts distinct states reached
    void probe(const char* name, uint64_t n = 1); // "this rare condition was hit" counter
    void count_fault(int kind, uint64_t n = 1);

    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // From now on function-local statics belong to the run: the next use constructs them again. At the end of the simulated process they are
    // destroyed in reverse order. Objects with destructors may have up to 16 bytes if they are initialized without code.
    void fresh_statics();
    void exit_statics();

    // Shared log for histories, written by any fiber without being part of the simulated program.
    struct Rec { uint64_t seq; int fiber; int op; int64_t a, b, c; uint64_t t; };
    void rec(int op, int64_t a = 0, int64_t b = 0, int64_t c = 0);
    size_t rec_count();
    Rec rec_at(size_t i);

    // Integer cells which the scenarios use for their oracles: not part of the simulated program.
    int64_t& cell(int i);

    using ScenarioFn = void (*)();
    struct Register { Register(const char* name, ScenarioFn fn); };

    // ---- disk
    namespace disk
    {
        struct Faults
        {
            double read_err = 0, read_short = 0, read_eintr = 0, write_err = 0, write_short = 0, write_eintr = 0,
                fsync_err = 0, trunc_err = 0, open_err = 0, stat_err = 0, unlink_err = 0, close_err = 0;
        };
        Faults& faults();
        void reset();                            // empty disk
        void set_sector(uint32_t n);
        void set_capacity(uint64_t bytes);       // 0 = unlimited
        uint64_t ops();                          // number of disk operations executed so far
        void crash_at(uint64_t op_from_now, bool power_loss);  // take the crash image before that operation
        bool crashed();                          // a crash image has been taken
        void cancel_crash();
        void crash_now(bool power_loss);
        void reboot();                           // the crash image becomes the disk, all descriptors are gone
        int open_fds();
        uint64_t faults_fired();                 // injected I/O errors so far
        uint64_t hard_faults();                  // those a caller has to see: not interruptions, short transfers and errors of close
        bool exists(const char* path);
        std::string content(const char* path);   // what a process would read
        std::string durable(const char* path);
        void put(const char* path, const std::string& data); // durable content
        uint64_t size(const char* path);
        void set_base(const char* path, uint64_t base); // the content is preceded by that many zeroes, which must not be written or cut off
        void drop_file(const char* path);
    }
}

#define SIM_CONCAT2(a, b) a##b
#define SIM_CONCAT(a, b) SIM_CONCAT2(a, b)
#define SIM_SCENARIO(name) \
    static void name(); \
    static sim::Register SIM_CONCAT(reg_, name)(#name, &name); \
    static void name()

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
