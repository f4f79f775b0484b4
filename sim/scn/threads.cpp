// C09, C10: UpdateQueue.  C11: sleep_for.  C12: watch_dog.
#include "common.h"
#include "Awl/UpdateQueue.h"
#include "Awl/Sleep.h"
#include "Awl/WatchDog.h"
#include <thread>
#include <memory>
#include <condition_variable>
#include <algorithm>
#include <optional>

using namespace sim;
using namespace std::chrono_literals;

namespace
{
    enum { R_PUSH_B = 1, R_PUSH_E, R_RUN, R_APPLY_B, R_APPLY_E, R_CLEAR_B, R_CLEAR_E };
    constexpr int64_t Slack = 4'000'000; // what steps of the simulator take, ns

    // Captured by the updates. Plain data: the race detector watches it.
    struct Payload
    {
        int64_t a, b;
        explicit Payload(int64_t v) : a(v), b(~v) { ++cell(10); }
        Payload(const Payload& o) : a(o.a), b(o.b) { ++cell(10); }
        ~Payload() { --cell(10); a = b = 0; }
        bool good(int64_t v) const { return a == v && b == ~v; }
    };

    void pauseSome(uint32_t maxSteps) { for (uint32_t n = W(maxSteps + 1); n; --n) yield("pause"); }
}

// ---------------------------------------------------------------- C09
SIM_SCENARIO(update_queue_threads)
{
    swarm_sched();
    uint32_t producers = 1 + W(3), perProducer = 1 + W(4), clears = W(3) == 0 ? 1 + W(2) : 0, applies = W(4);
    bool handshake = W(3) == 0;
    std::vector<int64_t> shared(producers * 100, 0); // written before a push, read by the update
    {
        struct Ctx { int n = 0; };
        // An argument by value: every update has to get the one of the apply, not what the updates before it left.
        using Arg = std::vector<int64_t>;
        awl::UpdateQueue<Ctx&, Arg> q;
        std::mutex hm; std::condition_variable hcv; bool pushed = false, running = false; // handshake
        std::vector<std::thread> ts;
        bool warmBlocks = W(2);
        Ctx ctx;
        if (warmBlocks) { for (uint32_t i = 0, n = 1 + W(3); i < n; ++i) q.Push([](Ctx& c, Arg) { ++c.n; }); q.ApplyUpdates(ctx, Arg()); }
        for (uint32_t p = 0; p < producers; ++p)
            ts.emplace_back([&, p]
            {
                for (uint32_t i = 0; i < perProducer; ++i)
                {
                    int64_t id = int64_t(p * 100 + i);
                    pauseSome(2);
                    shared[size_t(id)] = id * 7 + 1;
                    auto pay = std::make_shared<Payload>(id);
                    std::function<void(Ctx&, Arg)> f = [&shared, id, pay, own = Payload(id)](Ctx& c, Arg arg)
                    {
                        ++c.n;
                        SIM_CHECK(arg.size() == 2 && arg[0] == ~arg[1] && arg[0] == cell(13), "argument", "update %lld does not get the argument of the apply that runs it", (long long)id);
                        SIM_CHECK(own.good(id) && pay->good(id), "captured", "the captured state of update %lld is wrong", (long long)id);
                        SIM_CHECK(shared[size_t(id)] == id * 7 + 1, "visible", "update %lld does not see what was written before it was pushed", (long long)id);
                        rec(R_RUN, id);
                        if (W(4) == 0) yield("update");
                    };
                    pay.reset();
                    rec(R_PUSH_B, id);
                    q.Push(f);
                    rec(R_PUSH_E, id);
                }
            });
        if (handshake)
        {
            // While an update runs another thread pushes, and the update waits for that push.
            q.Push([&](Ctx&, Arg)
            {
                std::unique_lock<std::mutex> l(hm);
                running = true; hcv.notify_all();
                hcv.wait(l, [&] { return pushed; });
                probe("a push completes while an update runs");
            });
            ts.emplace_back([&]
            {
                { std::unique_lock<std::mutex> l(hm); hcv.wait(l, [&] { return running; }); }
                q.Push([](Ctx&, Arg) {});
                { std::unique_lock<std::mutex> l(hm); pushed = true; }
                hcv.notify_all();
            });
            clears = 0; // the handshake must not be discarded
        }
        if (clears)
            ts.emplace_back([&]
            {
                for (uint32_t i = 0; i < clears; ++i) { pauseSome(4); int64_t k = int64_t(i); rec(R_CLEAR_B, k); q.ClearPending(); rec(R_CLEAR_E, k); }
            });
        bool applyInThread = W(2);
        auto apply = [&](int64_t k) { rec(R_APPLY_B, k); cell(13) = k; q.ApplyUpdates(ctx, Arg{ k, ~k }); rec(R_APPLY_E, k); };
        auto loop = [&] { for (uint32_t i = 0; i < applies; ++i) { pauseSome(6); apply(i); } };
        std::vector<std::thread> at;
        if (applyInThread) at.emplace_back(loop); else loop();
        if (handshake && !applyInThread) apply(50);
        for (auto& t : at) t.join();
        if (handshake && applyInThread) apply(50);
        for (auto& t : ts) t.join();
        apply(99);
        SIM_CHECK(cell(10) == 0, "captured-alive", "%lld captured objects are alive after everything was applied", (long long)cell(10));

        // ---- the history
        struct Iv { uint64_t b = 0, e = 0; };
        std::map<int64_t, Iv> push; std::map<int64_t, std::vector<size_t>> run;
        std::vector<Iv> applyIv, clearIv; std::vector<std::vector<int64_t>> ran;
        std::map<int64_t, size_t> runApply;
        for (size_t i = 0; i < rec_count(); ++i)
        {
            Rec r = rec_at(i);
            uint64_t s = i;
            switch (r.op)
            {
            case R_PUSH_B: push[r.a].b = s; break;
            case R_PUSH_E: push[r.a].e = s; break;
            case R_APPLY_B: applyIv.push_back({ s, 0 }); ran.emplace_back(); break;
            case R_APPLY_E: applyIv.back().e = s; break;
            case R_CLEAR_B: clearIv.push_back({ s, 0 }); break;
            case R_CLEAR_E: clearIv.back().e = s; break;
            case R_RUN:
                SIM_CHECK(!runApply.count(r.a), "twice", "update %lld runs twice", (long long)r.a);
                SIM_CHECK(!ran.empty() && applyIv.back().e == 0, "outside", "update %lld runs outside of an apply", (long long)r.a);
                runApply[r.a] = applyIv.size() - 1; ran.back().push_back(r.a);
                break;
            }
        }
        for (auto& [id, p] : push)
        {
            auto it = runApply.find(id);
            // the apply which has to take it unless it was cleared: the first that began after the push ended
            size_t due = 0; while (due < applyIv.size() && applyIv[due].b < p.e) ++due;
            if (it == runApply.end())
            {
                bool can = false;
                for (auto& c : clearIv) if (c.e > p.b && c.b < applyIv[due].e) can = true;
                SIM_CHECK(can, "lost", "update %lld was never run and never cleared", (long long)id);
                probe("update discarded by a clear");
            }
            else
            {
                SIM_CHECK(it->second <= due, "late", "update %lld was not run by the first apply after its push", (long long)id);
                for (auto& c : clearIv) SIM_CHECK(!(c.b > p.e && c.e < applyIv[it->second].b), "not-cleared", "update %lld was run although it was cleared", (long long)id);
                if (it->second < due) probe("update taken by a concurrent apply");
            }
        }
        std::vector<int64_t> all; for (auto& r : ran) all.insert(all.end(), r.begin(), r.end());
        std::map<int64_t, int64_t> last;
        for (int64_t id : all)
        {
            int64_t p = id / 100;
            SIM_CHECK(!last.count(p) || last[p] < id, "order", "update %lld runs after update %lld of the same producer", (long long)id, (long long)last[p]);
            last[p] = id;
        }
        uint64_t h = 0; for (int64_t id : all) h = scn::mixup(h * 31 + uint64_t(id)); for (auto& r : ran) h = scn::mixup(h + r.size());
        state(h);
        ev("ran", int64_t(all.size()), int64_t(h & 0xffffff));
    }
}

// ---------------------------------------------------------------- C10
namespace
{
    struct ThrowCopy { int n; };
    struct ThrowUpdate { int n; };

    // Captured by an update; copying may throw, also it allocates.
    struct Capture
    {
        int id;
        std::unique_ptr<int> mem;
        static bool armed() { return cell(11) != 0; }
        explicit Capture(int i) : id(i), mem(std::make_unique<int>(i)) { ++cell(10); }
        Capture(const Capture& o) : id(o.id), mem(std::make_unique<int>(o.id))
        {
            SIM_CHECK(*o.mem == id, "captured", "captured state of update %d is wrong", id);
            if (armed() && chance(K_THROW, 0.3)) { ++cell(12); count_fault(K_THROW); throw ThrowCopy{ id }; }
            ++cell(10);
        }
        ~Capture() { if (mem) SIM_CHECK(*mem == id, "captured", "captured state of update %d is wrong", id); --cell(10); }
    };
}

SIM_SCENARIO(update_queue_faults)
{
    struct Ctx { std::vector<int> ran; };
    struct Update { int id; int kind; int arg; };   // what the model knows about an update
    {
        using Q = awl::UpdateQueue<Ctx&, const std::string&, std::string>;
        std::optional<Q> q;
        q.emplace();
        Ctx ctx;
        std::vector<Update> pending;                 // model
        int nextId = 0;
        std::string text;                            // the argument of the apply
        bool faults = W(4) != 0;

        // kinds: 0 plain, 1 pushes, 2 clears, 3 throws, 4 pushes and throws, 5 clears and pushes
        std::function<void(int, int)> push; // may be called from updates
        std::vector<Update>* target = &pending;
        push = [&](int kind, int arg)
        {
            int id = nextId++;
            std::function<void(Ctx&, const std::string&, std::string)> f = [&, id, kind, arg, c = Capture(id)](Ctx& x, const std::string& first, std::string second)
            {
                SIM_CHECK(c.id == id && *c.mem == id, "captured", "captured state of update %d is wrong", id);
                SIM_CHECK(first == second && first == text, "argument", "update %d does not get the arguments of the apply that runs it", id);
                x.ran.push_back(id);
                if (kind == 2 || kind == 5) { q->ClearPending(); pending.clear(); }
                if (kind == 1 || kind == 4 || kind == 5) for (int i = 0; i < arg; ++i) push(int(W(3) == 0 ? W(6) : 0), 1);
                if (kind == 3 || kind == 4) { count_fault(K_THROW); throw ThrowUpdate{ id }; }
            };
            int64_t before = cell(10);
            uint32_t af = alloc_failures();
            int64_t ct = cell(12);
            cell(11) = faults;
            bool ok = false;
            try
            {
                if (faults && choose_p(K_ALLOC, 2, 0.25)) fail_nth_alloc(1 + choose(K_ALLOC, 5));
                q->Push(f);
                ok = true;
            }
            catch (const ThrowCopy&) { SIM_CHECK(cell(12) != ct, "exception", "unexpected exception"); }
            catch (const std::bad_alloc&) { SIM_CHECK(alloc_failures() != af, "exception", "unexpected bad_alloc"); }
            fail_nth_alloc(0);
            cell(11) = 0;
            if (ok)
            {
                target->push_back({ id, kind, arg });
                SIM_CHECK(cell(10) == before + 1, "captured-alive", "%lld captured objects more after a push", (long long)(cell(10) - before));
                SIM_CHECK(cell(12) == ct && alloc_failures() == af, "swallowed", "a push reports success although it failed");
            }
            else
            {
                probe("push fails");
                SIM_CHECK(cell(10) == before, "captured-alive", "%lld captured objects more after a failed push", (long long)(cell(10) - before));
            }
        };

        uint32_t ops = 2 + W(12);
        // Sometimes many updates are waiting.
        const uint32_t burst = W(60) == 0 ? 100 + W(1000) : 0, burstAt = W(ops);
        for (uint32_t o = 0; o < ops; ++o)
        {
            if (burst && o == burstAt) { for (uint32_t i = 0; i < burst; ++i) push(0, 1); probe("hundreds of updates waiting"); }
            uint32_t op = W(10);
            if (op < 6) push(int(W(2) ? W(6) : 0), 1 + int(W(2)));
            else if (op < 9)
            {
                std::vector<Update> batch = pending;
                pending.clear();
                ctx.ran.clear();
                bool thrown = false;
                int by = -1;
                // what the updates push while they run is tracked through `pending`, which is empty now
                text = std::string(1 + W(40), char('a' + W(26)));
                try { q->ApplyUpdates(ctx, text, text); }
                catch (const ThrowUpdate& e) { thrown = true; by = e.n; }
                size_t expect = batch.size();
                int thrower = -1;
                for (size_t i = 0; i < batch.size(); ++i) if (batch[i].kind == 3 || batch[i].kind == 4) { expect = i + 1; thrower = batch[i].id; break; }
                SIM_CHECK(thrown == (thrower >= 0) && by == thrower, "exception", "exception of update %d expected, got %d", thrower, by);
                SIM_CHECK(ctx.ran.size() == expect, "ran", "%zu updates ran, expected %zu", ctx.ran.size(), expect);
                for (size_t i = 0; i < expect; ++i) SIM_CHECK(ctx.ran[i] == batch[i].id, "order", "update %d ran, expected %d", ctx.ran[i], batch[i].id);
                if (thrown) probe("update throws");
                if (!pending.empty()) probe("updates pushed by updates");
            }
            else { q->ClearPending(); pending.clear(); }
            SIM_CHECK(cell(10) == int64_t(pending.size()), "captured-alive", "%lld captured objects are alive, %zu updates are pending", (long long)cell(10), pending.size());
            ev("op", op, int64_t(pending.size()));
            uint64_t h = op; for (auto& u : pending) h = scn::mixup(h * 37 + uint64_t(u.kind) + uint64_t(u.arg) * 8);
            state(h);
        }
        q.reset();
        SIM_CHECK(cell(10) == 0, "captured-alive", "%lld captured objects survive the queue", (long long)cell(10));
    }
}

// ---------------------------------------------------------------- C11
namespace
{
    __attribute__((noinline)) void poisonStack()
    {
        volatile char buf[4096];
        for (size_t i = 0; i < sizeof buf; i += 8) *reinterpret_cast<volatile uint64_t*>(&buf[i]) = 0xA5A5A5A5A5A5A5A5ull;
    }

    // durations with different units
    template <class F> void withDuration(uint32_t kind, int64_t ns, F f)
    {
        switch (kind % 4)
        {
        case 0: f(std::chrono::nanoseconds(ns)); break;
        case 1: f(std::chrono::milliseconds(ns / 1'000'000)); break;
        case 2: f(std::chrono::seconds(ns / 1'000'000'000)); break;
        default: f(std::chrono::duration<double>(double(ns) / 1e9)); break;
        }
    }
    // the longest durations of different units: nobody lives to see the end of them
    constexpr int64_t Forever = std::numeric_limits<int64_t>::max();
    template <class F> void withForever(uint32_t kind, F f)
    {
        switch (kind % 6)
        {
        case 0: f(std::chrono::nanoseconds::max()); break;
        case 1: f(std::chrono::milliseconds::max()); break;
        case 2: f(std::chrono::hours::max()); break;
        case 3: f(std::chrono::duration<double>(std::numeric_limits<double>::infinity())); break;
        case 4: f(std::chrono::duration<double>(1e300)); break;
        default: f(std::chrono::nanoseconds::max() - std::chrono::nanoseconds(int64_t(now_ns()) + int64_t(W(3)))); break;
        }
    }
    int64_t effective(uint32_t kind, int64_t ns) { kind %= 4; return kind == 1 ? ns / 1'000'000 * 1'000'000 : kind == 2 ? ns / 1'000'000'000 * 1'000'000'000 : ns; }

    int64_t pickTime() { static const int64_t t[] = { 0, 5'000'000, 10'000'000, 20'000'000, 3'000'000'000, 10'000'000'000, 3600'000'000'000 }; return t[W(7)] + (W(4) ? 0 : W(1'000'000)); }
}

namespace
{
    // A token nobody can stop any more: without a state, or whose source has gone or goes while sleeping.
    // A token stopped by a source that has gone is stopped.
    void sleepUnstoppable(uint32_t kind, int64_t d, bool slow)
    {
        const uint32_t which = W(4);
        const int64_t e = which == 3 ? 0 : effective(kind, d);
        probe("sleep with a token of no source");
        auto own = std::make_unique<std::stop_source>();
        std::stop_token token = which ? own->get_token() : std::stop_token();
        if (which == 3) own->request_stop();
        std::thread t;
        if (which == 1) t = std::thread([&own] { pauseSome(12); own.reset(); });
        else own.reset();
        int64_t t0 = int64_t(now_ns());
        withDuration(kind, d, [&](auto dur) { awl::sleep_for(dur, token); });
        int64_t t1 = int64_t(now_ns());
        poisonStack();
        if (t.joinable()) t.join();
        if (which != 3) SIM_CHECK(t1 - t0 >= e, "early_without_source", "sleep of %lld ns with a token that can't be stopped returns after %lld ns", (long long)e, (long long)(t1 - t0));
        if (!slow) SIM_CHECK(t1 - t0 <= e + Slack, "late_without_source", "sleep of %lld ns returns after %lld ns", (long long)e, (long long)(t1 - t0));
        ev("slept alone", which, kind, t1 - t0);
    }
}

SIM_SCENARIO(interruptible_sleep)
{
    swarm_sched();
    bool slow = W(3) == 0;                           // threads may be slow: only lower bounds are checked then
    if (!slow) cfg().p_clock = 0;
    uint32_t sleepers = 1 + W(2), rounds = 1 + W(2), stoppers = W(3);
    std::stop_source src;
    cell(0) = -1;                                    // time of the completed stop request
    cell(1) = 0;                                     // a stop request was begun
    std::vector<std::thread> ts;
    int64_t stopAt[2] = { pickTime(), pickTime() };
    bool before = stoppers && W(6) == 0;
    auto stop = [&] { cell(1) = 1; src.request_stop(); if (cell(0) < 0) cell(0) = int64_t(now_ns()); };
    if (before) stop();
    for (uint32_t s = 0; s < sleepers; ++s)
        ts.emplace_back([&, s]
        {
            for (uint32_t r = 0; r < rounds; ++r)
            {
                uint32_t kind = W(6);
                const bool forever = stoppers && W(8) == 0; // somebody stops it
                int64_t d = forever ? Forever : pickTime(), e = forever ? Forever - Slack : effective(kind, d);
                if (forever) probe("endless sleep");
                if (!forever && W(4) == 0)
                {
                    sleepUnstoppable(kind, d, slow);
                    continue;
                }
                int64_t t0 = int64_t(now_ns());
                if (forever) withForever(kind, [&](auto dur) { awl::sleep_for(dur, src.get_token()); });
                else withDuration(kind, d, [&](auto dur) { awl::sleep_for(dur, src.get_token()); });
                int64_t t1 = int64_t(now_ns());
                poisonStack();
                if (!cell(1)) SIM_CHECK(t1 - t0 >= e, "early", "sleep of %lld ns returns after %lld ns without a stop request", (long long)e, (long long)(t1 - t0));
                if (!slow)
                {
                    SIM_CHECK(t1 - t0 <= e + Slack, "late", "sleep of %lld ns returns after %lld ns", (long long)e, (long long)(t1 - t0));
                    if (cell(0) >= 0)
                    {
                        int64_t from = std::max(cell(0), t0);
                        SIM_CHECK(t1 <= from + Slack, "overslept", "sleep of %lld ns, stop requested at %+lld ns, returns at %+lld ns", (long long)e, (long long)(cell(0) - t0), (long long)(t1 - t0));
                        if (t1 - t0 < e) probe("sleep interrupted");
                    }
                }
                ev("slept", s, kind, t1 - t0);
            }
        });
    for (uint32_t k = 0; k < stoppers; ++k)
        ts.emplace_back([&, k]
        {
            if (stopAt[k]) std::this_thread::sleep_for(std::chrono::nanoseconds(stopAt[k]));
            else pauseSome(12);
            stop();
        });
    for (auto& t : ts) t.join();
    state(uint64_t(now_ns() / 1000000));
}

// ---------------------------------------------------------------- C12
SIM_SCENARIO(watch_dog)
{
    swarm_sched();
    bool slow = W(3) == 0;
    if (!slow) cfg().p_clock = 0;
    std::stop_source outer;
    int64_t timeout = W(10) == 0 ? Forever - Slack : pickTime();
    bool outerStops = W(2), outerBefore = outerStops && W(5) == 0, outerGone = !outerStops && W(3) == 0;
    int64_t outerAt = pickTime(), liveFor = pickTime();
    bool pollToken = W(2);
    cell(0) = -1;                                    // time the outer request completed
    cell(1) = 0;                                     // calls of the report function
    cell(2) = 0;                                     // outer stop begun
    cell(3) = 0;                                     // destroyed
    auto requestOuter = [&] { cell(2) = 1; outer.request_stop(); cell(0) = int64_t(now_ns()); };
    if (outerBefore) requestOuter();
    std::stop_token token = outer.get_token();
    if (outerGone) outer = std::stop_source(std::nostopstate);
    if (outerGone && W(2)) token = std::stop_token();
    std::thread stopper;
    auto data = std::make_unique<std::vector<int>>(3, 7); // used by the report function, gone after the watchdog
    int64_t t0 = int64_t(now_ns());
    {
        std::optional<awl::watch_dog> dog;
        std::optional<std::stop_callback<std::function<void()>>> cb;
        auto report = [&, p = data.get()]
        {
            int64_t t = int64_t(now_ns());
            SIM_CHECK(!cell(3), "after", "the report function is called after the watchdog was destroyed");
            SIM_CHECK(++cell(1) == 1, "twice", "the timeout is reported twice");
            SIM_CHECK(t - t0 >= timeout, "early", "a timeout of %lld ns is reported after %lld ns", (long long)timeout, (long long)(t - t0));
            if (!slow) SIM_CHECK(t - t0 <= timeout + Slack, "late", "a timeout of %lld ns is reported after %lld ns", (long long)timeout, (long long)(t - t0));
            int sum = 0; for (int x : *p) sum += x;
            SIM_CHECK(sum == 21, "data", "the report function sees wrong data");
            p->push_back(0);
            if (W(3) == 0) yield("report");
        };
        dog.emplace(token, timeout >= Forever - Slack ? std::chrono::nanoseconds::max() : std::chrono::nanoseconds(timeout), report);
        std::stop_token own = dog->get_token();
        if (outerBefore) SIM_CHECK(own.stop_requested(), "not-stopped", "the outer token was stopped before, the token of the watchdog is not stopped");
        if (outerStops && !outerBefore)
            stopper = std::thread([&, own]
            {
                if (outerAt) std::this_thread::sleep_for(std::chrono::nanoseconds(outerAt)); else pauseSome(20);
                requestOuter();
                if (!cell(5)) SIM_CHECK(own.stop_requested(), "not-stopped", "the outer token is stopped, the token of the watchdog is not");
            });
        if (W(2)) { if (liveFor) { if (pollToken) awl::sleep_for(std::chrono::nanoseconds(liveFor), own); else std::this_thread::sleep_for(std::chrono::nanoseconds(liveFor)); } else pauseSome(20); }
        int64_t t = int64_t(now_ns());
        {
            bool stopped = own.stop_requested();
            int64_t after = int64_t(now_ns()) - t0;
            if (stopped && !cell(2)) SIM_CHECK(after >= timeout, "early", "the token is stopped after %lld ns, the timeout is %lld ns", (long long)after, (long long)timeout);
        }
        if (!slow && t - t0 > timeout + Slack)
        {
            SIM_CHECK(own.stop_requested(), "not-stopped", "the timeout of %lld ns has elapsed, the token is not stopped after %lld ns", (long long)timeout, (long long)(t - t0));
            if (!cell(2)) SIM_CHECK(cell(1) == 1, "not-reported", "the timeout of %lld ns is not reported after %lld ns", (long long)timeout, (long long)(t - t0));
            probe("the watchdog fires");
        }
        if (cell(0) >= 0) SIM_CHECK(own.stop_requested(), "not-stopped", "the outer token is stopped, the token of the watchdog is not");
        if (W(2)) cb.emplace(own, [&] { if (!cell(3)) cell(4) = 1; });
        if (W(2)) cb.reset();
        int64_t d0 = int64_t(now_ns());
        if (d0 - t0 < timeout) probe("destroyed before the timeout");
        cell(5) = 1;                                 // destruction begun
        dog.reset();
        cell(3) = 1;
        int64_t d1 = int64_t(now_ns());
        if (!slow) SIM_CHECK(d1 - d0 <= Slack, "destructor", "destroying the watchdog takes %lld ns", (long long)(d1 - d0));
        cb.reset();
    }
    poisonStack();
    data.reset();
    ev("end", cell(1), cell(2), int64_t(now_ns()) - t0);
    state(uint64_t(cell(1)) * 2 + uint64_t(cell(2)) + uint64_t((int64_t(now_ns()) - t0) / 1000000) * 4);
    if (stopper.joinable()) stopper.join();
}
