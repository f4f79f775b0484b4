// C13: stop_token.hpp.  C14: condition_variable_any2.hpp.  C15: jthread.hpp.
#include "common.h"
#include "JThreadExtras/jthread.hpp"
#include "JThreadExtras/condition_variable_any2.hpp"
#include <limits>
#include <memory>
#include <mutex>
#include <optional>
#include <functional>
#include <algorithm>

using namespace sim;
using namespace std::chrono_literals;

namespace
{
    constexpr int64_t Slack = 4'000'000;
    void pauseSome(uint32_t maxSteps) { for (uint32_t n = W(maxSteps + 1); n; --n) yield("pause"); }
}

// ---------------------------------------------------------------- C13
namespace
{
    enum { RegBegin, RegEnd, RunBegin, RunEnd, DtorBegin, DtorEnd, FieldCount }; // times, 0 = not yet
    constexpr int MaxCb = 24;
    int64_t& cb(int id, int field) { return cell(40 + id * FieldCount + field); }
    // 0: time when the first request began, 1: time when the successful request returned, 2: number of successful requests,
    // 3: number of callbacks, 4: main holds a source, 5: number of requests that returned

    struct StopCtx;
    struct CbFn
    {
        StopCtx* ctx; int id; int kind; int arg; int64_t* plain;
        void operator()() const;
    };
    using Cb = std::stop_callback<CbFn>;
    struct StopCtx
    {
        std::atomic<Cb*> slot[MaxCb] = {};
        int runFiber[MaxCb] = {};
        std::stop_token token;                       // for the callbacks
        int64_t message[32] = {};                    // by thread, written before its request
    };

    StopCtx* theCtx;

    bool requestStop(std::stop_source& s)
    {
        if (theCtx->message[fiber_id()] != 7) theCtx->message[fiber_id()] = 7;
        if (!cell(0)) cell(0) = int64_t(seq());
        if (!cell(7)++) cell(8) = fiber_id();
        bool r = s.request_stop();
        int64_t now = int64_t(seq());
        if (r) { ++cell(2); cell(1) = now; SIM_CHECK(cell(2) == 1, "two-requests", "two requests say that they made the stop request"); }
        ++cell(5);
        if (!cell(6)) cell(6) = now;                 // some request has returned
        return r;
    }

    void checkSeen(const std::stop_token& t)
    {
        bool after = cell(6) != 0 , begun;
        bool seen = t.stop_requested();
        begun = cell(0) != 0;
        if (after) SIM_CHECK(seen, "not-seen", "a token does not see the stop request that was made");
        if (!begun) SIM_CHECK(!seen, "seen-early", "a token sees a stop request that was not made");
        // what was written before the request is visible to those who see the request
        if (seen && cell(7) == 1) SIM_CHECK(theCtx->message[cell(8)] == 7, "visible", "what was written before the stop request is not visible");
    }

    void registerCb(StopCtx& c, int owner, std::stop_token t, bool byMove, int kind, int arg);
    void destroyCb(StopCtx& c, int id);

    void CbFn::operator()() const
    {
        int64_t now = int64_t(seq());
        SIM_CHECK(cell(0), "no-request", "callback %d runs although no stop was requested", id);
        SIM_CHECK(!cb(id, RunBegin), "twice", "callback %d runs twice", id);
        SIM_CHECK(!cb(id, DtorEnd), "after", "callback %d runs after its deregistration", id);
        cb(id, RunBegin) = now;
        cell(200 + id) = fiber_id();
        int64_t* p = plain;
        *p += 1;                                     // unsynchronised: only legal because of the guarantees
        StopCtx& c = *ctx;
        int me = id, k = kind, a = arg;
        SIM_CHECK(c.token.stop_requested(), "not-seen", "the token does not see the stop request inside a callback");
        switch (k)
        {
        case 1: for (int i = 0; i < a; ++i) yield("callback"); break;
        case 2: *p += 1; cb(me, RunEnd) = int64_t(seq()); destroyCb(c, me); probe("callback destroys itself"); return; // *this may be gone
        case 3: { /* a second request from inside */ break; }
        case 4: if (cell(3) < MaxCb) registerCb(c, fiber_id(), c.token, W(2), 0, 0); break;
        case 5: if (a < cell(3) && a != me) { destroyCb(c, a); probe("callback destroys another one"); } break;
        case 6: { auto t = c.token; auto t2 = std::move(t); SIM_CHECK(t2.stop_possible(), "stop-possible", "stop is not possible after it was requested"); break; }
        }
        *p += 1;
        cb(me, RunEnd) = int64_t(seq());
    }

    // plain memory of the callbacks, freed right after the callback was destroyed
    std::unique_ptr<int64_t>& plainOf(StopCtx&, int id);
    struct Plains { std::unique_ptr<int64_t> p[MaxCb]; };

    void registerCb(StopCtx& c, int, std::stop_token t, bool byMove, int kind, int arg)
    {
        int id = int(cell(3)++);
        if (id >= MaxCb) return;
        int64_t* plain = new int64_t(0);
        bool before = cell(6) != 0;
        cb(id, RegBegin) = int64_t(seq());
        CbFn f{ &c, id, kind, arg, plain };
        Cb* p = byMove ? new Cb(std::move(t), f) : new Cb(t, f);
        cb(id, RegEnd) = int64_t(seq());
        if (before) SIM_CHECK(cb(id, RunEnd), "not-run", "callback %d was not run by its registration although stop was requested before", id);
        cell(224 + id % 24) = int64_t(reinterpret_cast<intptr_t>(plain));
        c.slot[id].store(p);
    }

    void destroyCb(StopCtx& c, int id)
    {
        Cb* p = c.slot[id].exchange(nullptr);
        if (!p) return;
        cb(id, DtorBegin) = int64_t(seq());
        bool inside = cb(id, RunBegin) && cell(200 + id) == fiber_id();
        delete p;
        cb(id, DtorEnd) = int64_t(seq());
        if (cb(id, RunBegin) && !inside && cell(200 + id) != fiber_id())
        {
            SIM_CHECK(cb(id, RunEnd), "still-running", "callback %d is destroyed while it runs in thread %lld", id, (long long)cell(200 + id));
            if (cb(id, RunEnd) > cb(id, DtorBegin)) probe("destructor waits for the callback");
        }
        if (cell(1) && cell(1) < cb(id, DtorBegin) && cb(id, RegEnd) < cell(1))
            SIM_CHECK(cb(id, RunBegin), "not-run", "callback %d was registered during the whole request and was not run", id);
        int64_t* plain = reinterpret_cast<int64_t*>(intptr_t(cell(224 + id % 24)));
        SIM_CHECK(*plain == 0 || *plain == 2 || inside, "plain", "the callback ran partially");
        delete plain;
    }
}

// The last reference is released by any thread, and nothing but the stop state orders the threads.
static void looseTokens()
{
    auto src = std::make_unique<std::stop_source>();
    auto keep = std::make_unique<std::stop_source>(*src);
    auto token = std::make_unique<std::stop_token>(src->get_token());
    bool inThread = W(2), mayStop = W(2);
    std::vector<std::thread> ts;
    cell(0) = cell(1) = 0;
    for (uint32_t n = 2 + W(2); n; --n)
    {
        uint32_t callbacks = W(3), touch = W(5), stop = mayStop ? W(3) : 0;
        ts.emplace_back([t = *token, s = stop ? *src : std::stop_source(std::nostopstate), callbacks, touch, stop]() mutable
        {
            std::stop_token mine(std::move(t));
            std::stop_source own(std::move(s));
            SIM_CHECK(t == std::stop_token() && !t.stop_possible() && !t.stop_requested(), "moved-from", "a moved token refers to a state");
            SIM_CHECK(s == std::stop_source(std::nostopstate) && !s.stop_possible() && !s.stop_requested() && !s.request_stop(), "moved-from", "a moved source refers to a state");
            int64_t ran[2] = {};
            bool first = false;
            {
                auto f0 = [&] { ++ran[0]; SIM_CHECK(cell(0), "no-request", "a callback runs although no stop was requested"); };
                auto f1 = [&] { ++ran[1]; };
                using C0 = std::stop_callback<decltype(f0)>; using C1 = std::stop_callback<decltype(f1)>;
                std::optional<C0> c0; std::optional<C1> c1;
                if (callbacks > 0) c0.emplace(mine, f0);
                if (callbacks > 1) c1.emplace(mine, f1);
                switch (touch)
                {
                case 0: break;
                case 1: { std::stop_token other; other = mine; SIM_CHECK(other == mine && !(other != mine), "equal", "copies of a token differ"); other = std::move(other); mine = std::stop_token(); SIM_CHECK(mine != other && !(mine == other), "equal", "different tokens are equal"); mine = other; break; }
                case 2: { std::stop_token a = mine; a = mine; const std::stop_token& self = a; a = self; SIM_CHECK(a == mine, "equal", "an assigned token differs"); swap(a, mine); SIM_CHECK(a == mine, "equal", "swapped copies differ"); break; }
                case 3: { std::stop_source a; std::stop_token x = a.get_token(); SIM_CHECK(x != mine && a != own, "equal", "independent states are equal"); x = mine; SIM_CHECK(x == mine, "equal", "an assigned token differs"); a = std::move(own); own = a; swap(a, own); SIM_CHECK(!(a != own), "equal", "copies of a source differ"); break; }
                case 4: if (mine.stop_requested()) SIM_CHECK(cell(0), "seen-early", "a token sees a stop request that was not made"); break;
                }
                if (stop) { cell(0) = 1; first = own.request_stop(); if (first) ++cell(1); SIM_CHECK(mine.stop_requested() && own.stop_requested() && mine.stop_possible(), "not-seen", "the stop request is not seen"); }
                if (first && callbacks > 0) { c0.reset(); SIM_CHECK(ran[0] == 1, "not-run", "a callback was run %lld times", (long long)ran[0]); }
            }
            SIM_CHECK(ran[0] <= 1 && ran[1] <= 1, "twice", "a callback was run twice");
        });
    }
    *src = std::stop_source(std::nostopstate);
    src.reset();
    if (inThread) { keep.reset(); token.reset(); probe("the last reference is released by a worker"); }
    pauseSome(6);
    for (auto& t : ts) t.join();
    SIM_CHECK(cell(1) <= 1 && (!cell(0) || cell(1) == 1), "no-winner", "%lld stop requests say they were first", (long long)cell(1));
    if (token) SIM_CHECK(token->stop_requested() == (cell(0) != 0), "not-seen", "a token sees %d", int(token->stop_requested()));
    state(uint64_t(cell(0) * 2 + cell(1)));
}

// Tokens, sources and callbacks of several states are copied, moved, swapped and assigned over each other.
static void severalStates()
{
    constexpr int T = 4, S = 4, C = 4, MaxStates = 24;
    struct Call { int64_t* runs; void operator()() const { ++*runs; } };
    struct Model { bool requested = false; };
    Model m[MaxStates]; int states = 0;
    std::stop_token t[T]; int ti[T]; std::fill(ti, ti + T, -1);
    std::optional<std::stop_source> s[S]; int si[S]; std::fill(si, si + S, -1);
    std::unique_ptr<std::stop_callback<Call>> c[C]; int ci[C]; int64_t runs[C] = {}, due[C] = {};
    for (int i = 0; i < S; ++i) { if (W(2)) { s[i].emplace(); si[i] = states++; } else s[i].emplace(std::nostopstate); }
    auto sources = [&](int k) { return std::count(si, si + S, k) != 0; };
    auto check = [&]
    {
        for (int i = 0; i < T; ++i)
        {
            bool req = ti[i] >= 0 && m[ti[i]].requested, possible = ti[i] >= 0 && (req || sources(ti[i]));
            SIM_CHECK(t[i].stop_requested() == req, "assigned", "token %d refers to state %d, says stop requested %d", i, ti[i], int(t[i].stop_requested()));
            SIM_CHECK(t[i].stop_possible() == possible, "stop-possible", "token %d refers to state %d, says stop possible %d", i, ti[i], int(t[i].stop_possible()));
            for (int k = 0; k < T; ++k) SIM_CHECK((t[i] == t[k]) == (ti[i] == ti[k]) && (t[i] != t[k]) == (ti[i] != ti[k]), "equal", "the tokens of states %d and %d compare wrongly", ti[i], ti[k]);
        }
        for (int i = 0; i < S; ++i)
        {
            bool req = si[i] >= 0 && m[si[i]].requested;
            SIM_CHECK(s[i]->stop_requested() == req, "assigned", "source %d refers to state %d, says stop requested %d", i, si[i], int(s[i]->stop_requested()));
            SIM_CHECK(s[i]->stop_possible() == (si[i] >= 0), "stop-possible", "source %d refers to state %d, says stop possible %d", i, si[i], int(s[i]->stop_possible()));
            for (int k = 0; k < S; ++k) SIM_CHECK((*s[i] == *s[k]) == (si[i] == si[k]) && (*s[i] != *s[k]) == (si[i] != si[k]), "equal", "the sources of states %d and %d compare wrongly", si[i], si[k]);
        }
        for (int i = 0; i < C; ++i) SIM_CHECK(runs[i] == due[i], "runs", "callback %d ran %lld times, expected %lld", i, (long long)runs[i], (long long)due[i]);
    };
    for (uint32_t n = 1 + W(30); n; --n)
    {
        int a = int(W(T)), b = int(W(T));
        switch (W(14))
        {
        case 0: case 1: t[a] = t[b]; ti[a] = ti[b]; break;
        case 2: t[a] = std::move(t[b]); if (a == b) {} else { ti[a] = ti[b]; ti[b] = -1; } break;
        case 3: if (W(2)) t[a].swap(t[b]); else std::swap(t[a], t[b]); std::swap(ti[a], ti[b]); break;
        case 4: { std::stop_token x(t[a]); std::stop_token y(std::move(x)); SIM_CHECK(y == t[a], "equal", "a copied token differs"); t[b] = std::move(y); ti[b] = ti[a]; break; }
        case 5: case 6: t[a] = s[b]->get_token(); ti[a] = si[b]; break;
        case 7: *s[a] = *s[b]; si[a] = si[b]; break;
        case 8: *s[a] = std::move(*s[b]); if (a != b) { si[a] = si[b]; si[b] = -1; } break;
        case 9: if (W(2)) s[a]->swap(*s[b]); else std::swap(*s[a], *s[b]); std::swap(si[a], si[b]); break;
        case 10: if (states < MaxStates) { if (W(2)) *s[a] = std::stop_source(); else { s[a].reset(); s[a].emplace(); } si[a] = states++; } break;
        case 11:
        {
            bool first = si[a] >= 0 && !m[si[a]].requested;
            if (first) for (int i = 0; i < C; ++i) if (c[i] && ci[i] == si[a]) ++due[i];
            if (si[a] >= 0) m[si[a]].requested = true;
            SIM_CHECK(s[a]->request_stop() == first, "no-winner", "a stop request by source %d of state %d does not say %d", a, si[a], int(first));
            break;
        }
        default:
            if (c[a] && W(2)) { c[a].reset(); break; }
            c[a].reset(); runs[a] = due[a] = 0; ci[a] = ti[b];
            if (ti[b] >= 0 && m[ti[b]].requested) due[a] = 1;
            if (W(2)) c[a].reset(new std::stop_callback<Call>(t[b], Call{ &runs[a] }));
            else { c[a].reset(new std::stop_callback<Call>(std::move(t[b]), Call{ &runs[a] })); t[b] = std::stop_token(); ti[b] = -1; }
            break;
        }
        check();
    }
    uint64_t h = uint64_t(states); for (int i = 0; i < T; ++i) h = h * 31 + uint64_t(ti[i] + 1); for (int i = 0; i < S; ++i) h = h * 31 + uint64_t(si[i] + 1);
    state(h); ev("states", states, int64_t(h));
    probe("several stop states");
}

SIM_SCENARIO(stop_state)
{
    swarm_sched();
    switch (W(8)) { case 0: looseTokens(); return; case 1: severalStates(); return; }
    uint32_t threads = 1 + W(4);
    {
        auto ctx = std::make_unique<StopCtx>();
        StopCtx& c = *ctx;
        theCtx = &c;
        std::optional<std::stop_source> src;
        src.emplace();
        cell(4) = 1;
        c.token = src->get_token();
        bool early = W(8) == 0;                      // requested before anything is registered
        if (early) { requestStop(*src); }
        // some callbacks exist before the threads
        for (uint32_t i = W(4); i; --i) registerCb(c, 0, c.token, W(2), int(W(7)), int(W(4)));
        std::vector<std::thread> ts;
        bool dropSource = W(2);
        for (uint32_t n = 0; n < threads; ++n)
        {
            bool withSource = W(3) != 0;
            ts.emplace_back([&c, s = withSource ? *src : std::stop_source(std::nostopstate), t = c.token]() mutable
            {
                std::stop_token mine[2] = { t, std::stop_token() };
                std::stop_source own[2] = { std::move(s), std::stop_source(std::nostopstate) };
                t = std::stop_token();
                for (uint32_t i = 1 + W(6); i; --i)
                    switch (W(14))
                    {
                    case 0: case 1: if (cell(3) < MaxCb - 6) registerCb(c, 0, c.token, W(2), int(W(7)), int(W(4))); break;
                    case 2: case 3: { int n = int(std::min<int64_t>(cell(3), MaxCb)); if (n) destroyCb(c, int(W(uint32_t(n)))); break; }
                    case 4: case 5: if (own[0].stop_possible()) { bool r = requestStop(own[0]); SIM_CHECK(own[0].stop_requested(), "not-seen", "the source does not see the stop request"); (void)r; } break;
                    case 6: mine[1] = mine[0]; break;
                    case 7: mine[1] = std::move(mine[0]); mine[0] = mine[1]; break;
                    case 8: mine[0].swap(mine[1]); if (mine[0] == std::stop_token()) mine[0].swap(mine[1]); break;
                    case 9: own[1] = own[0]; SIM_CHECK(own[1] == own[0], "equal", "copies of a source differ"); break;
                    case 10: own[1] = std::move(own[0]); own[0].swap(own[1]); break;
                    case 11: own[1] = std::stop_source(std::nostopstate); break;
                    case 12: { std::stop_token x = own[0].get_token(); if (own[0].stop_possible()) checkSeen(x); break; }
                    default:
                        if (mine[0] != std::stop_token()) checkSeen(mine[0]);
                        { bool held = cell(4) != 0; bool p = mine[0].stop_possible(); if (held && cell(4) && mine[0] != std::stop_token()) SIM_CHECK(p, "stop-possible", "stop is not possible although a source exists"); }
                        break;
                    }
            });
        }
        pauseSome(10);
        if (W(2)) { bool r = requestStop(*src); (void)r; }
        if (dropSource) { cell(4) = 0; src.reset(); }
        for (auto& t : ts) t.join();
        ts.clear();
        if (src && W(2)) requestStop(*src);
        if (cell(5)) SIM_CHECK(cell(2) == 1, "no-winner", "%lld stop requests were made, %lld of them say they were first", (long long)cell(5), (long long)cell(2));
        bool requested = cell(5) != 0;
        checkSeen(c.token);
        std::stop_token t1 = c.token, t2 = t1;
        if (src) { std::stop_source b = *src; SIM_CHECK(t1.stop_possible(), "stop-possible", "stop is not possible although a source exists"); cell(4) = 0; src.reset(); }
        SIM_CHECK(t1.stop_possible() == requested, "stop-possible", "stop_possible is %d without sources, a request %s made", int(t1.stop_possible()), requested ? "was" : "was not");
        SIM_CHECK(t1.stop_requested() == requested, "not-seen", "a token sees %d", int(t1.stop_requested()));
        if (W(2)) { t1 = std::stop_token(); SIM_CHECK(t2.stop_requested() == requested, "not-seen", "a token sees %d", int(t2.stop_requested())); }
        if (!requested && W(2) && cell(3) < MaxCb) registerCb(c, 0, c.token, W(2), 0, 0);
        int n = int(std::min<int64_t>(cell(3), MaxCb));
        if (W(2)) { c.token = std::stop_token(); t1 = t2 = std::stop_token(); } // the callbacks keep the state
        for (int i = 0; i < n; ++i) destroyCb(c, i);
        for (int i = 0; i < n; ++i) if (!requested) SIM_CHECK(!cb(i, RunBegin), "no-request", "callback %d was run", i);
        uint64_t h = 0; for (int i = 0; i < n; ++i) h = h * 3 + (cb(i, RunBegin) ? 1 : 0) + (cb(i, RunBegin) && cb(i, RunBegin) < cb(i, RegEnd) ? 1 : 0);
        ev("end", n, int64_t(h), requested);
        state(h * 32 + uint64_t(n));
    }
}

// ---------------------------------------------------------------- C14
namespace
{
    struct OwnedMutex
    {
        std::mutex m; int which;
        explicit OwnedMutex(int w) : which(w) { cell(which) = -1; }
        void lock() { m.lock(); cell(which) = fiber_id(); }
        void unlock() { SIM_CHECK(cell(which) == fiber_id(), "unlock", "the lock is released by thread %d, owner %lld", fiber_id(), (long long)cell(which)); cell(which) = -1; m.unlock(); }
        bool mine() const { return cell(which) == fiber_id(); }
    };
    int64_t pickTime() { static const int64_t t[] = { 0, 5'000'000, 10'000'000, 20'000'000, 3'000'000'000, 10'000'000'000, 3600'000'000'000 }; return t[W(7)] + (W(4) ? 0 : W(1'000'000)); }
}

SIM_SCENARIO(condvar)
{
    swarm_sched();
    bool slow = W(3) == 0;
    if (!slow) cfg().p_clock = 0;
    uint32_t waiters = 1 + W(3), notifiers = 1 + W(2), stoppers = W(3);
    OwnedMutex mtx(0);
    cell(1) = 0;                                     // tickets
    cell(2) = -1;                                    // time at which a stop request completed
    cell(3) = 0;                                     // a stop request has begun
    cell(4) = 0;                                     // waits finished
    auto cv = std::make_unique<std::condition_variable_any2>();
    std::stop_source src;
    int64_t tickets = 0;                             // guarded by mtx
    bool destroyEarly = W(3) == 0;
    uint32_t rounds = destroyEarly ? 1 : 1 + W(2);
    uint32_t total = waiters * rounds;
    std::vector<std::thread> ts;
    int64_t inWait = 0;                              // guarded by mtx

    auto waiter = [&](uint32_t w)
    {
        for (uint32_t r = 0; r < rounds; ++r)
        {
            // 0 wait, 1 wait(pred), 2 wait_until(pred), 3 wait_for(pred), 4..6 with a token, 7 wait_until, 8 wait_for without predicate
            uint32_t kind = W(9);
            int64_t d = pickTime();
            if (destroyEarly && (kind == 0 || kind == 7 || kind == 8)) kind = 4;
            if (destroyEarly && (kind == 2 || kind == 3 || kind == 5 || kind == 6)) d = 3600'000'000'000;
            const bool forever = kind == 6 && W(6) == 0; // the longest duration of some unit
            const bool alone = !destroyEarly && !forever && (kind == 5 || kind == 6) && W(4) == 0; // nobody can stop it
            std::stop_token tok = src.get_token();
            if (alone) { probe("wait with a token of no source"); tok = std::stop_token(); if (W(2)) tok = std::stop_source().get_token(); }
            bool last = false;
            auto pred = [&] { SIM_CHECK(mtx.mine(), "unlocked-predicate", "the predicate is evaluated without the lock"); last = tickets > 0; return last; };
            std::unique_lock<OwnedMutex> lock(mtx);
            ++inWait;
            int64_t t0 = int64_t(now_ns());
            auto abs = std::chrono::steady_clock::now() + std::chrono::nanoseconds(d);
            bool result = false, timed = false, token = false;
            switch (kind)
            {
            case 0: while (tickets == 0) cv->wait(lock); last = result = true; break;
            case 1: cv->wait(lock, pred); result = last; SIM_CHECK(last, "result", "wait returns although the predicate is false"); break;
            case 2: timed = true; result = cv->wait_until(lock, abs, pred); break;
            case 3: timed = true; result = cv->wait_for(lock, std::chrono::nanoseconds(d), pred); break;
            case 4: token = !alone; result = cv->wait(lock, tok, pred); break;
            case 5: timed = true; token = !alone; result = cv->wait_until(lock, tok, abs, pred); break;
            case 6:
                timed = true; token = !alone;
                if (!forever) { result = cv->wait_for(lock, tok, std::chrono::nanoseconds(d), pred); break; }
                d = std::numeric_limits<int64_t>::max() - Slack; probe("endless wait");
                switch (W(4))
                {
                case 0: result = cv->wait_for(lock, tok, std::chrono::nanoseconds::max(), pred); break;
                case 1: result = cv->wait_for(lock, tok, std::chrono::milliseconds::max(), pred); break;
                case 2: result = cv->wait_for(lock, tok, std::chrono::hours::max(), pred); break;
                default: result = cv->wait_for(lock, tok, std::chrono::nanoseconds::max() - std::chrono::nanoseconds(t0), pred); break;
                }
                break;
            case 7: timed = true; while (tickets == 0) if (cv->wait_until(lock, abs) == std::cv_status::timeout) break; last = result = tickets > 0; break;
            default: timed = true; while (tickets == 0) { auto left = abs - std::chrono::steady_clock::now(); if (left <= left.zero() || cv->wait_for(lock, left) == std::cv_status::timeout) break; } last = result = tickets > 0; break;
            }
            int64_t t1 = int64_t(now_ns());
            SIM_CHECK(mtx.mine() && lock.owns_lock(), "lock", "the wait returns without the lock");
            SIM_CHECK(result == last, "result", "the wait returns %d, the predicate was %d", int(result), int(last));
            SIM_CHECK(result == (tickets > 0), "result", "the wait returns %d, the predicate is %d", int(result), int(tickets > 0));
            if (!result) SIM_CHECK((timed && t1 - t0 >= d) || (token && cell(3)), "no-reason", "the wait returns false, no timeout and no stop request (kind %u, %lld of %lld ns)", kind, (long long)(t1 - t0), (long long)d);
            if (!slow && timed) SIM_CHECK(t1 - t0 <= d + Slack, "late", "a wait for %lld ns returns after %lld ns", (long long)d, (long long)(t1 - t0));
            if (!slow && token && cell(2) >= 0)
            {
                SIM_CHECK(t1 <= std::max(cell(2), t0) + Slack, "overslept", "stop requested at %+lld ns, the wait returns at %+lld ns", (long long)(cell(2) - t0), (long long)(t1 - t0));
                if (!result) probe("wait stopped");
            }
            if (result) --tickets; else if (timed && !(token && cell(3))) probe("wait timed out");
            ++cell(4);
            ev("wait", w, kind, result);
            lock.unlock();
            pauseSome(2);
        }
    };
    for (uint32_t w = 0; w < waiters; ++w) ts.emplace_back([&, w] { waiter(w); });

    if (!destroyEarly)
        for (uint32_t n = 0; n < notifiers; ++n)
            ts.emplace_back([&, n]
            {
                // together the notifiers hand out at least one ticket per wait
                uint32_t my = total / notifiers + (n < total % notifiers ? 1 : 0);
                for (uint32_t i = 0; i < my; ++i)
                {
                    if (W(4) == 0) std::this_thread::sleep_for(std::chrono::nanoseconds(pickTime()));
                    pauseSome(4);
                    bool inside = W(2), all = W(2);
                    {
                        std::unique_lock<OwnedMutex> lock(mtx);
                        ++tickets;
                        if (inside) { if (all) cv->notify_all(); else cv->notify_one(); }
                    }
                    if (!inside) { if (all) cv->notify_all(); else cv->notify_one(); }
                }
            });
    int64_t stopAt[2] = { pickTime(), pickTime() };
    for (uint32_t k = 0; k < stoppers; ++k)
        ts.emplace_back([&, k]
        {
            if (stopAt[k]) std::this_thread::sleep_for(std::chrono::nanoseconds(stopAt[k])); else pauseSome(20);
            bool locked = W(3) == 0;                 // requesting stop with the lock held
            std::unique_lock<OwnedMutex> lock(mtx, std::defer_lock);
            if (locked) lock.lock();
            cell(3) = 1;
            src.request_stop();
            if (locked) lock.unlock();
            if (cell(2) < 0) cell(2) = int64_t(now_ns());
        });
    if (destroyEarly)
    {
        // All waiters are notified, then the condition variable goes away while they are still returning.
        for (;;)
        {
            {
                std::unique_lock<OwnedMutex> lock(mtx);
                if (inWait == int64_t(waiters)) { tickets = waiters; cv->notify_all(); break; }
            }
            std::this_thread::sleep_for(1us);
        }
        cv.reset();
        if (cell(4) < int64_t(waiters)) probe("destroyed while waits are returning");
    }
    for (auto& t : ts) t.join();
    SIM_CHECK(cell(4) == int64_t(total), "waits", "%lld waits ended of %u", (long long)cell(4), total);
    state(uint64_t(now_ns() / 1000000) * 16 + uint64_t(tickets));
}

// ---------------------------------------------------------------- C15
namespace
{
    constexpr int MaxThreads = 14;
    // per thread: state (0 not started, 1 running, 2 ended), saw stop, stop requested by owner
    enum { TState, TSaw, TAsked, TFields };
    int64_t& th(int id, int f) { return cell(20 + id * TFields + f); }

    std::atomic<int> ended[MaxThreads];              // only looked at after a thread was detached

    struct Work
    {
        int id; int kind; uint32_t n;
        std::shared_ptr<std::vector<int>> data;
        int64_t* borrowed;                           // dies right after the thread was joined
        Work(int i, int k, uint32_t m, int64_t* b) : id(i), kind(k), n(m), data(std::make_shared<std::vector<int>>(3, i)), borrowed(b) {}
        void body(const std::stop_token* t) const
        {
            SIM_CHECK(th(id, TState) == 0, "twice", "the function of thread %d runs twice", id);
            th(id, TState) = 1;
            *borrowed += 1;
            switch (kind)
            {
            case 0: break;                           // returns at once
            case 1: for (uint32_t i = 0; i < n; ++i) yield("work"); break;
            case 2: if (t) while (!t->stop_requested()) std::this_thread::sleep_for(1us); break;
            case 3:
                if (t)
                {
                    std::mutex m; std::condition_variable_any2 cv; std::unique_lock<std::mutex> l(m);
                    bool r = cv.wait(l, *t, [] { return false; });
                    SIM_CHECK(!r && t->stop_requested(), "result", "the wait ends without a stop request");
                }
                break;
            case 4: std::this_thread::sleep_for(std::chrono::milliseconds(n)); break;
            case 5: if (t) { bool called = false; std::stop_callback c(*t, [&] { called = true; }); while (!t->stop_requested()) std::this_thread::sleep_for(1us); } break;
            }
            if (t && t->stop_requested())
            {
                SIM_CHECK(th(id, TAsked), "stray-stop", "thread %d is stopped although nobody asked it to stop", id);
                th(id, TSaw) = 1;
            }
            for (int x : *data) SIM_CHECK(x == id, "data", "thread %d sees wrong data", id);
            *borrowed += 1;
            th(id, TState) = 2;
            ended[id].store(1, std::memory_order_release);
        }
    };
    struct TokenFn : Work { using Work::Work; void operator()(std::stop_token t) const { SIM_CHECK(t.stop_possible(), "token", "thread %d gets a token without a state", id); body(&t); } };
    struct TokenArgFn : Work { using Work::Work; void operator()(std::stop_token t, std::unique_ptr<int> p, int v) const { SIM_CHECK(p && *p == id && v == id + 1, "arguments", "wrong arguments"); body(&t); } };
    struct PlainFn : Work { using Work::Work; void operator()() const { body(nullptr); } };
    struct PlainArgFn : Work { using Work::Work; void operator()(std::unique_ptr<int> p) const { SIM_CHECK(p && *p == id, "arguments", "wrong arguments"); body(nullptr); } };
    // can be called both ways: the one with the token has to be taken
    struct BothFn : Work { using Work::Work; void operator()(std::stop_token t) const { body(&t); } void operator()() const { sim::fail("token", "the function is called without the token"); } };
}

SIM_SCENARIO(jthread_owner)
{
    swarm_sched();
    for (auto& e : ended) e.store(0, std::memory_order_relaxed);
    bool faults = W(3) == 0;
    if (faults) cfg().p_thread = tune({ 0, 0.1, 0.4 });
    {
        struct Slot { std::jthread t; int id = -1; };
        Slot s[3];
        std::unique_ptr<int64_t> borrowed[MaxThreads];
        bool ignorant[MaxThreads] = {};              // never takes the token
        int kinds[MaxThreads] = {};
        int next = 0;
        auto finished = [&](int id, const char* how)
        {
            if (id < 0) return;
            SIM_CHECK(th(id, TState) == 2, "not-joined", "thread %d has not ended after %s", id, how);
            SIM_CHECK(*borrowed[id] == 2, "borrowed", "thread %d left %lld", id, (long long)*borrowed[id]);
            borrowed[id].reset();
        };
        auto ask = [&](int id) { if (id >= 0) th(id, TAsked) = 1; };
        auto create = [&](std::jthread& out) -> int
        {
            if (next >= MaxThreads) return -2;
            int id = next++;
            int kind = int(W(6)); uint32_t n = W(8);
            kinds[id] = kind;
            borrowed[id] = std::make_unique<int64_t>(0);
            int64_t* b = borrowed[id].get();
            uint32_t af = alloc_failures();
            bool failAlloc = faults && choose_p(K_ALLOC, 2, 0.3);
            try
            {
                uint32_t shape = W(5);
                ignorant[id] = shape >= 3;
                auto make = [&](auto&& f, auto&&... args)
                {
                    if (failAlloc) fail_nth_alloc(1 + choose(K_ALLOC, 4));
                    std::jthread t(std::forward<decltype(f)>(f), std::forward<decltype(args)>(args)...);
                    fail_nth_alloc(0);
                    out = std::move(t);
                };
                switch (shape)
                {
                case 0: make(TokenFn(id, kind, n, b)); break;
                case 1: { auto p = std::make_unique<int>(id); make(TokenArgFn(id, kind, n, b), std::move(p), id + 1); break; }
                case 2: make(BothFn(id, kind, n, b)); break;
                case 3: make(PlainFn(id, kind, n, b)); break;
                default: { auto p = std::make_unique<int>(id); make(PlainArgFn(id, kind, n, b), std::move(p)); break; }
                }
                fail_nth_alloc(0);
                return id;
            }
            catch (const std::system_error&) { fail_nth_alloc(0); probe("thread creation fails"); }
            catch (const std::bad_alloc&) { fail_nth_alloc(0); SIM_CHECK(alloc_failures() != af, "exception", "unexpected bad_alloc"); probe("allocation for a thread fails"); }
            SIM_CHECK(th(id, TState) == 0, "started", "a thread runs although its creation failed");
            borrowed[id].reset();
            return -1;
        };
        auto check = [&](Slot& x)
        {
            bool joinable = x.id >= 0;
            SIM_CHECK(x.t.joinable() == joinable, "joinable", "joinable is %d", int(x.t.joinable()));
            if (joinable) SIM_CHECK(x.t.get_stop_token().stop_requested() == (th(x.id, TAsked) != 0), "stop-state", "the stop state of thread %d is %d", x.id, int(x.t.get_stop_token().stop_requested()));
        };
        uint32_t ops = 2 + W(9);
        for (uint32_t o = 0; o < ops; ++o)
        {
            Slot& a = s[W(3)]; Slot& b = s[W(3)];
            uint32_t op = W(10);
            switch (op)
            {
            case 0: case 1: case 2:
                {
                    // a new thread is assigned over whatever is there: the old one is stopped and joined
                    int old = a.id;
                    std::jthread t;
                    int id = create(t);
                    if (id >= 0) { ask(old); a.t = std::move(t); finished(old, "assignment"); a.id = id; SIM_CHECK(!t.joinable(), "moved-from", "a moved thread is still joinable"); }
                    break;
                }
            case 3:
                if (&a != &b)
                {
                    int old = a.id;
                    ask(old);
                    a.t = std::move(b.t);
                    finished(old, "move assignment");
                    a.id = b.id; b.id = -1;
                }
                break;
            case 4: if (&a != &b) { a.t.swap(b.t); std::swap(a.id, b.id); } break;
            case 5:
                if (a.id >= 0)
                {
                    bool was = th(a.id, TAsked);
                    ask(a.id);
                    bool r = a.t.request_stop();
                    SIM_CHECK(r == !was, "request", "request_stop returns %d", int(r));
                }
                else SIM_CHECK(!a.t.request_stop() || true, "request", "request_stop on nothing");
                break;
            case 6:
                if (a.id >= 0)
                {
                    // explicit join; the thread must be able to end
                    bool endsItself = ignorant[a.id] || kinds[a.id] == 0 || kinds[a.id] == 1 || kinds[a.id] == 4;
                    if (!endsItself || W(2)) { ask(a.id); a.t.request_stop(); } else probe("joined without a stop request");
                    std::stop_token left = a.t.get_stop_token();
                    a.t.join();
                    finished(a.id, "join");
                    SIM_CHECK(!a.t.joinable() && left.stop_requested() == (th(a.id, TAsked) != 0), "stop-state", "the stop state of thread %d after it was joined is %d", a.id, int(left.stop_requested()));
                    a.id = -1;
                    a.t = std::jthread();
                }
                break;
            case 7:
                {
                    std::jthread t(std::move(a.t));
                    int id = a.id;
                    a.id = -1;
                    SIM_CHECK(!a.t.joinable(), "moved-from", "a moved thread is still joinable");
                    if (W(2) && id >= 0) { ask(id); }
                    else if (id >= 0) { a.t = std::move(t); a.id = id; break; }
                    // destroyed here
                    { std::jthread u(std::move(t)); }
                    finished(id, "destruction");
                    break;
                }
            case 8:
                if (a.id >= 0)
                {
                    // a detached thread is neither stopped nor joined by its former owner, but can be stopped by others
                    int id = a.id; a.id = -1;
                    std::stop_source src = a.t.get_stop_source();
                    bool was = th(id, TAsked);
                    SIM_CHECK(a.t.get_id() != std::jthread::id(), "id", "a running thread has no id");
                    a.t.detach();
                    SIM_CHECK(!a.t.joinable() && a.t.get_id() == std::jthread::id(), "detached", "a detached thread is still joinable");
                    if (W(2)) a.t = std::jthread();
                    SIM_CHECK(src.stop_requested() == was, "stop-state", "detach or the destruction after it requests a stop");
                    pauseSome(6);
                    th(id, TAsked) = 1;
                    SIM_CHECK(src.request_stop() == !was, "request", "the stop of a detached thread fails");
                    while (!ended[id].load(std::memory_order_acquire)) std::this_thread::sleep_for(100us);
                    probe("detached");
                    SIM_CHECK(*borrowed[id] == 2, "borrowed", "thread %d left %lld", id, (long long)*borrowed[id]);
                    a.t = std::jthread();
                }
                break;
            default: pauseSome(12); break;
            }
            for (auto& x : s) check(x);
            ev("op", op, a.id, b.id);
        }
        for (auto& x : s) { ask(x.id); { std::jthread t(std::move(x.t)); } finished(x.id, "destruction"); x.id = -1; }
        uint64_t h = 0; for (int i = 0; i < next; ++i) h = h * 5 + uint64_t(th(i, TState)) + uint64_t(th(i, TSaw)) * 2;
        state(h);
    }
}
