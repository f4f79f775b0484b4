// C34 stop watch, C35 aggregated calls, C37 singletons.
#include "common.h"
#include "Awl/StopWatch.h"
#include "Awl/Aggregator.h"
#include "Awl/SharedSingleton.h"
#include "Awl/StaticSingleton.h"
#include "Awl/StaticFactory.h"
#include <limits>
#include <chrono>
#include <thread>
#include <mutex>
#include <memory>
#include <optional>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <algorithm>

using namespace sim;
using namespace std::chrono_literals;

// ------------------------------------------------------------------------------------------------ C34
namespace
{
    struct Watch
    {
        awl::StopWatch w; int64_t lo = 0, hi = 0;       // it was started in [lo, hi]
    };
    template <class F> void timed(int64_t& lo, int64_t& hi, F f) { lo = int64_t(now_ns()); f(); hi = int64_t(now_ns()); }
    void pass()
    {
        static const int64_t t[] = { 1, 999, 1000, 1'000'000, 999'999'999, 1'000'000'000, 61'000'000'000, 3600'000'000'000, 90'000'000'000'000 };
        const int64_t d = t[W(9)] + int64_t(W(3));
        if (W(3)) std::this_thread::sleep_for(std::chrono::nanoseconds(d)); else advance(uint64_t(d));
        // The wall clock may jump here.
        mix(uint64_t(std::chrono::system_clock::now().time_since_epoch().count()));
    }
    template <class D> void hasElapsed(const awl::StopWatch& w, const Watch& m, D d, int64_t ns, const char* what)
    {
        int64_t a, b; bool r = false;
        timed(a, b, [&] { r = w.HasElapsed(d); });
        SIM_CHECK(!r || b - m.lo >= ns, "early", "%s of %lld ns have elapsed after at most %lld ns", what, (long long)ns, (long long)(b - m.lo));
        SIM_CHECK(r || a - m.hi < ns, "late", "%s of %lld ns have not elapsed after at least %lld ns", what, (long long)ns, (long long)(a - m.hi));
        probe(r ? "elapsed" : "not elapsed");
    }
    template <class V, class R> void counted(const awl::StopWatch& w, const Watch& m, int64_t unit, const char* what)
    {
        int64_t a, b; V v{};
        timed(a, b, [&] { v = w.GetElapsedCount<V, R>(); });
        SIM_CHECK(int64_t(v) >= (a - m.hi) / unit && int64_t(v) <= (b - m.lo) / unit, "elapsed", "the elapsed time is %lld %s and not between %lld and %lld", (long long)v, what, (long long)((a - m.hi) / unit), (long long)((b - m.lo) / unit));
    }
    void watched()
    {
        std::vector<Watch> ws;
        for (int i = 0, n = 1 + int(W(3)); i < n; ++i) { Watch x{ awl::StopWatch(std::chrono::steady_clock::time_point{}) }; timed(x.lo, x.hi, [&] { x.w = awl::StopWatch(); }); ws.push_back(x); }
        for (int o = 0, n = 5 + int(W(30)); o < n; ++o)
        {
            Watch& m = ws[W(uint32_t(ws.size()))]; const awl::StopWatch& w = m.w;
            int64_t a, b;
            switch (W(12))
            {
            case 0: case 1: pass(); break;
            case 2: { int64_t lo; timed(lo, b, [&] { m.w.Reset(); }); m.lo = lo; m.hi = b; probe("reset"); break; }
            case 3: { std::chrono::steady_clock::duration d; timed(a, b, [&] { d = w.GetElapsedTime(); }); SIM_CHECK(d.count() >= a - m.hi && d.count() <= b - m.lo, "elapsed", "the elapsed time is %lld ns and not between %lld and %lld", (long long)d.count(), (long long)(a - m.hi), (long long)(b - m.lo)); break; }
            case 4: { std::chrono::steady_clock::duration d; timed(a, b, [&] { d = w; }); SIM_CHECK(d.count() >= a - m.hi && d.count() <= b - m.lo, "elapsed", "the converted time is %lld ns and not between %lld and %lld", (long long)d.count(), (long long)(a - m.hi), (long long)(b - m.lo)); break; }
            case 5: counted<int64_t, std::micro>(w, m, 1000, "us"); break;
            case 6: counted<long, std::ratio<1>>(w, m, 1'000'000'000, "s"); break;
            case 7: counted<int, std::ratio<3600>>(w, m, 3600'000'000'000, "h"); break;
            case 8:
            {
                double s = 0; timed(a, b, [&] { s = w.GetElapsedSeconds<double>(); });
                SIM_CHECK(s >= double(a - m.hi) * 1e-9 * (1 - 1e-12) - 1e-12 && s <= double(b - m.lo) * 1e-9 * (1 + 1e-12) + 1e-12, "elapsed", "the elapsed time is %.12f s and not between %.12f and %.12f", s, double(a - m.hi) * 1e-9, double(b - m.lo) * 1e-9);
                break;
            }
            case 9:
            {
                int64_t v = 0; timed(a, b, [&] { v = w.GetElapsedCast<std::chrono::milliseconds>().count(); });
                SIM_CHECK(v >= (a - m.hi) / 1'000'000 && v <= (b - m.lo) / 1'000'000, "elapsed", "the elapsed time is %lld ms", (long long)v);
                break;
            }
            case 10:
            {
                if (W(6) == 0)
                {
                    // The longest and the shortest interval of a unit.
                    const int64_t never = std::numeric_limits<int64_t>::max(), always = std::numeric_limits<int64_t>::min();
                    switch (W(8))
                    {
                    case 0: hasElapsed(w, m, std::chrono::nanoseconds::max(), never, "endless nanoseconds"); break;
                    case 1: hasElapsed(w, m, std::chrono::milliseconds::max(), never, "endless milliseconds"); break;
                    case 2: hasElapsed(w, m, std::chrono::hours::max(), never, "endless hours"); break;
                    case 3: hasElapsed(w, m, std::chrono::duration<double>(std::numeric_limits<double>::infinity()), never, "endless seconds"); break;
                    case 4: hasElapsed(w, m, std::chrono::duration<float>(1e30f), never, "very many seconds"); break;
                    case 5: hasElapsed(w, m, std::chrono::hours::min(), always, "negative hours"); break;
                    case 6: hasElapsed(w, m, std::chrono::nanoseconds::min(), always, "negative nanoseconds"); break;
                    case 7: hasElapsed(w, m, std::chrono::duration<double>(-1e300), always, "negative seconds"); break;
                    }
                    probe("extreme interval");
                    break;
                }
                // Intervals around the time that has passed.
                int64_t e = int64_t(now_ns()) - m.lo; int64_t ns = std::max<int64_t>(0, W(4) == 0 ? e / 2 : e + int64_t(W(400)) - 200);
                switch (W(5))
                {
                case 0: hasElapsed(w, m, std::chrono::nanoseconds(ns), ns, "nanoseconds"); break;
                case 1: { int64_t ms = ns / 1'000'000 + W(2); hasElapsed(w, m, std::chrono::milliseconds(ms), ms * 1'000'000, "milliseconds"); break; }
                case 2: hasElapsed(w, m, 0ns, 0, "nothing"); break;
                case 3: { int64_t h = e / 3600'000'000'000 + W(2); hasElapsed(w, m, std::chrono::hours(h), h * 3600'000'000'000, "hours"); break; }
                case 4: { int64_t s = e / 1'000'000'000 + W(2); hasElapsed(w, m, std::chrono::duration<double>(double(s)), s * 1'000'000'000, "seconds"); break; }
                }
                break;
            }
            case 11: if (ws.size() < 6) { Watch c = m; if (W(2)) { c.w = awl::StopWatch(std::chrono::steady_clock::now() - std::chrono::nanoseconds(5'000)); c.hi = int64_t(now_ns()) - 5'000; c.lo = c.hi - 100'000'000'000; probe("started in the past"); } ws.push_back(c); } break;
            }
        }
        mix(now_ns());
    }
}
SIM_SCENARIO(stop_watch)
{
    swarm_sched(); cfg().p_clockjump = tune({ 0, 0.05, 0.3 });
    std::vector<std::thread> ts;
    for (int i = int(W(3)); i > 0; --i) ts.emplace_back(watched);
    watched();
    for (auto& t : ts) t.join();
    state(now_ns() / 1'000'000'000);
}

// ------------------------------------------------------------------------------------------------ C35
namespace
{
    struct Boom { int n; };
    constexpr uint32_t Alive = 0x600DBEEF;
    template <bool Copyable> struct Token
    {
        uint32_t magic = Alive; int id;
        explicit Token(int i) : id(i) { ++cell(0); }
        Token(const Token& o) requires Copyable : id(o.id) { o.check(); ++cell(0); }
        Token(Token&& o) noexcept : id(o.id) { o.check(); o.id = -1; ++cell(0); }
        Token& operator=(const Token& o) requires Copyable { check(); o.check(); id = o.id; return *this; }
        Token& operator=(Token&& o) noexcept { check(); o.check(); int i = o.id; o.id = -1; id = i; return *this; }
        ~Token() { check(); magic = 0; --cell(0); }
        void check() const { SIM_CHECK(magic == Alive, "destroyed", "an argument that is not alive is used"); }
    };
    using TC = Token<true>;
    using TM = Token<false>;
    std::string text(int id) { return "the argument number " + std::to_string(id) + " of an aggregated call"; }
    template <class T> T make(int id) { if constexpr (std::is_same_v<T, std::string>) return text(id); else if constexpr (std::is_same_v<T, int>) return id; else return T(id); }
    int idOf(int i) { return i; }
    int idOf(const std::string& s) { size_t at = s.rfind(' ', s.size()); int n = -1; if (s.size() > 20) n = atoi(s.c_str() + strlen("the argument number ")); scn::use(at); SIM_CHECK(n >= 0 && s == text(n), "argument", "a string argument has other contents"); return n; }
    template <bool C> int idOf(const Token<C>& t) { t.check(); return t.id; }

    template <class... Ts> struct Call
    {
        static constexpr size_t N = sizeof...(Ts);
        using A = awl::aggregator<Ts...>;
        std::mutex m; std::shared_ptr<A> a;
        int last[N]; int calls = 0, ids = 0; bool done = false, cancelled = false, inside = false, throws = false, cancelInside = false;

        bool complete() const { for (int x : last) if (x < 0) return false; return true; }
        template <class... Us> void called(Us&&... us)
        {
            fail_nth_alloc(0); AllocFaults off(false);
            SIM_CHECK(inside && !cancelled, "called", cancelled ? "a cancelled call is made" : "the function is called when no argument is set");
            SIM_CHECK(complete(), "called", "the function is called before all arguments are set");
            SIM_CHECK(++calls == 1, "called", "the function is called %d times", calls);
            int got[] = { idOf(us)... };
            for (size_t i = 0; i < N; ++i) SIM_CHECK(got[i] == last[i], "argument", "argument %zu of the call is %d and not %d", i, got[i], last[i]);
            done = true;
            if (cancelInside) { a->cancel(); probe("cancelled by the call"); }
            if (throws) { count_fault(K_THROW); throw Boom{ calls }; }
        }
        template <size_t I> void deliver()
        {
            using T = std::tuple_element_t<I, std::tuple<std::decay_t<Ts>...>>;
            const int times = 1 + (W(4) == 0 ? int(W(3)) : 0);
            for (int k = 0; k < times; ++k)
            {
                if (W(3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(W(50))); else if (W(2)) yield();
                std::lock_guard lock(m);
                if (done || !a) return;
                if (cancelled && W(2)) return;
                SIM_CHECK(a->all() == complete(), "all", "all() is %d with%s all arguments set", int(a->all()), complete() ? "" : "out");
                int id = ++ids; bool before = complete(), failed = false, boom = false;
                const int was = last[I];
                try
                {
                    T v = make<T>(id);
                    if (was >= 0) probe("an argument is set again");
                    last[I] = id; inside = true;
                    std::optional<AllocFaults> f; if (pAlloc > 0) { f.emplace(true); fail_nth_alloc(choose_p(K_ALLOC, 3, pAlloc)); }
                    try { a->template set<I>(std::move(v)); } catch (...) { fail_nth_alloc(0); f.reset(); throw; }
                    fail_nth_alloc(0); f.reset();
                }
                catch (const Boom& b) { boom = true; SIM_CHECK(b.n == 1 && done, "exception", "another exception arrives"); }
                catch (const std::bad_alloc&) { failed = true; }
                inside = false;
                SIM_CHECK(!failed || calls == 0, "exception", "the call was made and failed");
                SIM_CHECK(boom == (done && throws), "exception", "an exception of the function %s", boom ? "arrives from nowhere" : "does not arrive");
                if (failed) { last[I] = was; probe("no memory for a call"); done = true; return; }
                if (!cancelled || done) SIM_CHECK(done == complete(), "called", "the last argument is set and the function is not called");
                if (cancelled && !done && complete()) { probe("all arguments of a cancelled call"); SIM_CHECK(calls == 0, "called", "a cancelled call is made"); }
                if (done) { SIM_CHECK(!before, "called", "the function is called again"); probe("called"); }
                else SIM_CHECK(a->all() == complete(), "all", "all() is wrong after an argument was set");
            }
        }
        double pAlloc = 0;
        template <size_t... I> void start(std::vector<std::thread>& ts, std::index_sequence<I...>)
        {
            // Several sources in one thread or each in its own one.
            (ts.emplace_back([this] { deliver<I>(); if (I == 0 && W(3) == 0) deliver<N - 1>(); }), ...);
        }
        void run()
        {
            for (int& x : last) x = -1;
            pAlloc = tune({ 0, 0, 0.2 }); throws = W(4) == 0; cancelInside = W(5) == 0;
            auto shared = std::make_shared<int>(7); std::weak_ptr<int> weak = shared;
            auto f = [this, shared](Ts... us) { SIM_CHECK(*shared == 7, "called", "the function is damaged"); called(std::forward<Ts>(us)...); };
            shared.reset();
            try
            {
                std::optional<AllocFaults> faults; if (pAlloc > 0) { faults.emplace(true); fail_nth_alloc(choose_p(K_ALLOC, 4, pAlloc)); }
                try
                {
                    if (W(2)) a = awl::make_shared_aggregator<Ts...>(std::function<void(Ts...)>(std::move(f)));
                    else a = std::make_shared<A>(std::move(f));
                }
                catch (...) { fail_nth_alloc(0); throw; }
                fail_nth_alloc(0);
            }
            catch (const std::bad_alloc&) { probe("no memory for an aggregator"); return; }
            scn::use(std::move(f));
            const bool cancels = W(4) == 0, drops = W(6) == 0;
            std::vector<std::thread> ts;
            start(ts, std::make_index_sequence<N>());
            if (cancels || drops)
            {
                if (W(2)) std::this_thread::sleep_for(std::chrono::microseconds(W(50))); else for (int i = int(W(8)); i > 0; --i) yield();
                std::lock_guard lock(m);
                if (cancels) { a->cancel(); if (!done) cancelled = true; probe("cancelled"); }
                else { a.reset(); probe("dropped"); }
            }
            for (auto& t : ts) t.join();
            if (!cancelled && !drops && !done) SIM_CHECK(false, "called", "all arguments are set and the function is not called");
            const bool dropped = !a;
            a.reset();
            scn::use(dropped);
            state(uint64_t(ids) * 8 + uint64_t(calls) * 2 + cancelled);
        }
    };
}
SIM_SCENARIO(aggregated_call)
{
    swarm_sched();
    switch (W(6))
    {
    case 0: { auto c = std::make_unique<Call<int, TC, TM, std::string>>(); c->run(); break; }
    case 1: { auto c = std::make_unique<Call<TM>>(); c->run(); break; }
    case 2: { auto c = std::make_unique<Call<const std::string&, TC>>(); c->run(); break; }
    case 3: { auto c = std::make_unique<Call<TM, TM, TM>>(); c->run(); break; }
    case 4: { auto c = std::make_unique<Call<const TC&, TM, std::string, int, TC>>(); c->run(); break; }
    case 5: { auto c = std::make_unique<Call<std::string, std::string>>(); c->run(); break; }
    }
    SIM_CHECK(cell(0) == 0, "live", "%lld arguments are never destroyed", (long long)cell(0));
}

// ------------------------------------------------------------------------------------------------ C37
namespace singles
{
    enum { Live = 0, Made = 8, Ended = 16, Tried = 24, Booms = 32 };
    struct Injected0 {};
    double pThrow = 0;
    // One type per singleton. The counters do not belong to the program.
    template <int K> struct Thing
    {
        int64_t id, check; std::string text;
        Thing() : Thing(0) {}
        explicit Thing(int64_t more) : text("a text that needs memory of its own")
        {
            SIM_CHECK(cell(Live + K) == 0, "twice", "an instance is made while another one exists");
            ++cell(Tried + K);
            if (choose_p(K_THROW, 2, pThrow)) { ++cell(Booms + K); count_fault(K_THROW); throw Injected0(); }
            id = ++cell(Made + K) + more; check = ~id;
            ++cell(Live + K);
        }
        Thing(const Thing&) = delete; Thing& operator=(const Thing&) = delete;
        ~Thing() { SIM_CHECK(check == ~id && cell(Live + K) == 1, "destroyed", "an instance is destroyed that does not exist"); --cell(Live + K); ++cell(Ended + K); check = 0; }
    };
    using A = Thing<0>; using B = Thing<1>; using C = Thing<2>; using D = Thing<3>;
}
namespace awl
{
    // The user makes these.
    template <> inline std::shared_ptr<singles::B> make_singleton_instance<>() { return std::make_shared<singles::B>(100); }
    template <> inline std::shared_ptr<singles::D> make_singleton_instance<>() { return std::shared_ptr<singles::D>(new singles::D(100)); }
}
namespace singles
{
    double pAlloc = 0;
    template <class T, int K, bool Again> struct Held
    {
        std::vector<std::shared_ptr<T>> held; std::vector<std::weak_ptr<T>> watched;
        bool was = false; T* one = nullptr;
        const int64_t more = K % 2 ? 100 : 0;
        void acquire()
        {
            const int64_t tried = cell(Tried + K), made = cell(Made + K), boom = cell(Booms + K); const uint32_t before = alloc_failures();
            std::shared_ptr<T> p; bool thrown = false;
            {
                std::optional<AllocFaults> faults; if (pAlloc > 0) { faults.emplace(true); fail_nth_alloc(choose_p(K_ALLOC, 5, pAlloc)); }
                try { if constexpr (Again) p = awl::ondemand_singleton<T>(); else p = awl::shared_singleton<T>(); }
                catch (const std::bad_alloc&) { thrown = true; SIM_CHECK(alloc_failures() != before, "throws", "no memory although no allocation failed"); }
                catch (const Injected0&) { thrown = true; SIM_CHECK(cell(Booms + K) != boom, "throws", "an exception comes from nowhere"); }
                fail_nth_alloc(0);
            }
            ev("acquire", K, p != nullptr, thrown);
            const bool exists = !held.empty();
            SIM_CHECK(thrown == (alloc_failures() != before || cell(Booms + K) != boom), "throws", "a failed construction is not reported");
            if (exists)
            {
                SIM_CHECK(!thrown && p.get() == one && cell(Tried + K) == tried, "same", "the instance exists and is not returned");
                probe("the instance exists");
            }
            else if (!Again && was) { SIM_CHECK(!thrown && !p && cell(Tried + K) == tried, "again", "the instance was destroyed and is made again"); probe("it was destroyed"); return; }
            else if (thrown) { SIM_CHECK(cell(Live + K) == 0, "live", "an attempt that failed leaves an instance"); probe("an attempt fails"); return; }
            else
            {
                SIM_CHECK(p && cell(Made + K) == made + 1 && p->id == made + 1 + more, "made", "the instance is not made");
                probe(was ? "made again" : "made");
                one = p.get(); was = true;
            }
            SIM_CHECK(p->check == ~p->id && p->text.size() == 35, "value", "the instance is damaged");
            if (W(4) == 0) watched.push_back(p);
            held.push_back(std::move(p));
            SIM_CHECK(size_t(held[0].use_count()) == held.size(), "shared", "%ld owners are counted and there are %zu", held[0].use_count(), held.size());
        }
        void release()
        {
            if (held.empty()) return;
            held.erase(held.begin() + long(W(uint32_t(held.size()))));
            SIM_CHECK(cell(Live + K) == (held.empty() ? 0 : 1), "live", "%zu owners hold %lld instances", held.size(), (long long)cell(Live + K));
            if (held.empty()) { probe("released by the last owner"); for (auto& w : watched) SIM_CHECK(w.expired(), "live", "the instance can still be reached"); watched.clear(); }
        }
    };

    // Registered like a factory function in a translation unit.
    int one(int x) { return x + 1; }
    int two(int x) { if (choose_p(K_THROW, 2, pThrow)) { count_fault(K_THROW); throw Injected0(); } return x * 2; }
    int three(int x) { return x + 3; }

    template <int K> struct Unique : Thing<K>
    {
        Unique() { for (int i = int(W(3)); i > 0; --i) yield("constructing"); }
    };
    struct Outer : Unique<5>
    {
        Unique<4>& inner;
        Outer() : inner(awl::static_singleton<Unique<4>>()) { for (int i = int(W(3)); i > 0; --i) yield("constructing"); if (choose_p(K_THROW, 2, pThrow)) { ++cell(Booms + 6); count_fault(K_THROW); throw Injected0(); } }
        ~Outer() { SIM_CHECK(cell(Live + 4) == 1 && inner.check == ~inner.id, "order", "what the instance uses is destroyed before it"); }
    };
    template <class T, int K> void use()
    {
        const T& t = awl::static_singleton<T>();
        SIM_CHECK(t.check == ~t.id && t.text.size() == 35, "value", "the instance is not complete");
        static_cast<void>(K);
        cell(56 + K) = cell(56 + K) ? cell(56 + K) : int64_t(&t);
        SIM_CHECK(cell(56 + K) == int64_t(&t), "same", "there are two instances");
    }
}
SIM_SCENARIO(singletons)
{
    using namespace singles;
    swarm_sched();
    fresh_statics();
    pThrow = tune({ 0, 0.2, 0.6 }); pAlloc = tune({ 0, 0.2, 0.5 });
    {
        auto a = std::make_unique<Held<A, 0, false>>(); auto b = std::make_unique<Held<B, 1, true>>(); auto c = std::make_unique<Held<C, 2, true>>(); auto d = std::make_unique<Held<D, 3, false>>();
        for (int n = int(W(30)); n > 0; --n)
            switch (W(8))
            {
            case 0: a->acquire(); break; case 1: b->acquire(); break; case 2: c->acquire(); break; case 3: d->acquire(); break;
            case 4: a->release(); break; case 5: b->release(); break; case 6: c->release(); break; case 7: d->release(); break;
            }
        if (W(2))
        {
            // Used by several threads for the first time.
            std::vector<std::thread> ts; int caught = 0; // of constructors
            for (int i = 1 + int(W(4)); i > 0; --i)
                ts.emplace_back([&]
                {
                    for (int n = 1 + int(W(3)); n > 0; --n)
                    {
                        for (int k = int(W(3)); k > 0; --k) yield();
                        try { if (W(2)) use<Outer, 5>(); else use<Unique<4>, 4>(); }
                        catch (const Injected0&) { ++cell(55); }
                    }
                });
            for (auto& t : ts) t.join();
            scn::use(caught);
            SIM_CHECK(cell(55) == cell(Booms + 4) + cell(Booms + 5) + cell(Booms + 6), "throws", "%lld constructions failed and %lld were reported", (long long)(cell(Booms + 4) + cell(Booms + 5) + cell(Booms + 6)), (long long)cell(55));
            if (cell(55)) probe("a constructor of a static throws");
            if (cell(Live + 4) && cell(Live + 5)) probe("statics that use each other");
        }
        std::optional<awl::StaticLink<int (*)(int)>> l1, l2, l3;
        if (W(2))
        {
            using Func = int (*)(int);
            std::vector<std::pair<std::string, Func>> model;
            auto reg = [&](auto& l, const char* name, Func f) { l.emplace(name, f); model.push_back({ name, f }); };
            int n = int(W(4));
            if (n > 0) reg(l1, "one", &one);
            if (n > 1) reg(l2, "two", &two);
            if (n > 2) reg(l3, "three", &three);
            size_t count = 0;
            for (auto* link : awl::static_chain<Func>()) { ++count; bool known = false; for (auto& m : model) known = known || (m.first == link->name() && m.second == link->value()); SIM_CHECK(known, "chain", "an unknown link is in the chain"); }
            SIM_CHECK(count == model.size(), "chain", "%zu are registered and %zu found", model.size(), count);
            for (int i = 0; i < 4; ++i)
            {
                static const char* const names[] = { "one", "two", "three", "on", "", "ones", "ONE" };
                const char* name = names[W(7)]; Func f = nullptr; for (auto& m : model) if (m.first == name) f = m.second;
                const int x = int(W(100)); int64_t r = -1; bool unknown = false, boom = false;
                try { r = awl::create<int>(name, int(x)); } catch (const awl::FactoryException&) { unknown = true; } catch (const Injected0&) { boom = true; }
                SIM_CHECK(unknown == !f, "factory", "a function that is%s registered is%s found", f ? "" : " not", unknown ? " not" : "");
                if (f && !boom) SIM_CHECK(r == (f == one ? x + 1 : f == two ? x * 2 : x + 3), "factory", "another function is called");
                probe(unknown ? "an unknown name" : boom ? "a factory function throws" : "a factory function");
            }
        }
        state(uint64_t(cell(Made)) + uint64_t(cell(Made + 1)) * 4 + uint64_t(cell(Made + 2)) * 64 + uint64_t(a->held.size() + b->held.size() * 8 + c->held.size() * 64 + d->held.size() * 512) * 4096);
        const bool late = W(2);
        if (late) { exit_statics(); probe("held until after the end"); }
        a.reset(); b.reset(); c.reset(); d.reset();
        if (!late) exit_statics();
    }
    for (int k = 0; k < 6; ++k) SIM_CHECK(cell(Live + k) == 0 && cell(Made + k) == cell(Ended + k), "live", "%lld instances are made and %lld destroyed", (long long)cell(Made + k), (long long)cell(Ended + k));
    SIM_CHECK(cell(Made + 4) <= 1 + cell(Booms + 4), "twice", "a static is made %lld times", (long long)cell(Made + 4));
}
