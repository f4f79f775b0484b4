// C16: ProcessTask.  C17: UpdateTask.  C18: async_generator and generator.  C19: TimeQueue.
#include "common.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
#include "Awl/Coro/AsyncGenerator.h"
#include "Awl/Coro/Generator.h"
#include "Awl/Testing/TimeQueue.h"
#include <memory>
#include <optional>
#include <algorithm>
#include <array>

using namespace sim;

namespace
{
    // ---- values: cell(0) counts the living ones
    struct Tracked
    {
        int64_t v; int64_t* mem;
        explicit Tracked(int64_t x = 0) : v(x), mem(new int64_t(~x)) { ++cell(0); }
        Tracked(const Tracked& o) : v(o.v), mem(new int64_t(~o.v)) { ++cell(0); }
        Tracked(Tracked&& o) noexcept : v(std::exchange(o.v, -1)), mem(std::exchange(o.mem, nullptr)) { ++cell(0); }
        Tracked& operator=(Tracked&& o) noexcept { delete mem; v = std::exchange(o.v, -1); mem = std::exchange(o.mem, nullptr); return *this; }
        ~Tracked() { delete mem; --cell(0); v = -2; }
        bool is(int64_t x) const { return v == x && mem && *mem == ~x; }
    };
    struct Err { int64_t code; };

    // ---- leaf operations: suspended coroutines waiting to be completed in any order
    struct Leaf;
    constexpr int MaxLeaves = 64;
    struct Pending { std::coroutine_handle<> h; Leaf* leaf; };
    Pending pending[MaxLeaves]; int pendingCount;
    double pThrow;                                   // of user code
    bool mayThrow() { if (pThrow > 0 && chance(K_THROW, pThrow)) { count_fault(K_THROW); return true; } return false; }

    struct Leaf
    {
        bool completed = false, registered = false, resumed = false; int64_t code; std::unique_ptr<int> memory;
        explicit Leaf(int64_t c = 0) : code(c), memory(new int(7)) {}
        Leaf(const Leaf&) = delete;
        ~Leaf()
        {
            if (registered) for (int i = 0; i < pendingCount; ++i) if (pending[i].leaf == this) { pending[i] = pending[--pendingCount]; break; }
        }
        bool await_ready() { if (W(4) == 0) { completed = true; return true; } return false; }
        void await_suspend(std::coroutine_handle<> h)
        {
            SIM_CHECK(pendingCount < MaxLeaves, "scenario", "too many leaves");
            registered = true; pending[pendingCount++] = { h, this };
        }
        void await_resume()
        {
            SIM_CHECK(completed, "early", "a coroutine is resumed before the operation it awaits has completed");
            SIM_CHECK(!resumed, "twice", "a coroutine is resumed twice");
            resumed = true;
            if (code && mayThrow()) throw Err{ code };
        }
    };
    // Completes one pending leaf; false if there is none.
    bool completeOne()
    {
        if (!pendingCount) return false;
        int i = int(choose(K_USER, uint32_t(pendingCount)));
        Pending p = pending[i];
        pending[i] = pending[--pendingCount];
        p.leaf->registered = false; p.leaf->completed = true;
        ev("complete", i);
        p.h.resume();
        return true;
    }

    // ---- what is known about each coroutine
    enum { None, Running, Returned, Threw, ThrewAlloc, Destroyed };
    struct Node { int state = 0; int64_t value = 0; int finished = 0, delivered = 0; };
    constexpr int MaxNodes = 40;
    Node nodes[MaxNodes]; int nodeCount;
    void resetCoro()
    {
        for (auto& n : nodes) n = Node(); nodeCount = 0; pendingCount = 0; pThrow = 0; cell(0) = 0;
    }
    struct Guard // lives in the frame
    {
        int id; std::unique_ptr<int64_t> memory;
        explicit Guard(int i) : id(i), memory(new int64_t(i)) {}
        ~Guard()
        {
            SIM_CHECK(*memory == id, "frame", "the frame of coroutine %d is damaged", id);
            if (nodes[id].state == Running) nodes[id].state = Destroyed;
        }
    };
    void finish(int id, int state, int64_t v)
    {
        SIM_CHECK(++nodes[id].finished == 1, "twice", "coroutine %d finishes twice", id);
        nodes[id].state = state; nodes[id].value = v; ev("finish", id, state, v);
    }
    void deliver(int id, int state, int64_t v)
    {
        Node& n = nodes[id];
        SIM_CHECK(n.state >= Returned && n.state <= ThrewAlloc, "early", "the result of coroutine %d is delivered in state %d", id, n.state);
        SIM_CHECK(n.state == state, "outcome", "coroutine %d ended in state %d, state %d is delivered", id, n.state, state);
        SIM_CHECK(n.value == v, "outcome", "coroutine %d ended with %lld, %lld is delivered", id, (long long)n.value, (long long)v);
        SIM_CHECK(++n.delivered == 1, "twice", "the result of coroutine %d is delivered twice", id);
    }
}

// ---------------------------------------------------------------- C16
namespace
{
    template <class T> struct Val;
    template <> struct Val<Tracked> { static Tracked make(int64_t v) { return Tracked(v); } static int64_t get(const Tracked& t) { SIM_CHECK(t.is(t.v), "value", "the value is damaged"); return t.v; } };
    template <> struct Val<std::unique_ptr<int>> { static std::unique_ptr<int> make(int64_t v) { return std::make_unique<int>(int(v)); } static int64_t get(const std::unique_ptr<int>& p) { SIM_CHECK(p != nullptr, "value", "the value is gone"); return *p; } };
    template <> struct Val<int> { static int make(int64_t v) { return int(v); } static int64_t get(int v) { return v; } };

    using Any = std::variant<std::monostate, awl::ProcessTask<Tracked>, awl::ProcessTask<void>, awl::ProcessTask<std::unique_ptr<int>>, awl::ProcessTask<int>>;
    struct Child { int id = -1; Any task; };

    constexpr int Roots = 4;
    Child* theRoots;
    bool sharedRoots;                                // roots await other roots
    int rootDepth;

    template <class T> awl::ProcessTask<T> node(int id, int depth, Tracked parameter);
    // Assigns a task over what the child holds, which destroys it.
    void place(Child& c, Any&& task, int id)
    {
        int old = std::exchange(c.id, id);
        bool running = old >= 0 && nodes[old].state == Running;
        if (running) probe("a task assigned over a suspended one");
        c.task = std::move(task);
        if (running) SIM_CHECK(nodes[old].state == Destroyed, "not-destroyed", "the frame of coroutine %d is not destroyed although another task was assigned over its own", old);
    }
    // Starts a coroutine of a random kind.
    void spawn(Child& c, int depth)
    {
        int id = nodeCount++;
        SIM_CHECK(id < MaxNodes, "scenario", "too many nodes");
        Tracked p(id * 11);
        Any t;
        switch (W(4))
        {
        case 0: t = node<Tracked>(id, depth, std::move(p)); break;
        case 1: t = node<void>(id, depth, std::move(p)); break;
        case 2: t = node<std::unique_ptr<int>>(id, depth, std::move(p)); break;
        default: t = node<int>(id, depth, p); break;
        }
        SIM_CHECK(nodes[id].state != None, "lazy", "coroutine %d does not start when it is called", id);
        place(c, std::move(t), id);
    }
    void drop(Child& c)
    {
        if (c.id < 0) return;
        bool running = nodes[c.id].state == Running;
        c.task = std::monostate();
        if (running) { SIM_CHECK(nodes[c.id].state == Destroyed, "not-destroyed", "the frame of coroutine %d is not destroyed with its task", c.id); probe("suspended task destroyed"); }
        c.id = -1;
    }
    template <class T> bool isDone(const awl::ProcessTask<T>& t) { return t.m_h.done(); }
    bool done(const Child& c)
    {
        switch (c.task.index()) { case 1: return isDone(std::get<1>(c.task)); case 2: return isDone(std::get<2>(c.task)); case 3: return isDone(std::get<3>(c.task)); case 4: return isDone(std::get<4>(c.task)); }
        return true;
    }
    // Asks a task directly.
    template <class T> void ask(Child& c, awl::ProcessTask<T>& t)
    {
        int s = nodes[c.id].state; int64_t v = nodes[c.id].value;
        try
        {
            const bool failed = s == Threw || s == ThrewAlloc;
            // A task that has failed throws when it is asked whether it is ready or when it is asked for the value.
            bool r = failed && W(2) ? true : t.is_ready();
            SIM_CHECK(r == (s == Returned || failed), "ready", "coroutine %d in state %d says ready %d", c.id, s, int(r));
            if (failed) { t.get(); fail("outcome", "coroutine %d in state %d gives a value although it has failed", c.id, s); }
            if (r && !nodes[c.id].delivered) deliver(c.id, Returned, Val<T>::get(t.get()));
        }
        catch (const Err& e) { SIM_CHECK(s == Threw && e.code == v, "outcome", "coroutine %d in state %d throws %lld", c.id, s, (long long)e.code); }
        catch (const std::bad_alloc&) { SIM_CHECK(s == ThrewAlloc || s == Returned, "outcome", "coroutine %d in state %d throws bad_alloc", c.id, s); }
    }
    void ask(Child& c) { switch (c.task.index()) { case 1: ask(c, std::get<1>(c.task)); break; case 3: ask(c, std::get<3>(c.task)); break; case 4: ask(c, std::get<4>(c.task)); break; } }

    template <class T> awl::ProcessTask<T> node(int id, int depth, Tracked parameter)
    {
        nodes[id].state = Running;
        int64_t value = 0;
        try
        {
            Guard guard(id);
            std::array<Child, 2> kids;
            int aw = 0;
            for (uint32_t step = W(5); step; --step)
            {
                uint32_t what = W(8);
                Child& k = kids[W(2)];
                if (what <= 1) { Leaf leaf(1000 + id); co_await leaf; }
                else if (what == 2 && depth > 0 && nodeCount < MaxNodes - 4) { if (k.id >= 0 && W(2)) drop(k); spawn(k, depth - 1); }
                else if (what == 3) std::swap(kids[0], kids[1]);
                else if (what == 4) drop(k);
                else if (what == 5 && k.id >= 0 && !nodes[k.id].delivered) ask(k);
                else if (what == 6 && mayThrow()) throw Err{ 500 + id };
                else if (what == 7 && mayThrow()) throw std::bad_alloc();
                else
                {
                    // Waits for one of the children or for a root started earlier.
                    Child* c = nullptr;
                    if (k.id >= 0 && !nodes[k.id].delivered) c = &k;
                    else if (sharedRoots && depth == rootDepth)
                        for (int r = 0; r < Roots; ++r) if (theRoots[r].id >= 0 && theRoots[r].id < id && theRoots[r].id != 0 && nodes[theRoots[r].id].value != -77) c = &theRoots[r];
                    if (!c) continue;
                    int cid = c->id; size_t kind = c->task.index();
                    if (c != &k) { if (nodes[cid].delivered || nodes[cid].state != Running) continue; nodes[cid].value = -77; probe("task awaited by a coroutine that does not own it"); }
                    bool ownErr = W(2); int64_t code = 0; int how = Returned; int64_t got = 0;
                    try
                    {
                        if (kind == 1) { Tracked t = co_await std::get<1>(c->task); got = Val<Tracked>::get(t); }
                        else if (kind == 2) { co_await std::get<2>(c->task); }
                        else if (kind == 3) { std::unique_ptr<int> t = co_await std::get<3>(c->task); got = Val<std::unique_ptr<int>>::get(t); }
                        else { int t = co_await std::get<4>(c->task); got = t; }
                    }
                    catch (const Err& e) { how = Threw; code = e.code; }
                    catch (const std::bad_alloc&) { how = ThrewAlloc; }
                    deliver(cid, how, how == Returned ? got : how == Threw ? code : 0);
                    ++aw;
                    if (how != Returned && ownErr) { if (how == Threw) throw Err{ code }; throw std::bad_alloc(); }
                }
                SIM_CHECK(parameter.is(id * 11), "parameter", "the parameter of coroutine %d is damaged", id);
            }
            value = id * 100 + aw;
            if (std::is_void_v<T>) value = 0;
        }
        catch (const Err& e) { finish(id, Threw, e.code); throw; }
        catch (const std::bad_alloc&) { finish(id, ThrewAlloc, 0); throw; }
        if constexpr (std::is_void_v<T>) { finish(id, Returned, 0); co_return; }
        else
        {
            std::optional<T> r;
            try { r.emplace(Val<T>::make(value)); } catch (const std::bad_alloc&) { finish(id, ThrewAlloc, 0); throw; }
            finish(id, Returned, value);
            co_return std::move(*r);
        }
    }
}

SIM_SCENARIO(process_task)
{
    resetCoro();
    AllocFaults on(W(2));
    cfg().p_alloc = tune({ 0, 0, 0.01, 0.05 });
    pThrow = tune({ 0, 0.1, 0.4 });
    sharedRoots = W(4) == 0;
    bool destroys = !sharedRoots && W(2);
    {
        Child roots[Roots]; theRoots = roots;
        int depth = rootDepth = 1 + int(W(3));
        for (uint32_t steps = 1 + W(40); steps; --steps)
        {
            Child& r = roots[W(Roots)];
            switch (W(7))
            {
            case 0: case 1: if (r.id < 0 && nodeCount < MaxNodes - 8) { try { spawn(r, depth); } catch (const std::bad_alloc&) { probe("no memory for a frame"); } } break;
            case 2: if (destroys) drop(r); break;
            case 3: if (!sharedRoots) { Child& o = roots[W(Roots)]; if (&o != &r) { int id = std::exchange(r.id, -1); if (W(2)) drop(o); place(o, std::move(r.task), id); r.task = std::monostate(); } } break;
            case 4: if (r.id >= 0 && !sharedRoots) ask(r); break;
            default: completeOne(); break;
            }
        }
        if (W(4) != 0 || sharedRoots)
        {
            while (completeOne());
            for (Child& r : roots) if (r.id >= 0)
            {
                SIM_CHECK(done(r), "stuck", "all operations have completed, but coroutine %d has not finished", r.id);
                if (nodes[r.id].delivered == 0) ask(r);
            }
        }
        for (int i = Roots; i-- > 0;) drop(roots[i]);
        SIM_CHECK(pendingCount == 0, "frames", "%d frames are still suspended", pendingCount);
    }
    SIM_CHECK(cell(0) == 0, "values", "%lld values are alive", (long long)cell(0));
    uint64_t h = 0; for (int i = 0; i < nodeCount; ++i) h = h * 7 + uint64_t(nodes[i].state) * 2 + uint64_t(nodes[i].delivered);
    state(h);
}

// ---------------------------------------------------------------- C17
namespace
{
    struct UChild { int id = -1; bool detached = false; awl::UpdateTask task; };
    awl::UpdateTask unode(int id, int depth, Tracked parameter);
    bool uspawn(UChild& c, int depth)
    {
        int id = nodeCount++;
        SIM_CHECK(id < MaxNodes, "scenario", "too many nodes");
        try { c.task = unode(id, depth, Tracked(id * 11)); }
        catch (const std::bad_alloc&) { nodes[id].state = Destroyed; probe("no memory for a frame"); return false; }
        SIM_CHECK(nodes[id].state != None, "lazy", "coroutine %d does not start when it is called", id);
        c.id = id; c.detached = false;
        return true;
    }
    void udrop(UChild& c)
    {
        if (c.id < 0) return;
        bool running = nodes[c.id].state == Running;
        c.task = awl::UpdateTask();
        if (running) { SIM_CHECK(nodes[c.id].state == Destroyed, "not-destroyed", "the frame of coroutine %d is not destroyed with its task", c.id); probe("suspended task destroyed"); }
        c.id = -1;
    }
    void urelease(UChild& c)
    {
        if (c.id < 0) return;
        probe(nodes[c.id].state == Running ? "suspended task detached" : "finished task detached");
        c.task.release();
        SIM_CHECK(!c.task, "release", "a detached task is still owned");
        c.id = -1;
    }
    struct UOrphans { UChild* c[16]; int n = 0; };

    awl::UpdateTask unode(int id, int depth, Tracked parameter)
    {
        nodes[id].state = Running;
        {
            // bad_alloc would terminate: the bodies of update tasks must not throw
            int64_t memory = id;
            struct Mark { int id; int64_t& m; ~Mark() { SIM_CHECK(m == id, "frame", "the frame of coroutine %d is damaged", id); if (nodes[id].state == Running) nodes[id].state = Destroyed; } } mark{ id, memory };
            std::array<UChild, 2> kids;
            for (uint32_t step = W(6); step; --step)
            {
                uint32_t what = W(8);
                UChild& k = kids[W(2)];
                if (what <= 1) { AllocFaults off(false); std::optional<Leaf> leaf; leaf.emplace(); co_await *leaf; }
                else if (what == 2 && depth > 0 && nodeCount < MaxNodes - 4) { udrop(k); uspawn(k, depth - 1); }
                else if (what == 3) std::swap(kids[0], kids[1]);
                else if (what == 4) udrop(k);
                else if (what == 5) urelease(k);
                else if (k.id >= 0 && !nodes[k.id].delivered)
                {
                    int cid = k.id;
                    SIM_CHECK(k.task.done() == (nodes[cid].state == Returned), "done", "done() is wrong for coroutine %d", cid);
                    co_await k.task;
                    deliver(cid, Returned, 0);
                }
                SIM_CHECK(parameter.is(id * 11), "parameter", "the parameter of coroutine %d is damaged", id);
            }
            finish(id, Returned, 0);
        }
    }
    // Awaits a task that someone else holds and may detach or move meanwhile.
    awl::UpdateTask uawait(int id, UChild& c)
    {
        nodes[id].state = Running;
        int cid = c.id;
        co_await c.task;
        deliver(cid, Returned, 0);
        finish(id, Returned, 0);
    }
}

SIM_SCENARIO(update_task)
{
    resetCoro();
    bool destroys = W(2);
    double pa = tune({ 0, 0, 0.02, 0.1 });
    cfg().p_alloc = pa;
    bool faults = W(2);
    {
        UChild roots[Roots], waiters[Roots];
        bool awaited[Roots] = {};
        int depth = 1 + int(W(3));
        for (uint32_t steps = 1 + W(40); steps; --steps)
        {
            uint32_t n = W(Roots);
            UChild& r = roots[n];
            AllocFaults on(faults);
            switch (W(8))
            {
            case 0: case 1: if (r.id < 0 && !awaited[n] && nodeCount < MaxNodes - 8) uspawn(r, depth); break;
            case 2: if (destroys && !awaited[n]) udrop(r); break;
            case 3: if (!awaited[n]) { uint32_t m = W(Roots); if (m != n && !awaited[m]) { udrop(roots[m]); roots[m].task = std::move(r.task); roots[m].id = std::exchange(r.id, -1); } } break;
            case 4: urelease(r); break;
            case 5:
                if (r.id >= 0 && !awaited[n] && !nodes[r.id].delivered && nodeCount < MaxNodes - 8)
                {
                    int id = nodeCount++;
                    try { waiters[n].task = uawait(id, r); waiters[n].id = id; awaited[n] = true; probe("task awaited by a coroutine that does not own it"); }
                    catch (const std::bad_alloc&) {}
                }
                break;
            default: completeOne(); break;
            }
            for (int i = 0; i < Roots; ++i)
                if (awaited[i] && nodes[waiters[i].id].state == Returned) { udrop(roots[i]); if (W(2)) udrop(waiters[i]); else urelease(waiters[i]); awaited[i] = false; }
        }
        // Whatever was detached runs to its end by itself, everything else is freed by its owner: before or after its end.
        if (W(3) == 0) { for (int i = Roots; i-- > 0;) { if (!awaited[i]) udrop(roots[i]); } }
        while (completeOne());
        for (int i = 0; i < Roots; ++i)
        {
            if (roots[i].id >= 0) SIM_CHECK(roots[i].task.done() && nodes[roots[i].id].state == Returned, "stuck", "all operations have completed, but coroutine %d has not finished", roots[i].id);
            if (awaited[i]) SIM_CHECK(nodes[waiters[i].id].state == Returned, "stuck", "the awaiting coroutine %d was not resumed", waiters[i].id);
        }
        for (int i = 0; i < Roots; ++i) { if (W(2)) urelease(roots[i]); else udrop(roots[i]); udrop(waiters[i]); }
        SIM_CHECK(pendingCount == 0, "frames", "%d frames are still suspended", pendingCount);
        for (int i = 0; i < nodeCount; ++i) SIM_CHECK(nodes[i].state == Returned || nodes[i].state == Destroyed || nodes[i].state == None, "stuck", "coroutine %d ended in state %d", i, nodes[i].state);
    }
    SIM_CHECK(cell(0) == 0, "values", "%lld values are alive", (long long)cell(0));
    uint64_t h = 0; for (int i = 0; i < nodeCount; ++i) h = h * 7 + uint64_t(nodes[i].state) * 2 + uint64_t(nodes[i].delivered);
    state(h);
}

// ---------------------------------------------------------------- C18
namespace
{
    // What a generator will do is decided beforehand, so that the consumer knows what to expect.
    struct Plan
    {
        std::vector<int64_t> values; int64_t error = 0; // values, then an error or the end
    };
    constexpr int MaxGens = 16;
    struct GenInfo { std::vector<int64_t> produced; int64_t error = 0; bool ended = false, alive = false; };
    GenInfo* gens; int genCount;

    struct GenMark
    {
        int id; std::unique_ptr<int64_t> memory;
        explicit GenMark(int i) : id(i), memory(new int64_t(i)) { gens[id].alive = true; }
        ~GenMark() { SIM_CHECK(*memory == id, "frame", "the frame of generator %d is damaged", id); gens[id].alive = false; }
    };
    // Records the element before it is handed over.
    void produced(int id, int64_t v) { gens[id].produced.push_back(v); }
    Tracked fresh(int id) { Tracked t(id * 1000 + int64_t(gens[id].produced.size())); produced(id, t.v); return t; }

    awl::async_generator<Tracked> agen(int id, int depth, Tracked parameter)
    {
        GenInfo& me = gens[id];
        try
        {
            GenMark mark(id);
            std::optional<Leaf> leaf;
            for (uint32_t n = W(6); n; --n)
            {
                switch (W(7))
                {
                case 0: case 1: { Tracked t(id * 1000 + int64_t(me.produced.size())); produced(id, t.v); int64_t v = t.v; co_yield t; SIM_CHECK(t.is(v), "element", "the element was damaged"); break; }
                case 2: { co_yield fresh(id); break; }
                case 3: { leaf.emplace(2000 + id); co_await *leaf; break; }
                case 4: if (mayThrow()) throw Err{ 700 + id }; break;
                case 5:
                    if (depth > 0 && genCount < MaxGens - 3)
                    {
                        // mapped elements of another generator
                        int inner = genCount++;
                        auto g = agen(inner, depth - 1, Tracked(inner * 11));
                        size_t seen = 0; bool stop = false;
                        auto it = co_await g.begin();
                        while (it != g.end())
                        {
                            SIM_CHECK(seen < gens[inner].produced.size() && (*it).is(gens[inner].produced[seen]), "sequence", "inner generator %d: element %zu is %lld", inner, seen, (long long)(*it).v);
                            ++seen;
                            Tracked t((*it).v + 100000);
                            produced(id, t.v);
                            co_yield t;
                            if (W(6) == 0) { stop = true; break; }
                            co_await ++it;
                        }
                        SIM_CHECK(seen == gens[inner].produced.size(), "sequence", "inner generator %d: %zu of %zu elements", inner, seen, gens[inner].produced.size());
                        if (!stop) SIM_CHECK(gens[inner].ended && !gens[inner].error, "end", "inner generator %d has not ended", inner);
                    }
                    break;
                default: break;
                }
                SIM_CHECK(parameter.is(id * 11), "parameter", "the parameter of generator %d is damaged", id);
            }
        }
        catch (const Err& e) { me.error = e.code; me.ended = true; throw; }
        catch (const std::bad_alloc&) { me.error = -1; me.ended = true; throw; }
        me.ended = true;
    }

    // The consumer: ends at any point.
    awl::ProcessTask<int> consume(int id, int depth, int gen, bool moves)
    {
        nodes[id].state = Running;
        try
        {
            Guard guard(id);
            auto g = agen(gen, depth, Tracked(gen * 11));
            awl::async_generator<Tracked> other;
            SIM_CHECK(gens[gen].produced.empty() && !gens[gen].alive, "eager", "generator %d starts before it is asked", gen);
            size_t seen = 0; int64_t error = 0; bool stopped = false;
            std::optional<Leaf> leaf;
            bool bad = false;
            try
            {
                if (W(4) == 0) { auto e = co_await other.begin(); SIM_CHECK(e == other.end(), "empty", "an empty generator has elements"); }
                if (moves && W(2)) { swap(g, other); g.swap(other); }
                auto it = co_await g.begin();
                for (;;)
                {
                    awl::async_generator<Tracked>& now = moves && seen % 2 ? other : g;
                    if (it == now.end()) break;
                    SIM_CHECK(seen < gens[gen].produced.size() && (*it).is(gens[gen].produced[seen]), "sequence", "generator %d: element %zu is %lld", gen, seen, (long long)(*it).v);
                    ++seen;
                    SIM_CHECK(seen == gens[gen].produced.size(), "ahead", "generator %d ran ahead", gen);
                    ev("element", gen, (*it).v);
                    if (W(3) == 0) { leaf.emplace(3000 + id); co_await *leaf; }
                    if (W(10) == 0) { stopped = true; break; }
                    if (moves) { if (W(3) == 0) swap(g, other); else if (seen % 2) other = std::move(g); else { g = std::move(other); } }
                    if (W(20) == 0 && mayThrow()) throw Err{ 800 + id };
                    co_await ++it;
                }
            }
            catch (const Err& e) { error = e.code; }
            catch (const std::bad_alloc&) { error = -1; bad = true; }
            (void)bad;
            if (error == 800 + id || error == 3000 + id) stopped = true;
            if (error == -1 && gens[gen].error != -1) stopped = true; // its own
            if (!stopped)
            {
                SIM_CHECK(gens[gen].ended, "end", "generator %d has not ended", gen);
                SIM_CHECK(gens[gen].error == error, "error", "generator %d threw %lld, the consumer gets %lld", gen, (long long)gens[gen].error, (long long)error);
                if (error) probe("exception of a generator reaches the consumer");
                SIM_CHECK(seen == gens[gen].produced.size(), "sequence", "generator %d: %zu of %zu elements", gen, seen, gens[gen].produced.size());
            }
            else
            {
                if (!gens[gen].ended) probe("generator abandoned");
                awl::async_generator<Tracked> next;
                if (genCount < MaxGens - 3 && W(2)) { int n = genCount++; next = agen(n, 0, Tracked(n * 11)); probe("a generator assigned over a suspended one"); }
                g = std::move(next); other = awl::async_generator<Tracked>();
                SIM_CHECK(!gens[gen].alive, "not-destroyed", "the frame of generator %d is not destroyed", gen);
                auto e = co_await next.begin();
                SIM_CHECK(e == next.end(), "empty", "a generator that was moved from has elements");
            }
        }
        catch (const std::bad_alloc&) {}
        finish(id, Returned, 0);
        co_return 0;
    }
}

SIM_SCENARIO(async_generators)
{
    resetCoro();
    pThrow = tune({ 0, 0.1, 0.4 });
    cfg().p_alloc = tune({ 0, 0, 0.01, 0.05 });
    {
        std::array<GenInfo, MaxGens> info; gens = info.data(); genCount = 0;
        for (auto& g : info) g.produced.reserve(256);
        std::optional<awl::ProcessTask<int>> c[3]; int ids[3] = {};
        {
            AllocFaults on(W(2));
            for (uint32_t i = 0, n = 1 + W(3); i < n; ++i)
            {
                ids[i] = nodeCount++; int g = genCount++;
                try { c[i].emplace(consume(ids[i], int(W(3)), g, W(3) == 0)); } catch (const std::bad_alloc&) { nodes[ids[i]].state = Destroyed; }
            }
            uint32_t limit = W(4) == 0 ? W(12) : 1000;
            while (limit-- && completeOne()) if (W(16) == 0) { int k = int(W(3)); if (c[k]) { c[k].reset(); if (nodes[ids[k]].state == Destroyed) probe("destroyed while it is suspended"); } }
            if (limit == uint32_t(-1)) {}
            else for (int i = 0; i < 3; ++i) if (c[i]) SIM_CHECK(c[i]->m_h.done(), "stuck", "consumer %d has not finished", i);
        }
        for (auto& t : c) t.reset();
        SIM_CHECK(pendingCount == 0, "frames", "%d frames are still suspended", pendingCount);
        for (int i = 0; i < genCount; ++i) SIM_CHECK(!info[size_t(i)].alive, "not-destroyed", "the frame of generator %d is not destroyed", i);
        uint64_t h = 0; for (int i = 0; i < genCount; ++i) h = h * 31 + info[size_t(i)].produced.size() * 4 + uint64_t(info[size_t(i)].ended) * 2 + (info[size_t(i)].error != 0);
        state(h);
    }
    SIM_CHECK(cell(0) == 0, "values", "%lld values are alive", (long long)cell(0));
}

namespace
{
    awl::generator<Tracked> pgen(int id, int depth, Tracked parameter)
    {
        GenInfo& me = gens[id];
        try
        {
            GenMark mark(id);
            for (uint32_t n = W(6); n; --n)
            {
                switch (W(5))
                {
                case 0: { Tracked t(id * 1000 + int64_t(me.produced.size())); produced(id, t.v); int64_t v = t.v; co_yield t; SIM_CHECK(t.is(v), "element", "the element was damaged"); break; }
                case 1: { co_yield fresh(id); break; }
                case 2: if (mayThrow()) throw Err{ 700 + id }; break;
                case 3:
                    if (depth > 0 && genCount < MaxGens)
                    {
                        int inner = genCount++; size_t seen = 0;
                        for (auto& e : pgen(inner, depth - 1, Tracked(inner * 11)))
                        {
                            SIM_CHECK(seen < gens[inner].produced.size() && e.is(gens[inner].produced[seen]), "sequence", "inner generator %d: element %zu is %lld", inner, seen, (long long)e.v);
                            ++seen;
                            Tracked t(e.v + 100000); produced(id, t.v); co_yield t;
                        }
                        SIM_CHECK(seen == gens[inner].produced.size() && gens[inner].ended, "sequence", "inner generator %d: %zu of %zu elements", inner, seen, gens[inner].produced.size());
                    }
                    break;
                default: break;
                }
                SIM_CHECK(parameter.is(id * 11), "parameter", "the parameter of generator %d is damaged", id);
            }
        }
        catch (const Err& e) { me.error = e.code; me.ended = true; throw; }
        catch (const std::bad_alloc&) { me.error = -1; me.ended = true; throw; }
        me.ended = true;
    }
    struct Mapper
    {
        int64_t* memory; int64_t add;
        Mapper(int64_t a) : memory(new int64_t(a)), add(a) { ++cell(0); }
        Mapper(const Mapper& o) : memory(new int64_t(o.add)), add(o.add) { ++cell(0); }
        Mapper(Mapper&& o) noexcept : memory(std::exchange(o.memory, nullptr)), add(o.add) { ++cell(0); }
        ~Mapper() { delete memory; --cell(0); }
        Tracked operator()(Tracked& t) const { if (mayThrow()) throw Err{ 901 }; SIM_CHECK(memory && *memory == add, "mapper", "the mapping function is damaged"); return Tracked(t.v + add); }
    };
}

namespace
{
    // Elements are delivered by reference.
    template <class T> awl::generator<T> refs(std::vector<Tracked>& v, size_t fail)
    {
        Tracked mark(77);
        for (size_t i = 0; i < v.size(); ++i) { if (i == fail) throw Err{ 650 }; co_yield v[i]; SIM_CHECK(mark.is(77), "frame", "a frame is damaged"); }
        if (fail == v.size()) throw Err{ 650 };
    }
    template <class T> void consumeRefs()
    {
        std::vector<Tracked> v; size_t n = W(5); v.reserve(n);
        for (size_t i = 0; i < n; ++i) v.emplace_back(int64_t(i) * 5);
        size_t fail = W(2) ? W(uint32_t(n) + 1) : 99, seen = 0, stop = W(3) ? 99 : W(4); bool error = false;
        constexpr bool writes = !std::is_const_v<std::remove_reference_t<T>>;
        try
        {
            for (auto&& e : refs<T>(v, fail))
            {
                if (seen == stop) break;
                SIM_CHECK(seen < n && &e == &v[seen] && e.is(int64_t(seen) * 5), "sequence", "element %zu is %lld", seen, (long long)e.v);
                if constexpr (writes) e = Tracked(int64_t(seen) + 1000);
                ++seen;
            }
        }
        catch (const Err& e) { error = true; SIM_CHECK(e.code == 650 && fail <= n, "error", "an unexpected exception %lld", (long long)e.code); }
        size_t end = std::min({ n, fail, stop });
        SIM_CHECK(seen == end, "sequence", "%zu of %zu elements", seen, end);
        SIM_CHECK(error == (fail <= n && fail <= stop), "error", "the exception thrown after %zu elements of %zu is %sdelivered", fail, n, error ? "" : "not ");
        if (writes) for (size_t i = 0; i < n; ++i) SIM_CHECK(v[i].is(i < seen ? int64_t(i) + 1000 : int64_t(i) * 5), "element", "element %zu was changed to %lld", i, (long long)v[i].v);
    }
}

SIM_SCENARIO(generators)
{
    resetCoro();
    if (W(4) == 0)
    {
        switch (W(3)) { case 0: consumeRefs<Tracked&>(); break; case 1: consumeRefs<const Tracked>(); break; default: consumeRefs<Tracked>(); break; }
        SIM_CHECK(cell(0) == 0, "values", "%lld values are alive", (long long)cell(0));
        return;
    }
    pThrow = tune({ 0, 0.1, 0.4 });
    cfg().p_alloc = tune({ 0, 0, 0.01, 0.05 });
    {
        std::array<GenInfo, MaxGens> info; gens = info.data(); genCount = 0;
        for (auto& g : info) g.produced.reserve(256);
        AllocFaults on(W(2));
        for (uint32_t n = 1 + W(2); n && genCount < MaxGens; --n)
        {
            int id = genCount++; uint32_t maps = W(3); bool moves = W(3) == 0; size_t seen = 0; int64_t error = 0; bool stopped = false, started = false;
            try
            {
                awl::generator<Tracked> g = pgen(id, int(W(3)), Tracked(id * 11));
                started = true;
                SIM_CHECK(gens[id].produced.empty(), "eager", "generator %d starts before it is asked", id);
                for (uint32_t m = 0; m < maps; ++m) g = awl::fmap(Mapper(10000000), std::move(g));
                awl::generator<Tracked> other;
                SIM_CHECK(other.begin() == other.end(), "empty", "an empty generator has elements");
                auto it = g.begin();
                while (g.end() != it)
                {
                    SIM_CHECK(it != g.end() && !(it == g.end()) && !(g.end() == it), "end", "the comparisons of an iterator disagree");
                    SIM_CHECK(seen < gens[id].produced.size() && (*it).is(gens[id].produced[seen] + int64_t(maps) * 10000000) && it->v == (*it).v, "sequence", "generator %d: element %zu is %lld", id, seen, (long long)(*it).v);
                    ++seen; ev("element", id, (*it).v);
                    SIM_CHECK(seen == gens[id].produced.size(), "ahead", "generator %d ran ahead", id);
                    if (W(10) == 0) { stopped = true; break; }
                    if (moves) { if (W(2)) { swap(g, other); swap(other, g); } other = std::move(g); g.swap(other); awl::generator<Tracked> third(std::move(g)); g = std::move(third); }
                    if (W(2)) ++it; else it++;
                }
                if (!stopped) SIM_CHECK(gens[id].ended && !gens[id].error, "end", "generator %d has not ended", id);
                else
                {
                    if (!gens[id].ended) probe("generator abandoned");
                    awl::generator<Tracked> next;
                    if (genCount < MaxGens && W(2)) { int n2 = genCount++; next = pgen(n2, 0, Tracked(n2 * 11)); probe("a generator assigned over a suspended one"); }
                    g = std::move(next); other = awl::generator<Tracked>();
                    SIM_CHECK(!gens[id].alive, "not-destroyed", "the frame of generator %d is not destroyed", id);
                    SIM_CHECK(next.begin() == next.end(), "empty", "a generator that was moved from has elements");
                }
            }
            catch (const Err& e) { error = e.code; }
            catch (const std::bad_alloc&) { error = -1; }
            if (started && !stopped && error)
            {
                // the exception is the one of the generator, or of the mapping applied to the element just produced
                if (error != 901 && error != -1) { SIM_CHECK(gens[id].error == error, "error", "generator %d threw %lld, the consumer gets %lld", id, (long long)gens[id].error, (long long)error); SIM_CHECK(seen == gens[id].produced.size(), "sequence", "generator %d: %zu of %zu elements", id, seen, gens[id].produced.size()); probe("exception of a generator reaches the consumer"); }
            }
            if (started && !stopped && !error) SIM_CHECK(gens[id].error == 0 && seen == gens[id].produced.size(), "sequence", "generator %d: %zu of %zu elements", id, seen, gens[id].produced.size());
            SIM_CHECK(!gens[id].alive, "not-destroyed", "the frame of generator %d is not destroyed", id);
        }
        uint64_t h = 0; for (int i = 0; i < genCount; ++i) h = h * 31 + info[size_t(i)].produced.size() * 4 + uint64_t(info[size_t(i)].ended) * 2 + (info[size_t(i)].error != 0);
        state(h);
    }
    SIM_CHECK(cell(0) == 0, "values", "%lld values are alive", (long long)cell(0));
}

// ---------------------------------------------------------------- C19
namespace
{
    constexpr int MaxWaits = 64;
    struct Wait { int64_t start, due, dueMax, resumed; int count; }; // deadline between due and dueMax
    Wait waits[MaxWaits]; int waitCount; bool busy, overdue;

    struct Timed : awl::testing::TimeAwaitable
    {
        int id; int64_t d;
        Timed(awl::testing::TimeQueue& q, std::chrono::nanoseconds ns, int i) : TimeAwaitable(q, ns), id(i), d(ns.count()) {}
        void await_suspend(std::coroutine_handle<> h) { TimeAwaitable::await_suspend(h); waits[id].dueMax = int64_t(now_ns()) + d; }
    };

    // Several waits one after another, some of which start other timers.
    awl::ProcessTask<int> timers(awl::testing::TimeQueue& q, int depth)
    {
        std::array<std::optional<awl::ProcessTask<int>>, 2> kids;
        int sum = 0;
        for (uint32_t n = 1 + W(4); n; --n)
        {
            if (depth > 0 && W(3) == 0 && waitCount < MaxWaits - 24) { auto& k = kids[W(2)]; if (!k) k.emplace(timers(q, depth - 1)); }
            if (waitCount >= MaxWaits - 2) break;
            static const int64_t ms[] = { 0, 1, 2, 5, 10, 10, 20, 50, 100, 1000, 3600000, -5 };
            int64_t d = ms[W(12)] * 1'000'000;
            if (W(3) == 0) d += W(3) ? W(1'000'000) : W(1500);
            int id = waitCount++;
            waits[id] = Wait{ int64_t(now_ns()), int64_t(now_ns()) + d, int64_t(now_ns()) + d, -1, 0 };
            Timed wait(q, std::chrono::nanoseconds(d), id);
            co_await wait;
            int64_t now = int64_t(now_ns());
            SIM_CHECK(++waits[id].count == 1, "twice", "wait %d is resumed twice", id);
            SIM_CHECK(now >= waits[id].due, "early", "wait %d for %lld ns is resumed after %lld ns", id, (long long)d, (long long)(now - waits[id].start));
            waits[id].resumed = now;
            ev("resumed", id, now - waits[id].start);
            // nobody who has to come first is left behind
            for (int i = 0; i < waitCount; ++i)
                if (i != id && waits[i].count == 0 && d > 0 && waits[i].dueMax < waits[id].due) sim::fail("order", "wait %d is resumed before wait %d which is due %lld ns earlier", id, i, (long long)(waits[id].due - waits[i].due));
            if (busy && W(4) == 0) { advance(uint64_t(1 + W(40)) * 1'000'000); probe("resumed code takes time"); }
            else if (!busy && !overdue && d > 0) SIM_CHECK(now <= waits[id].due + 4'000'000, "late", "wait %d for %lld ns is resumed after %lld ns", id, (long long)d, (long long)(now - waits[id].start));
            ++sum;
        }
        for (auto& k : kids) if (k && W(2)) { sum += co_await *k; k.reset(); }
        // the ones that are not awaited are kept until they end
        for (auto& k : kids) if (k) { sum += co_await *k; }
        co_return sum;
    }
}

SIM_SCENARIO(time_queue)
{
    resetCoro();
    swarm_sched();
    waitCount = 0; busy = W(3) == 0;
    if (!busy) cfg().p_clock = 0;
    {
        awl::testing::TimeQueue q;
        q.loop();                                    // nothing to wait for: returns
        for (uint32_t rounds = 1 + W(2); rounds; --rounds)
        {
            std::vector<awl::ProcessTask<int>> tasks;
            for (uint32_t n = 1 + W(4); n; --n) { tasks.push_back(timers(q, int(W(3)))); if (W(3) == 0) advance(uint64_t(1 + W(9)) * 1'000'000); }
            if (W(3) == 0) { advance(uint64_t(1 + W(100)) * 1'000'000); } // several are overdue when the loop starts
            int64_t t0 = int64_t(now_ns());
            overdue = false;                         // several waits are overdue: they come late
            for (int i = 0; i < waitCount; ++i) if (waits[i].count == 0 && waits[i].due < t0) overdue = true;
            q.loop();
            for (auto& t : tasks) SIM_CHECK(t.m_h.done() && t.is_ready(), "stuck", "the loop ended although a timed coroutine has not finished");
            int64_t last = t0;
            for (int i = 0; i < waitCount; ++i) { SIM_CHECK(waits[i].count == 1, "lost", "wait %d was resumed %d times", i, waits[i].count); last = std::max(last, waits[i].due); }
            if (!busy) SIM_CHECK(int64_t(now_ns()) <= last + 100'000'000, "late", "the loop ends %lld ns after the last deadline", (long long)(int64_t(now_ns()) - last));
            if (waitCount > 40) break;
        }
    }
    uint64_t h = 0; for (int i = 0; i < waitCount; ++i) h = h * 31 + uint64_t((waits[i].resumed - waits[i].start) / 1000000);
    state(h);
}

// Timers of independent coroutines, some of which can not be set or end by an exception.
namespace timers2
{
    constexpr int64_t Slack = 4'000'000, Ms = 1'000'000;
    using awl::testing::TimeQueue;
    using awl::testing::TimeAwaitable;

    struct Timers;

    // A coroutine which runs on its own and destroys itself. Its exceptions are swallowed, or leave the loop which has resumed it.
    struct Detached
    {
        struct promise_type
        {
            bool escape, suspended = false;
            promise_type(Timers&, uint32_t, uint32_t, bool e) : escape(e) { ++cell(20); }
            promise_type(Timers&, uint32_t, uint32_t, bool e, std::coroutine_handle<>&) : escape(e) { ++cell(20); }
            ~promise_type() { --cell(20); }
            Detached get_return_object() { return {}; }
            std::suspend_never initial_suspend() noexcept { return {}; }
            std::suspend_never final_suspend() noexcept { return {}; }
            void return_void() {}
            void unhandled_exception();
        };
    };

    struct Timers
    {
        TimeQueue q;
        struct Wait { int64_t lower = 0, upper = 0; bool pending = false; int woken = 0; }; // the deadline is between lower and upper
        std::vector<Wait> waits;
        bool slow = false;
        int64_t lastWoken = 0;
        bool looping = false;
        int budget = 0, running = 0, thrown = 0, active = 0;
    };

    std::coroutine_handle<> escaped; // the one whose exception leaves the loop: it stays at its final suspend point
    void Detached::promise_type::unhandled_exception()
    {
        cell(21)++;
        if (escape && suspended) { escaped = std::coroutine_handle<promise_type>::from_promise(*this); throw; }
    }

    int64_t pickDelay() { static const int64_t d[] = { 0, -5, 1, 1000, Ms, 2 * Ms, 5 * Ms, 5 * Ms, 100 * Ms, 3600ll * 1000 * Ms }; return d[W(10)]; }

    // Observes the awaitable from both sides.
    struct Watched
    {
        Timers& t; size_t w; int64_t d; TimeAwaitable inner;
        Watched(Timers& tm, size_t i, int64_t delay) : t(tm), w(i), d(delay), inner(tm.q, std::chrono::nanoseconds(delay)) {}
        bool await_ready()
        {
            bool r = inner.await_ready();
            SIM_CHECK(r == (d <= 0), "ready", "a wait of %lld ns is %s at once", (long long)d, r ? "over" : "not over");
            return r;
        }
        void await_suspend(std::coroutine_handle<Detached::promise_type> h)
        {
            t.waits[w].lower = int64_t(now_ns()) + d;
            struct Disarm { ~Disarm() { fail_nth_alloc(0); } } disarm;
            fail_nth_alloc(choose_p(K_ALLOC, 2, 0.08));
            inner.await_suspend(h);
            t.waits[w].upper = int64_t(now_ns()) + d;
            t.waits[w].pending = true;
            h.promise().suspended = true;
            --t.active;
        }
        void await_resume() { inner.await_resume(); }
    };

    struct Bad { int n; };

    Detached sleeper(Timers& t, uint32_t count, uint32_t id, bool)
    {
        struct Alive { Timers& t; Alive(Timers& x) : t(x) { ++t.running; ++t.active; } ~Alive() { --t.running; --t.active; } } alive(t);
        std::string local = "local data of a coroutine which is longer than a short string " + std::to_string(id % 10);
        for (uint32_t i = 0; i < count; ++i)
        {
            int64_t d = pickDelay();
            size_t w = t.waits.size();
            t.waits.emplace_back();
            bool failed = false;
            uint32_t f0 = alloc_failures();
            try { co_await Watched(t, w, d); } catch (const std::bad_alloc&) { failed = true; }
            int64_t now = int64_t(now_ns());
            Timers::Wait x = t.waits[w];
            SIM_CHECK(++t.waits[w].woken == 1, "twice", "coroutine %u is resumed twice", id);
            if (failed)
            {
                SIM_CHECK(alloc_failures() != f0 && !x.pending, "exception", "an exception without a reason");
                SIM_CHECK(d > 0, "exception", "a wait which is over at once needs memory");
                probe("a timer can not be set");
            }
            else if (d <= 0) { SIM_CHECK(!x.pending, "ready", "a wait of %lld ns is not over at once", (long long)d); probe("no wait needed"); }
            else
            {
                t.waits[w].pending = false;
                ++t.active;
                SIM_CHECK(t.active == 1, "nested", "a coroutine is resumed while another one runs");
                SIM_CHECK(t.looping, "loop", "a timer fires outside of the loop");
                SIM_CHECK(now >= x.lower, "early", "coroutine %u is resumed %lld ns too early", id, (long long)(x.lower - now));
                if (!t.slow) SIM_CHECK(now <= std::max(x.upper, t.lastWoken) + Slack, "late", "coroutine %u is resumed %lld ns too late", id, (long long)(now - x.upper));
                for (size_t k = 0; k < t.waits.size(); ++k)
                    if (t.waits[k].pending) SIM_CHECK(t.waits[k].upper >= x.lower, "order", "the timer that is due at %lld is served before the timer that is due at %lld", (long long)x.lower, (long long)t.waits[k].upper);
                t.lastWoken = now;
                probe("timer fired");
            }
            SIM_CHECK(local.size() > 40 && local.back() == char('0' + id % 10), "data", "the data of a coroutine is wrong");
            ev("timer", id, i);
            if (t.budget > 0 && W(4) == 0)
            {
                --t.budget; probe("a coroutine starts another");
                int a = t.active; t.active = 0;
                sleeper(t, 1 + W(2), id * 10 + 1, W(2));
                t.active = a;
            }
            if (W(10) == 0) { count_fault(K_THROW); ++t.thrown; throw Bad{ 1 }; }
        }
    }
}

// Waits that never end do not keep the others from being served.
namespace timers2
{
    struct Kept { TimeAwaitable inner; std::coroutine_handle<>& h; bool await_ready() { return inner.await_ready(); } void await_suspend(std::coroutine_handle<> c) { h = c; inner.await_suspend(c); } void await_resume() { inner.await_resume(); } };
    Detached endless(Timers& t, uint32_t less, uint32_t, bool, std::coroutine_handle<>& h)
    {
        co_await Kept{ TimeAwaitable(t.q, std::chrono::nanoseconds::max() - std::chrono::nanoseconds(less)), h };
        sim::fail("early", "an endless wait is over");
    }
    struct Mark { TimeAwaitable inner; bool await_ready() { return inner.await_ready(); } void await_suspend(std::coroutine_handle<Detached::promise_type> c) { c.promise().suspended = true; inner.await_suspend(c); } void await_resume() { inner.await_resume(); } };
    Detached brief(Timers& t, uint32_t ms, uint32_t, bool last)
    {
        const int64_t from = int64_t(now_ns());
        co_await Mark{ TimeAwaitable(t.q, std::chrono::milliseconds(ms)) };
        SIM_CHECK(int64_t(now_ns()) - from >= int64_t(ms) * Ms, "early", "a wait of %u ms is over after %lld ns", ms, (long long)(int64_t(now_ns()) - from));
        --t.running;
        if (last) throw Bad{ 2 };
    }
}

SIM_SCENARIO(endless_timers)
{
    using namespace timers2;
    swarm_sched();
    cfg().p_alloc = 0;
    cell(20) = cell(21) = 0;
    std::vector<std::coroutine_handle<>> hs(1 + W(3));
    {
        Timers t;
        uint32_t e = 0;
        for (uint32_t n = W(4) + uint32_t(hs.size()); n; --n)
            if (e < hs.size() && W(2)) { endless(t, W(3), 0, false, hs[e]); ++e; }
            else { ++t.running; brief(t, 1 + W(5000), 0, false); }
        while (e < hs.size()) { endless(t, W(3), 0, false, hs[e]); ++e; }
        escaped = nullptr;
        bool thrown = false;
        // the only way out of the loop
        ++t.running; brief(t, 5001 + W(1000000), 0, true);
        try { t.q.loop(); } catch (const Bad&) { thrown = true; }
        SIM_CHECK(thrown && escaped, "exception", "the exception does not leave the loop");
        SIM_CHECK(t.running == 0, "lost", "%d waits were not served", t.running);
        escaped.destroy();
    }
    for (auto h : hs) h.destroy();
    SIM_CHECK(cell(20) == 0, "destroyed", "%lld coroutines are left", (long long)cell(20));
    probe("endless timers");
    state(hs.size());
}

SIM_SCENARIO(coroutine_timers)
{
    using namespace timers2;
    swarm_sched();
    cfg().p_alloc = 0;
    Timers t;
    t.slow = W(3) == 0;
    if (!t.slow) cfg().p_clock = 0;
    t.budget = int(W(4));
    cell(20) = cell(21) = 0;
    for (uint32_t round = 0, rounds = 1 + W(2); round < rounds; ++round)
    {
        t.looping = false;
        for (uint32_t i = 0, n = W(6); i < n; ++i) { sleeper(t, 1 + W(3), i, W(2)); t.active = 0; if (W(4) == 0) advance(uint64_t(W(200)) * Ms); }
        t.looping = true;
        t.lastWoken = int64_t(now_ns());
        for (;;)
        {
            escaped = nullptr;
            bool thrown = false;
            try { t.q.loop(); } catch (const Bad&) { thrown = true; }
            SIM_CHECK(thrown == bool(escaped), "exception", "the exception of a coroutine %s the loop", thrown ? "leaves" : "does not leave");
            if (!thrown) break;
            escaped.destroy();
            probe("an exception of a coroutine leaves the loop");
            if (W(2)) advance(uint64_t(W(200)) * Ms);
            t.lastWoken = int64_t(now_ns());
        }
        SIM_CHECK(t.running == 0, "lost", "%d coroutines are not resumed", t.running);
        for (auto& w : t.waits) SIM_CHECK(w.woken == 1 && !w.pending, "lost", "a timer did not fire");
        SIM_CHECK(cell(20) == 0 && cell(21) == t.thrown, "destroyed", "%lld coroutines are left", (long long)cell(20));
        int64_t n0 = int64_t(now_ns());
        t.q.loop();
        SIM_CHECK(t.slow || int64_t(now_ns()) - n0 < Slack, "empty", "an empty queue waits");
    }
    state(t.waits.size() * 31 + uint64_t(t.thrown));
}
