// C27: intrusive lists.
#include "common.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include "Awl/StaticChain.h"
#include <memory>
#include <vector>
#include <algorithm>
#include <optional>

using namespace sim;

namespace
{
    AWL_DECLARE_QUICK_LINK(FirstLink)
    AWL_DECLARE_MOVABLE_LINK(SecondLink)
    struct ThirdLink : public awl::base_single_link<ThirdLink> { using awl::base_single_link<ThirdLink>::base_single_link; };

    struct Pad { int64_t pad = 5; virtual ~Pad() = default; };

    // In up to three lists at the same time.
    struct Elem : Pad, FirstLink, SecondLink, ThirdLink
    {
        int id;
        int64_t guard = 77;
        explicit Elem(int i) : id(i) {}
        Elem(Elem&& o) : Pad(), FirstLink(), SecondLink(std::move(static_cast<SecondLink&>(o))), ThirdLink(), id(o.id) { o.id = -1; }
        Elem& operator = (Elem&& o) { SecondLink::operator = (std::move(static_cast<SecondLink&>(o))); id = o.id; o.id = -1; return *this; }
    };

    using A = awl::quick_list<Elem, FirstLink>;
    using B = awl::quick_list<Elem, SecondLink>;
    using S = awl::single_list<Elem, ThirdLink>;
    using Ids = std::vector<int>;

    template <class L> void checkList(L& l, const Ids& m, const char* name)
    {
        const L& c = l;
        SIM_CHECK(l.size() == m.size(), "size", "%s: the size is %zu instead of %zu", name, l.size(), m.size());
        SIM_CHECK(c.empty() == m.empty() && c.contains_one() == (m.size() == 1) && c.empty_or_contains_one() == (m.size() <= 1), "size", "%s: empty or contains_one is wrong for %zu elements", name, m.size());
        size_t n = 0;
        for (Elem* e : l) { SIM_CHECK(n < m.size() && e->id == m[n] && e->guard == 77 && e->pad == 5, "order", "%s: element %zu is %d", name, n, e->id); ++n; }
        SIM_CHECK(n == m.size(), "order", "%s: %zu elements are iterated instead of %zu", name, n, m.size());
        n = 0;
        for (auto i = c.begin(); i != c.end(); i++) { SIM_CHECK(n < m.size() && i->id == m[n], "order", "%s: constant element %zu is %d", name, n, i->id); ++n; }
        SIM_CHECK(n == m.size(), "order", "%s: %zu constant elements", name, n);
        if (!m.empty()) SIM_CHECK(l.front()->id == m.front() && c.front()->id == m.front(), "order", "%s: the front is %d", name, l.front()->id);
    }
    template <class L> void checkDouble(L& l, const Ids& m, const char* name)
    {
        checkList(l, m, name);
        const L& c = l;
        size_t n = m.size();
        for (auto i = l.rbegin(); i != l.rend(); ++i) { SIM_CHECK(n > 0 && i->id == m[n - 1], "backward", "%s: backward element %zu is %d", name, n, i->id); --n; }
        SIM_CHECK(n == 0, "backward", "%s: backward iteration ends with %zu elements left", name, n);
        n = m.size();
        for (auto i = c.rbegin(); i != c.rend(); i++) { SIM_CHECK(n > 0 && (*i)->id == m[n - 1], "backward", "%s: constant backward element %zu is %d", name, n, i->id); --n; }
        SIM_CHECK(n == 0, "backward", "%s: constant backward iteration ends with %zu elements left", name, n);
        auto i = l.end();
        for (n = m.size(); n; --n) { if (n % 2) --i; else i--; SIM_CHECK(i->id == m[n - 1], "backward", "%s: stepping back to %zu gives %d", name, n, i->id); }
        SIM_CHECK(i == l.begin(), "backward", "%s: stepping back does not end at the begin", name);
        if (!m.empty()) SIM_CHECK(l.back()->id == m.back() && c.back()->id == m.back(), "order", "%s: the back is %d", name, l.back()->id);
    }

    enum Where { None, Stale = -2 }; // Stale: the link was in a list that was cleared

    template <class L, class Link, bool Movable> struct Lists
    {
        const char* name;
        std::vector<std::unique_ptr<L>> lists;
        std::vector<Ids> model;
        Lists(const char* n) : name(n) { for (int i = 0; i < 3; ++i) { lists.push_back(std::make_unique<L>()); model.emplace_back(); } }
        int find(int id, size_t& at) const { for (size_t k = 0; k < model.size(); ++k) for (size_t j = 0; j < model[k].size(); ++j) if (model[k][j] == id) { at = j; return int(k); } return -1; }
        void check() { for (size_t k = 0; k < lists.size(); ++k) checkDouble(*lists[k], model[k], name); }
        void leave(Elem& e, bool stale)
        {
            size_t at; int k = find(e.id, at);
            Link& l = e;
            if (k >= 0)
            {
                SIM_CHECK(l.included(), "included", "%s: an element of a list is not included", name);
                switch (W(4))
                {
                case 0: l.exclude(); break;
                case 1: l.safe_exclude(); break;
                case 2: L::erase(&e); break;
                default: { auto i = lists[size_t(k)]->begin(); for (size_t n = 0; n < at; ++n) ++i; L::erase(i); }
                }
                model[size_t(k)].erase(model[size_t(k)].begin() + std::ptrdiff_t(at));
                SIM_CHECK(!l.included(), "included", "%s: an excluded element is included", name);
            }
            else if (!stale) { l.safe_exclude(); SIM_CHECK(!l.included(), "included", "%s: an element of no list is included", name); }
        }
        // an element that is in no list
        void add(Elem& e)
        {
            size_t k = W(3); L& l = *lists[k]; Ids& m = model[k];
            switch (W(6))
            {
            case 0: l.push_back(&e); m.push_back(e.id); break;
            case 1: l.push_front(&e); m.insert(m.begin(), e.id); break;
            case 2: // behind the element in forward direction
            case 3: // behind the element in backward direction
            {
                if (m.empty()) { l.push_back(&e); m.push_back(e.id); break; }
                size_t at = W(uint32_t(m.size()));
                if (W(2)) { auto i = l.begin(); for (size_t n = 0; n < at; ++n) ++i; L::insert(i, &e); m.insert(m.begin() + std::ptrdiff_t(at) + 1, e.id); }
                else { auto i = l.rbegin(); for (size_t n = 0; n < m.size() - 1 - at; ++n) ++i; L::insert(i, &e); m.insert(m.begin() + std::ptrdiff_t(at), e.id); }
                break;
            }
            case 4:
            {
                if (m.empty()) { l.push_front(&e); m.push_back(e.id); break; }
                size_t at = W(uint32_t(m.size()));
                auto i = l.begin(); for (size_t n = 0; n < at; ++n) i++;
                Link& o = **i;
                if (W(2)) { o.insert_after(&e); m.insert(m.begin() + std::ptrdiff_t(at) + 1, e.id); }
                else { o.insert_before(&e); m.insert(m.begin() + std::ptrdiff_t(at), e.id); }
                break;
            }
            default: l.push_back(&e); m.push_back(e.id);
            }
            SIM_CHECK(static_cast<Link&>(e).included(), "included", "%s: an inserted element is not included", name);
        }
    };
}

static void intrusiveRun()
{
    Lists<A, FirstLink, false> a("quick_list");
    Lists<B, SecondLink, true> b("list of movable elements");
    auto s = std::make_unique<S>(); Ids sm;
    std::vector<std::unique_ptr<Elem>> elems;
    std::vector<uint8_t> staleA, staleB;
    int next = 1;
    uint32_t nsteps = 10 + W(80);
    for (uint32_t step = 0; step < nsteps; ++step)
    {
        uint32_t what = W(16);
        if (what <= 4 || elems.empty())
        {
            if (elems.size() > 14) continue;
            elems.push_back(std::make_unique<Elem>(next++)); staleA.push_back(0); staleB.push_back(0);
            Elem& e = *elems.back();
            SIM_CHECK(!static_cast<FirstLink&>(e).included() && !static_cast<SecondLink&>(e).included() && !static_cast<ThirdLink&>(e).included(), "included", "a new element is included");
            if (W(4)) a.add(e);
            if (W(4)) b.add(e);
            if (W(3) == 0) { s->push_front(&e); sm.insert(sm.begin(), e.id); }
            ev("new", e.id);
        }
        else if (what <= 6)
        {
            // out of one list and maybe into another one
            size_t n = W(uint32_t(elems.size())); Elem& e = *elems[n];
            if (W(2)) { a.leave(e, staleA[n]); if (!staleA[n] || W(2)) { if (W(3)) { a.add(e); staleA[n] = 0; } } }
            else { b.leave(e, staleB[n]); if (!staleB[n] || W(2)) { if (W(3)) { b.add(e); staleB[n] = 0; } } }
            ev("relink", e.id);
        }
        else if (what == 7)
        {
            // destroyed; it leaves its lists before
            size_t n = W(uint32_t(elems.size())); Elem& e = *elems[n];
            if (std::count(sm.begin(), sm.end(), e.id)) continue;
            a.leave(e, staleA[n]); b.leave(e, staleB[n]);
            ev("destroy", e.id);
            elems.erase(elems.begin() + std::ptrdiff_t(n)); staleA.erase(staleA.begin() + std::ptrdiff_t(n)); staleB.erase(staleB.begin() + std::ptrdiff_t(n));
        }
        else if (what <= 9)
        {
            // pop
            auto pop = [&](auto& x, std::vector<uint8_t>&)
            {
                size_t k = W(3);
                if (x.model[k].empty()) return;
                if (W(2)) { Elem* e = x.lists[k]->pop_front(); SIM_CHECK(e->id == x.model[k].front(), "pop", "pop_front gives %d", e->id); x.model[k].erase(x.model[k].begin()); }
                else { Elem* e = x.lists[k]->pop_back(); SIM_CHECK(e->id == x.model[k].back(), "pop", "pop_back gives %d", e->id); x.model[k].pop_back(); }
                ev("pop", int64_t(k));
            };
            if (W(2)) pop(a, staleA); else pop(b, staleB);
            if (W(3) == 0 && !sm.empty()) { Elem* e = s->pop_front(); SIM_CHECK(e->id == sm.front() && !static_cast<ThirdLink&>(*e).included(), "pop", "pop_front of a single list gives %d", e->id); sm.erase(sm.begin()); }
        }
        else if (what <= 11)
        {
            // one list into another one
            auto splice = [&](auto& x)
            {
                size_t k = W(3), j = (k + 1 + W(2)) % 3;
                Ids& to = x.model[k]; Ids& from = x.model[j];
                if (W(2)) { x.lists[k]->push_back(*x.lists[j]); to.insert(to.end(), from.begin(), from.end()); }
                else { x.lists[k]->push_front(*x.lists[j]); to.insert(to.begin(), from.begin(), from.end()); }
                if (!from.empty()) probe("spliced");
                from.clear();
                ev("splice", int64_t(k), int64_t(j));
            };
            if (W(2)) splice(a); else splice(b);
        }
        else if (what == 12)
        {
            auto move = [&](auto& x)
            {
                size_t k = W(3), j = (k + 1 + W(2)) % 3;
                using L = std::decay_t<decltype(*x.lists[0])>;
                if (W(2)) // construction
                {
                    auto n = std::make_unique<L>(std::move(*x.lists[k]));
                    checkDouble(*x.lists[k], Ids(), "a moved list");
                    x.lists[k] = std::move(n);
                }
                else if (x.model[k].empty()) { *x.lists[k] = std::move(*x.lists[j]); x.model[k] = x.model[j]; x.model[j].clear(); }
                else { auto& self = *x.lists[k]; *x.lists[k] = std::move(self); }
                probe("list moved");
                ev("move list", int64_t(k));
            };
            if (W(2)) move(a); else move(b);
        }
        else if (what <= 14)
        {
            // a movable element takes its place in the list with it
            size_t n = W(uint32_t(elems.size())); Elem& e = *elems[n];
            if (staleB[n] || std::count(sm.begin(), sm.end(), e.id)) continue;
            a.leave(e, staleA[n]);
            int id = e.id;
            if (W(2))
            {
                auto m = std::make_unique<Elem>(std::move(e));
                SIM_CHECK(!static_cast<SecondLink&>(e).included(), "moved", "a moved element is still included");
                elems[n] = std::move(m); staleA[n] = 0;
                probe("element moved");
            }
            else
            {
                size_t o = W(uint32_t(elems.size()));
                if (o == n || staleB[o] || std::count(sm.begin(), sm.end(), elems[o]->id)) continue;
                a.leave(*elems[o], staleA[o]); staleA[n] = staleA[o];
                // the element assigned to leaves its list
                size_t at; int k = b.find(elems[o]->id, at);
                if (k >= 0) b.model[size_t(k)].erase(b.model[size_t(k)].begin() + std::ptrdiff_t(at));
                *elems[o] = std::move(e);
                SIM_CHECK(!static_cast<SecondLink&>(e).included(), "moved", "a moved element is still included");
                elems[n] = std::move(elems[o]);
                elems.erase(elems.begin() + std::ptrdiff_t(o)); staleA.erase(staleA.begin() + std::ptrdiff_t(o)); staleB.erase(staleB.begin() + std::ptrdiff_t(o));
                probe("element assigned");
            }
            ev("move element", id);
        }
        else
        {
            auto clear = [&](auto& x, std::vector<uint8_t>& stale)
            {
                size_t k = W(3);
                for (size_t n = 0; n < elems.size(); ++n) if (std::count(x.model[k].begin(), x.model[k].end(), elems[n]->id)) stale[n] = 1;
                x.lists[k]->clear(); x.model[k].clear();
                probe("cleared"); ev("clear", int64_t(k));
            };
            if (W(3) == 0) { s->clear(); sm.clear(); }
            else if (W(2)) clear(a, staleA); else clear(b, staleB);
        }
        a.check(); b.check(); checkList(*s, sm, "single_list");
        for (size_t n = 0; n < elems.size(); ++n)
        {
            size_t at;
            if (!staleA[n]) SIM_CHECK(static_cast<FirstLink&>(*elems[n]).included() == (a.find(elems[n]->id, at) >= 0), "included", "included of element %d is wrong", elems[n]->id);
            if (!staleB[n])
            {
                int k = b.find(elems[n]->id, at);
                SecondLink& l = *elems[n];
                SIM_CHECK(l.included() == (k >= 0), "included", "included of movable element %d is wrong", elems[n]->id);
                if (k >= 0 && at + 1 < b.model[size_t(k)].size()) SIM_CHECK(static_cast<Elem*>(l.successor())->id == b.model[size_t(k)][at + 1], "neighbour", "the successor is wrong");
                if (k >= 0 && at > 0) SIM_CHECK(static_cast<Elem*>(l.predecessor())->id == b.model[size_t(k)][at - 1], "neighbour", "the predecessor is wrong");
            }
        }
        state(scn::mixup(a.model[0].size() * 900 + a.model[1].size() * 30 + a.model[2].size()) ^ scn::mixup(b.model[0].size() * 900 + b.model[1].size() * 30 + b.model[2].size() + 77) ^ what);
    }
    // a list made of elements
    Elem x(1000), y(1001), z(1002);
    { A l{ &x, &y, &z }; checkDouble(l, Ids{ 1000, 1001, 1002 }, "initializer list"); l.clear(); checkDouble(l, Ids(), "cleared list"); }
}


// Elements that live in vectors, take their place in a list with them and leave it when they are destroyed.
namespace
{
    struct Mov : SecondLink
    {
        int id;
        std::unique_ptr<int> extra;
        explicit Mov(int i) : id(i), extra(std::make_unique<int>(i)) { if (chance(K_THROW, throwRate)) { count_fault(K_THROW); throw 5; } }
        Mov(Mov&&) = default;
        Mov& operator = (Mov&&) = default;
        ~Mov() { safe_exclude(); }
        static double throwRate;
    };
    double Mov::throwRate;
    using M = awl::quick_list<Mov, SecondLink>;
}

static void movedRun()
{
    Mov::throwRate = tune({ 0, 0.05, 0.3 });
    cfg().p_alloc = tune({ 0, 0.05, 0.3 });
    M l; Ids lm;                    // in order of the list
    std::vector<Mov> v[2]; Ids vm[2];
    lm.reserve(200); vm[0].reserve(200); vm[1].reserve(200);
    int next = 1; uint32_t nsteps = 10 + W(60);
    auto check = [&]
    {
        size_t n = 0;
        for (Mov* m : l) { SIM_CHECK(n < lm.size() && m->id == lm[n] && *m->extra == m->id, "order", "element %zu of the list is %d", n, m->id); ++n; }
        SIM_CHECK(n == lm.size(), "order", "the list has %zu elements instead of %zu", n, lm.size());
        for (auto i = l.rbegin(); i != l.rend(); ++i) { SIM_CHECK(n > 0 && i->id == lm[n - 1], "backward", "backward element %zu is %d", n, i->id); --n; }
        SIM_CHECK(n == 0, "backward", "backward iteration ends early");
        for (int k = 0; k < 2; ++k)
        {
            SIM_CHECK(v[k].size() == vm[k].size(), "vector", "the vector has %zu elements instead of %zu", v[k].size(), vm[k].size());
            for (size_t i = 0; i < v[k].size(); ++i) SIM_CHECK(v[k][i].id == vm[k][i] && v[k][i].included() == (std::count(lm.begin(), lm.end(), vm[k][i]) != 0), "included", "element %d of the vector", v[k][i].id);
        }
    };
    auto gone = [&](int id) { auto i = std::find(lm.begin(), lm.end(), id); if (i != lm.end()) lm.erase(i); };
    for (uint32_t step = 0; step < nsteps; ++step)
    {
        int k = int(W(2)); auto& x = v[k]; Ids& xm = vm[k];
        uint32_t what = W(10);
        bool thrown = false;
        try
        {
            AllocFaults af;
            switch (what)
            {
            case 0: case 1: case 2:
            {
                int id = next++;
                x.emplace_back(id); xm.push_back(id);
                switch (W(3)) { case 0: l.push_back(&x.back()); lm.push_back(id); break; case 1: l.push_front(&x.back()); lm.insert(lm.begin(), id); break; default:; }
                break;
            }
            case 3: { size_t at = W(uint32_t(x.size()) + 1); int id = next++; Mov m(id); if (W(2)) { l.push_front(&m); lm.insert(lm.begin(), id); } try { x.insert(x.begin() + std::ptrdiff_t(at), std::move(m)); } catch (...) { gone(id); throw; } xm.insert(xm.begin() + std::ptrdiff_t(at), id); break; }
            case 4: if (!x.empty()) { size_t at = W(uint32_t(x.size())); gone(xm[at]); x.erase(x.begin() + std::ptrdiff_t(at)); xm.erase(xm.begin() + std::ptrdiff_t(at)); } break;
            case 5: if (x.size() > 1) { size_t i = W(uint32_t(x.size())), j = W(uint32_t(x.size())); if (i != j) { std::swap(x[i], x[j]); std::swap(xm[i], xm[j]); } } break;
            case 6: if (!x.empty()) { size_t at = W(uint32_t(x.size())); std::rotate(x.begin(), x.begin() + std::ptrdiff_t(at), x.end()); std::rotate(xm.begin(), xm.begin() + std::ptrdiff_t(at), xm.end()); } break;
            case 7: x.shrink_to_fit(); break;
            case 8: if (W(2)) std::swap(v[0], v[1]), std::swap(vm[0], vm[1]); else { for (int id : xm) gone(id); x.clear(); xm.clear(); } break;
            case 9: { M n(std::move(l)); SIM_CHECK(l.empty(), "moved", "a moved list is not empty"); l = std::move(n); break; }
            }
        }
        catch (int) { thrown = true; probe("an element throws"); }
        catch (const std::bad_alloc&) { thrown = true; probe("no memory"); }
        ev("op", what, thrown, int64_t(lm.size()));
        check();
        state(scn::mixup(lm.size() * 1000 + vm[0].size() * 40 + vm[1].size()) ^ what ^ uint64_t(thrown) << 20);
    }
}

SIM_SCENARIO(intrusive_lists) { intrusiveRun(); movedRun(); }
