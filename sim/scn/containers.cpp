// C20 indexed set, C21 ring, C22 notification, C23 mirrored and projected sets, C24 object pool, C26 scope guards.
#include "common.h"
#include "Awl/VectorSet.h"
#include "Awl/Ring.h"
#include "Awl/Observable.h"
#include "Awl/ObservableSet.h"
#include "Awl/MirrorSet.h"
#include "Awl/ForeignSet.h"
#include "Awl/ObjectPool.h"
#include "Awl/UniquePtr.h"
#include "Awl/ScopeGuard.h"
#include <set>
#include <deque>
#include <memory>
#include <optional>
#include <functional>
#include <algorithm>
#include <list>

using namespace sim;

namespace
{
    // ---- failures of user code: the n-th point of the current operation throws
    struct Err { int where; };
    int throwAt;
    double pThrow, pAlloc;
    void point(int where) { if (throwAt > 0 && --throwAt == 0) { count_fault(K_THROW); throw Err{ where }; } }

    // Arms the failures of one operation.
    struct Armed
    {
        bool faults;
        uint32_t failedBefore;
        std::optional<AllocFaults> scope;
        explicit Armed(bool on = true, uint32_t range = 8) : faults(on), failedBefore(alloc_failures())
        {
            throwAt = 0;
            if (on && pThrow > 0) throwAt = int(choose_p(K_THROW, range + 1, pThrow));
            if (on && pAlloc > 0) { scope.emplace(true); fail_nth_alloc(choose_p(K_ALLOC, 4, pAlloc)); }
        }
        void off() { fail_nth_alloc(0); throwAt = 0; scope.reset(); }
        ~Armed() { off(); }
        bool failed() const { return alloc_failures() != failedBefore; }
    };

    constexpr uint32_t Alive = 0x600DBEEF, Dead = 0xDEADDEAD;

    // Counts the living ones in cell(0).
    template <bool NoexceptMove, bool Copyable> struct Element
    {
        uint32_t magic; int key; int id;
        Element(int k, int i) : magic(0), key(k), id(i) { point(1); magic = Alive; ++cell(0); }
        explicit Element(int k) : Element(k, k) {}
        Element(const Element& o) requires Copyable : magic(0), key(o.key), id(o.id) { o.check(); point(2); magic = Alive; ++cell(0); }
        Element(Element&& o) noexcept(NoexceptMove) : magic(0)
        {
            o.check();
            if constexpr (!NoexceptMove) point(3);
            key = o.key; id = o.id; o.id = -1; magic = Alive; ++cell(0);
        }
        Element& operator=(const Element& o) requires Copyable { check(); o.check(); point(4); key = o.key; id = o.id; return *this; }
        Element& operator=(Element&& o) noexcept(NoexceptMove)
        {
            check(); o.check();
            if constexpr (!NoexceptMove) point(5);
            key = o.key; id = o.id; if (&o != this) o.id = -1; return *this;
        }
        ~Element() { check(); magic = Dead; --cell(0); }
        void check() const { SIM_CHECK(magic == Alive, magic == Dead ? "destroyed" : "uninitialised", "an element that %s is used", magic == Dead ? "has been destroyed" : "has not been constructed"); }
        bool operator==(const Element& o) const { check(); o.check(); return key == o.key && id == o.id; }
    };
    using El = Element<true, true>;
    using ElT = Element<false, true>;
    using ElM = Element<true, false>;
    using ElMT = Element<false, false>;

    // Checks that memory is returned to an allocator equal to the one that gave it, with the same count.
    template <class T> struct Alloc
    {
        using value_type = T;
        int id = 0;
        Alloc(int i = 0) : id(i) {}
        template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
        T* allocate(size_t n)
        {
            char* p = static_cast<char*>(::operator new(n * sizeof(T) + 16));
            reinterpret_cast<int64_t*>(p)[0] = 7000 + id; reinterpret_cast<int64_t*>(p)[1] = int64_t(n);
            return reinterpret_cast<T*>(p + 16);
        }
        void deallocate(T* t, size_t n)
        {
            char* p = reinterpret_cast<char*>(t) - 16;
            SIM_CHECK(reinterpret_cast<int64_t*>(p)[0] == 7000 + id, "allocator", "memory is returned to another allocator than the one that gave it");
            SIM_CHECK(reinterpret_cast<int64_t*>(p)[1] == int64_t(n), "allocator", "memory for %lld elements is returned as memory for %zu", (long long)reinterpret_cast<int64_t*>(p)[1], n);
            ::operator delete(p);
        }
        bool operator==(const Alloc& o) const { return id == o.id; }
    };

    int64_t comparisons;
    struct Less
    {
        using is_transparent = void;
        int dir = 0;
        bool less(int a, int b) const { ++comparisons; point(6); return dir ? b < a : a < b; }
        template <class E> static int key(const E& e) { if constexpr (std::is_same_v<E, int>) return e; else { e.check(); return e.key; } }
        template <class A, class B> bool operator()(const A& a, const B& b) const { return less(key(a), key(b)); }
    };

    void setup()
    {
        pThrow = tune({ 0, 0, 0.1, 0.3 }); pAlloc = tune({ 0, 0, 0.1, 0.3 });
        throwAt = 0; comparisons = 0;
    }
}

// ------------------------------------------------------------------------------------------------ C20
namespace
{
    struct KI { int key, id; bool operator==(const KI&) const = default; };
    // The tree as the pinned commit builds it. It does not restore the balance when a black node without children is
    // erased and takes the colour of another node in some other cases (a known finding that VectorSetInternal_Test fixes
    // in its expectations), so lookups in a set whose elements were erased may take more comparisons than a balanced tree
    // needs, but not more than in this one.
    struct RefTree
    {
        struct N { int key; int l = -1, r = -1, p = -1; bool red = true; };
        std::vector<N> n; int root = -1; bool dir = false; bool erased = false;
        bool before(int a, int b) const { return dir ? b < a : a < b; }
        void clear() { n.clear(); root = -1; erased = false; }
        bool red(int x) const { return x >= 0 && n[size_t(x)].red; }
        N& at(int x) { return n[size_t(x)]; }
        void replaceInParent(int x, int y)
        {
            int p = at(x).p;
            if (p < 0) root = y; else if (at(p).l == x) at(p).l = y; else at(p).r = y;
        }
        void rotate(int x, bool left)
        {
            int y = left ? at(x).r : at(x).l; int b = left ? at(y).l : at(y).r;
            (left ? at(x).r : at(x).l) = b; if (b >= 0) at(b).p = x;
            replaceInParent(x, y); at(y).p = at(x).p;
            (left ? at(y).l : at(y).r) = x; at(x).p = y;
        }
        void insert(int k)
        {
            if (root < 0) clear();
            int p = -1; bool l = false;
            for (int x = root; x >= 0; x = l ? at(x).l : at(x).r) { p = x; l = before(k, at(x).key); }
            int x = int(n.size()); n.push_back({ k }); at(x).p = p;
            if (p < 0) root = x; else (l ? at(p).l : at(p).r) = x;
            while (x != root && red(at(x).p))
            {
                p = at(x).p; int g = at(p).p; bool left = at(g).l == p; int u = left ? at(g).r : at(g).l;
                if (red(u)) { at(p).red = at(u).red = false; at(g).red = true; x = g; continue; }
                if (x == (left ? at(p).r : at(p).l)) { x = p; rotate(x, left); p = at(x).p; g = at(p).p; }
                at(p).red = false; at(g).red = true; rotate(g, !left);
            }
            at(root).red = false;
        }
        void erase(int k)
        {
            int z = root; while (z >= 0 && at(z).key != k) z = before(k, at(z).key) ? at(z).l : at(z).r;
            if (z < 0) return;
            erased = true;
            int y = z;
            if (at(z).l >= 0 && at(z).r >= 0) for (y = at(z).r; at(y).l >= 0;) y = at(y).l;
            int x = at(y).l >= 0 ? at(y).l : at(y).r;
            if (x >= 0) at(x).p = at(y).p;
            replaceInParent(y, x);
            if (y != z)
            {
                at(y).l = at(z).l; at(y).r = at(z).r; at(y).red = at(z).red;
                if (at(y).l >= 0) at(at(y).l).p = y;
                if (at(y).r >= 0) at(at(y).r).p = y;
                replaceInParent(z, y); at(y).p = at(z).p;
            }
            if (at(y).red || x < 0) return;
            while (x != root && !at(x).red)
            {
                int p = at(x).p; bool left = at(p).l == x; auto sibling = [&] { return left ? at(p).r : at(p).l; };
                int w = sibling();
                if (w < 0) { x = p; continue; }
                if (at(w).red) { at(w).red = false; at(p).red = true; rotate(p, left); w = sibling(); }
                if (w < 0) { x = p; continue; }
                if (!red(at(w).l) && !red(at(w).r)) { at(w).red = true; x = p; continue; }
                int far = left ? at(w).r : at(w).l;
                if (!red(far))
                {
                    int near = left ? at(w).l : at(w).r; if (near >= 0) at(near).red = false;
                    at(w).red = true; rotate(w, !left); w = sibling();
                }
                at(w).red = at(p).red; at(p).red = false;
                far = left ? at(w).r : at(w).l; if (far >= 0) at(far).red = false;
                rotate(p, left); x = root;
            }
            at(x).red = false;
        }
        // At most two comparisons at each level, whichever comes first.
        int64_t cost(int k) const
        {
            int64_t c = 0; int x = root;
            while (x >= 0)
            {
                auto& m = n[size_t(x)]; c += 2;
                if (before(k, m.key)) x = m.l; else if (before(m.key, k)) x = m.r; else return c;
            }
            return c;
        }
    };
    struct SetModel
    {
        int dir = 0; std::vector<KI> v; RefTree tree;
        bool before(int a, int b) const { return dir ? b < a : a < b; }
        size_t lower(int k) const { size_t i = 0; while (i < v.size() && before(v[i].key, k)) ++i; return i; }
        bool has(int k) const { size_t i = lower(k); return i < v.size() && v[i].key == k; }
        bool add(int k, int id)
        {
            size_t i = lower(k); if (i < v.size() && v[i].key == k) return false;
            v.insert(v.begin() + long(i), { k, id }); tree.dir = dir; tree.insert(k); return true;
        }
        bool del(int k) { size_t i = lower(k); if (i == v.size() || v[i].key != k) return false; eraseAt(i); return true; }
        void eraseAt(size_t i) { tree.erase(v[i].key); v.erase(v.begin() + long(i)); if (v.empty()) tree.clear(); }
        void clear() { v.clear(); tree.clear(); }
        void copied() { tree.clear(); tree.dir = dir; for (auto& e : v) tree.insert(e.key); } // a copy inserts the elements in order
    };
    template <class E> using Set = awl::vector_set<E, Less, Alloc<E>>;

    template <class E> void compareSet(const Set<E>& s, const SetModel& m, const char* what)
    {
        SIM_CHECK(s.size() == m.v.size(), "size", "%s: the size is %zu and not %zu", what, s.size(), m.v.size());
        SIM_CHECK(s.empty() == m.v.empty(), "size", "%s: empty() is wrong", what);
        size_t n = 0;
        for (auto i = s.begin(); i != s.end(); ++i, ++n)
        {
            SIM_CHECK(n < m.v.size(), "order", "%s: iteration does not end after %zu elements", what, n);
            (*i).check();
            SIM_CHECK((*i).key == m.v[n].key && (*i).id == m.v[n].id, "order", "%s: element %zu is %d/%d and not %d/%d", what, n, (*i).key, (*i).id, m.v[n].key, m.v[n].id);
        }
        SIM_CHECK(n == m.v.size(), "order", "%s: iteration ends after %zu elements of %zu", what, n, m.v.size());
        n = m.v.size();
        for (auto i = s.rbegin(); i != s.rend(); ++i)
        {
            SIM_CHECK(n > 0, "order", "%s: backward iteration does not end", what);
            --n;
            SIM_CHECK((*i).id == m.v[n].id, "order", "%s: backward iteration is wrong at %zu", what, n);
        }
        SIM_CHECK(n == 0, "order", "%s: backward iteration ends at %zu", what, n);
        for (size_t i = 0; i < m.v.size(); ++i)
        {
            auto f = s.find_by_index(i);
            SIM_CHECK(f != s.end() && (*f).id == m.v[i].id && s[i].id == m.v[i].id && s.at(i).id == m.v[i].id, "index", "%s: the element at index %zu is wrong", what, i);
            SIM_CHECK(s.index_of(f) == i, "index", "%s: the index of the element %zu is %zu", what, i, s.index_of(f));
        }
        if (!m.v.empty()) SIM_CHECK(s.front().id == m.v.front().id && s.back().id == m.v.back().id, "order", "%s: front or back is wrong", what);
        if (!m.v.empty())
        {
            // The access that permits changes refers to the same elements.
            auto& u = const_cast<Set<E>&>(s); size_t k = m.v.size();
            SIM_CHECK(&u.front() == &s.front() && &u.back() == &s.back() && &u[0] == &s[0] && &u.at(k - 1) == &s[k - 1] && &*u.begin() == &s.front(), "order", "%s: mutable front or back is wrong", what);
            if (k < 20) { for (auto i = u.rbegin(); i != u.rend(); ++i) { SIM_CHECK(k > 0 && &*i == &s[k - 1], "order", "%s: mutable backward iteration is wrong", what); --k; } SIM_CHECK(k == 0, "order", "%s: mutable backward iteration is short", what); }
        }
        auto over = s.find_by_index(m.v.size() + W(3));
        SIM_CHECK(over == s.end(), "index", "%s: there is an element after the last one", what);
    }
    // Lookups of one key.
    template <class S> void lookup(S& s, const SetModel& m, int k, const char* what)
    {
        size_t lo = m.lower(k); bool has = m.has(k); size_t n = m.v.size();
        SIM_CHECK(s.contains(k) == has, "find", "%s: contains(%d) is wrong", what, k);
        auto f = s.find(k);
        SIM_CHECK((f != s.end()) == has && (!has || (*f).id == m.v[lo].id), "find", "%s: find(%d) is wrong", what, k);
        auto [f2, index] = s.find2(k);
        SIM_CHECK((f2 != s.end()) == has && (!has || ((*f2).id == m.v[lo].id && index == lo)), "find", "%s: find2(%d) is wrong: index %zu", what, k, index);
        if (has) SIM_CHECK(s.index_of(k) == lo, "index", "%s: index_of(%d) is %zu and not %zu", what, k, s.index_of(k), lo);
        else
        {
            bool thrown = false;
            try { (void)s.index_of(k); } catch (const std::out_of_range&) { thrown = true; }
            SIM_CHECK(thrown, "index", "%s: index_of(%d) finds an absent key", what, k);
        }
        auto l = s.lower_bound(k);
        SIM_CHECK(lo == n ? l == s.end() : (l != s.end() && (*l).id == m.v[lo].id), "bound", "%s: lower_bound(%d) is wrong", what, k);
        size_t up = lo + (has ? 1 : 0);
        auto u = s.upper_bound(k);
        SIM_CHECK(up == n ? u == s.end() : (u != s.end() && (*u).id == m.v[up].id), "bound", "%s: upper_bound(%d) is wrong", what, k);
        size_t pos = W(uint32_t(n + 3)); bool thrown = false;
        try { auto& e = s.at(pos); SIM_CHECK(pos < n && e.id == m.v[pos].id, "index", "%s: at(%zu) is wrong", what, pos); }
        catch (const std::out_of_range&) { thrown = true; }
        SIM_CHECK(thrown == (pos >= n), "index", "%s: at(%zu) with %zu elements does not report correctly", what, pos, n);
    }
    // A red-black tree with n nodes is not higher than 2 log2(n + 1); each level takes at most two comparisons.
    template <class E> void balance(const Set<E>& s, const SetModel& m)
    {
        size_t n = m.v.size(), limit = 0;
        while ((size_t(1) << (limit / 4)) < n + 1) limit += 4; // >= 4 log2(n + 1)
        for (auto& e : m.v)
        {
            int64_t before = comparisons;
            (void)s.contains(e.key);
            int64_t took = comparisons - before;
            if (took <= int64_t(limit) + 2) continue;
            SIM_CHECK(m.tree.erased && took <= m.tree.cost(e.key), "balance", "finding %d among %zu elements takes %lld comparisons", e.key, n, (long long)took);
            probe("erasures left the tree unbalanced (known finding)");
            // Reported in a few runs only, as it ends the run.
            SIM_CHECK(W(200) != 0, "balance-erase", "erasures left the tree unbalanced as in the pinned commit: finding %d among %zu elements takes %lld comparisons", e.key, n, (long long)took);
        }
    }
    template <class E> SetModel valid(const Set<E>& s, const SetModel& part, int dir, const char* what)
    {
        SetModel m; m.dir = dir;
        size_t n = 0;
        for (auto& e : s)
        {
            e.check();
            SIM_CHECK(part.has(e.key), "foreign", "%s: %d is not an element of the source", what, e.key);
            SIM_CHECK(m.v.empty() || m.before(m.v.back().key, e.key), "order", "%s: the elements are not in order", what);
            m.v.push_back({ e.key, e.id });
            SIM_CHECK(++n <= part.v.size(), "order", "%s: too many elements", what);
        }
        m.copied();
        compareSet(s, m, what);
        return m;
    }

    template <class E> void setRun()
    {
        setup();
        const bool copyable = std::is_copy_constructible_v<E>;
        constexpr int N = 3;
        const bool big = tune_n(12) == 0;
        const int keys = big ? 400 : int(tune({ 6, 20, 60 }));
        int ids = 0;
        {
            std::unique_ptr<Set<E>> sets[N]; SetModel models[N];
            for (int i = 0; i < N; ++i) { models[i].dir = int(W(2)); sets[i] = std::make_unique<Set<E>>(Less{ models[i].dir }, Alloc<E>(i)); }
            // A phase that fills and thins one set out, for the balance of big trees.
            if (big)
            {
                int target = 50 + int(W(200));
                int pattern = int(W(4));
                for (int i = 0; i < target; ++i)
                {
                    int k = pattern == 0 ? i : pattern == 1 ? keys - i : int(W(uint32_t(keys)));
                    sets[0]->emplace(k, ++ids); models[0].add(k, ids);
                }
                compareSet(*sets[0], models[0], "filled"); balance(*sets[0], models[0]);
                int erasures = int(W(uint32_t(target)));
                for (int i = 0; i < erasures && !models[0].v.empty(); ++i)
                {
                    size_t at = pattern == 0 ? W(uint32_t(models[0].v.size())) : pattern == 1 ? 0 : pattern == 2 ? models[0].v.size() - 1 : (size_t(i) * 2) % models[0].v.size();
                    int k = models[0].v[at].key;
                    sets[0]->erase(k); models[0].del(k);
                    if (i % 16 == 0) balance(*sets[0], models[0]);
                }
                compareSet(*sets[0], models[0], "thinned out"); balance(*sets[0], models[0]);
                probe("big tree thinned out");
            }
            int ops = big ? 30 : 10 + int(W(90));
            for (int o = 0; o < ops; ++o)
            {
                int a = int(W(N)), b = int(W(N)); Set<E>& s = *sets[a]; SetModel& m = models[a];
                int k = int(W(uint32_t(keys))); int op = int(W(16)); int id = ++ids;
                ev("op", op, k, a);
                bool changedOther = false;
                try
                {
                    switch (op)
                    {
                    case 0: case 1: case 2: // insertion
                    {
                        E e(k, id);
                        Armed f;
                        std::pair<typename Set<E>::iterator, bool> r{ s.end(), false };
                        if (op == 0) { if constexpr (copyable) r = s.insert(std::as_const(e)); else r = s.insert(std::move(e)); }
                        else if (op == 1) r = s.insert(std::move(e));
                        else r = s.emplace(k, id);
                        f.off();
                        bool added = m.add(k, id);
                        SIM_CHECK(r.second == added, "result", "insert of %d reports %d", k, int(r.second));
                        SIM_CHECK((*r.first).key == k && (*r.first).id == m.v[m.lower(k)].id, "result", "insert of %d returns a wrong position", k);
                        break;
                    }
                    case 3: case 4: case 5:
                    {
                        Armed f;
                        size_t n = s.erase(k);
                        f.off();
                        SIM_CHECK(n == (m.del(k) ? 1u : 0u), "result", "erase of %d reports %zu", k, n);
                        break;
                    }
                    case 6:
                        if (!m.v.empty())
                        {
                            size_t at = W(uint32_t(m.v.size()));
                            auto i = s.find_by_index(at);
                            Armed f;
                            s.erase(i);
                            f.off();
                            m.eraseAt(at);
                        }
                        break;
                    case 7: if (W(4) == 0) { s.clear(); m.clear(); } break;
                    case 8:
                    {
                        Armed f;
                        try
                        {
                            auto f1 = s.find(k); auto c = s.contains(k); auto l = s.lower_bound(k);
                            scn::use(f1, c, l);
                        }
                        catch (const Err&) { probe("a lookup throws"); }
                        break;
                    }
                    case 9: // copy
                        if constexpr (copyable)
                        {
                            std::unique_ptr<Set<E>> c;
                            { Armed f(true, 60); c = std::make_unique<Set<E>>(s); }
                            compareSet(*c, m, "copy"); compareSet(s, m, "source of a copy");
                            if (W(2)) { sets[a] = std::move(c); m.copied(); }
                        }
                        break;
                    case 10: // copy assignment, also to itself
                        if constexpr (copyable)
                        {
                            Set<E>& d = *sets[b]; SetModel src = m;
                            changedOther = true;
                            bool ok = false;
                            try { Armed f(true, 60); d = s; ok = true; }
                            catch (const Err&) {}
                            catch (const std::bad_alloc&) {}
                            if (ok) { if (a != b) { models[b] = src; models[b].copied(); } probe(a == b ? "assigned to itself" : "copy assigned"); }
                            else if (a != b)
                            {
                                probe("a copy assignment throws");
                                models[b] = valid(d, src, src.dir, "target of a failed assignment");
                            }
                            compareSet(*sets[b], models[b], "target of an assignment");
                            compareSet(s, models[a], "source of an assignment");
                        }
                        break;
                    case 11: // move assignment
                        if (a != b)
                        {
                            *sets[b] = std::move(s);
                            models[b] = m; m.clear();
                            compareSet(*sets[b], models[b], "target of a move");
                            compareSet(s, m, "source of a move");
                            probe("move assigned");
                        }
                        break;
                    case 12: // move construction
                    {
                        auto c = std::make_unique<Set<E>>(std::move(s));
                        compareSet(*c, m, "moved");
                        SetModel none; none.dir = m.dir;
                        compareSet(s, none, "moved from");
                        if (W(2)) { s.emplace(k, id); none.add(k, id); compareSet(s, none, "used after a move"); }
                        sets[a] = std::move(c);
                        break;
                    }
                    case 13: // from a list or a range
                        if constexpr (copyable)
                        {
                            SetModel c; c.dir = int(W(2)); std::vector<E> src; src.reserve(8);
                            for (int i = int(W(8)); i > 0; --i) { int x = int(W(uint32_t(keys))); src.emplace_back(x, ++ids); c.add(x, ids); }
                            std::unique_ptr<Set<E>> made;
                            if (src.size() >= 3 && W(2))
                            {
                                SetModel c3; c3.dir = c.dir; for (int i = 0; i < 3; ++i) c3.add(src[size_t(i)].key, src[size_t(i)].id);
                                c = c3;
                                Armed f(true, 40);
                                made = std::make_unique<Set<E>>(std::initializer_list<E>{ src[0], src[1], src[2] }, Less{ c.dir }, Alloc<E>(a));
                            }
                            else
                            {
                                Armed f(true, 40);
                                made = std::make_unique<Set<E>>(src.begin(), src.end(), Less{ c.dir }, Alloc<E>(a));
                            }
                            compareSet(*made, c, "constructed");
                            sets[a] = std::move(made); m = c;
                        }
                        break;
                    case 14:
                    {
                        Set<E>& d = *sets[b];
                        if (models[b].dir == m.dir)
                        {
                            std::vector<int> x, y; for (auto& e : m.v) x.push_back(e.key); for (auto& e : models[b].v) y.push_back(e.key);
                            SIM_CHECK((s == d) == (x == y) && (s != d) == (x != y), "equal", "comparison of two sets is wrong");
                        }
                        break;
                    }
                    case 15: // erase everything one by one through iterators
                        if (W(4) == 0)
                        {
                            while (!s.empty()) { auto i = W(2) ? s.begin() : s.find_by_index(s.size() - 1); s.erase(i); }
                            m.clear();
                        }
                        break;
                    }
                }
                catch (const Err& e) { probe("set: user code throws"); ev("threw", e.where); }
                catch (const std::bad_alloc&) { probe("set: out of memory"); }
                Set<E>& now = *sets[a];
                if (!changedOther) compareSet(now, models[a], "after an operation");
                lookup(now, models[a], k, "set"); lookup(std::as_const(now), models[a], int(W(uint32_t(keys))), "const set");
                if (o % 4 == 0) balance(now, models[a]);
                uint64_t h = uint64_t(op) * 1000 + models[a].v.size();
                for (auto& e : models[a].v) h = h * 1099511628211ull + uint64_t(e.key);
                state(h);
            }
            size_t total = 0;
            for (int i = 0; i < N; ++i) { compareSet(*sets[i], models[i], "at the end"); balance(*sets[i], models[i]); total += models[i].v.size(); }
            SIM_CHECK(cell(0) == int64_t(total), "live", "%lld elements live and %zu are contained", (long long)cell(0), total);
        }
        SIM_CHECK(cell(0) == 0, "live", "%lld elements are never destroyed", (long long)cell(0));
    }
}
namespace
{
    // Numbers only, many of them. The model is a sorted sequence.
    void manyRun(size_t n)
    {
        awl::vector_set<int> s; std::vector<int> all;
        uint64_t seed = W(1u << 30); const uint32_t pattern = W(4);
        for (size_t i = 0; i < n; ++i)
        {
            int k = pattern == 0 ? int(i) : pattern == 1 ? -int(i) : pattern == 2 ? int(i % 2 ? i : n * 2 - i) : int(scn::mixup(seed + i) >> 33);
            if (s.insert(k).second) all.push_back(k);
        }
        std::sort(all.begin(), all.end());
        auto check = [&](const char* what)
        {
            SIM_CHECK(s.size() == all.size(), "size", "%s: the size is %zu and not %zu", what, s.size(), all.size());
            size_t i = 0;
            for (int k : s) { SIM_CHECK(i < all.size() && k == all[i], "order", "%s: element %zu is wrong", what, i); ++i; }
            SIM_CHECK(i == all.size(), "order", "%s: the iteration ends after %zu of %zu", what, i, all.size());
            for (int t = 0; t < 60 && !all.empty(); ++t)
            {
                size_t at = t == 0 ? 0 : t == 1 ? all.size() - 1 : W(uint32_t(all.size()));
                SIM_CHECK(s.index_of(all[at]) == at, "index", "%s: the index of element %zu is %zu", what, at, s.index_of(all[at]));
                SIM_CHECK(s[at] == all[at] && *s.find_by_index(at) == all[at] && s.index_of(s.find(all[at])) == at, "index", "%s: the element at %zu is wrong", what, at);
                auto l = s.lower_bound(all[at] + 1); auto e = std::upper_bound(all.begin(), all.end(), all[at]);
                SIM_CHECK((l == s.end()) == (e == all.end()) && (l == s.end() || *l == *e), "bound", "%s: the bound of element %zu is wrong", what, at);
            }
        };
        check("many");
        // A part of them goes away.
        const uint32_t every = 2 + W(3); std::vector<int> left; size_t i = 0;
        for (int k : all) if (i++ % every) left.push_back(k); else SIM_CHECK(s.erase(k) == 1, "result", "erase of a contained number fails");
        all = left;
        check("thinned out");
        auto c = s; SIM_CHECK(c == s, "equal", "a copy of many is not equal");
        s.clear(); SIM_CHECK(s.empty() && c.size() == all.size(), "size", "a copy changes with its source");
        probe(n > 65536 ? "more than 65536 elements" : "hundreds of elements");
    }
}
SIM_SCENARIO(indexed_set)
{
    if (uint32_t x = W(4000); x < 8) { manyRun(x == 0 ? 65600 + W(2000) : 250 + W(3000)); return; }
    switch (tune_n(3)) { case 0: setRun<El>(); break; case 1: setRun<ElT>(); break; default: setRun<ElM>(); break; }
}

// ------------------------------------------------------------------------------------------------ C21
namespace
{
    template <class E> using Ring = awl::ring<E, Alloc<E>>;
    template <class E> void compareRing(const Ring<E>& r, const std::deque<int>& m, size_t cap, const char* what)
    {
        SIM_CHECK(r.size() == m.size(), "size", "%s: the size is %zu and not %zu", what, r.size(), m.size());
        SIM_CHECK(r.empty() == m.empty(), "size", "%s: empty() is wrong", what);
        SIM_CHECK(r.capacity() == cap, "capacity", "%s: the capacity is %zu and not %zu", what, r.capacity(), cap);
        SIM_CHECK(r.full() == (m.size() == cap), "size", "%s: full() is wrong", what);
        for (size_t i = 0; i < m.size(); ++i)
        {
            r[i].check(); SIM_CHECK(r[i].id == m[i], "order", "%s: element %zu is %d and not %d", what, i, r[i].id, m[i]);
            SIM_CHECK(&r.at(i) == &r[i], "order", "%s: at(%zu) is wrong", what, i);
        }
        for (size_t i = m.size(); i < m.size() + 2; ++i)
        {
            bool thrown = false;
            try { (void)r.at(i); } catch (const std::out_of_range&) { thrown = true; }
            SIM_CHECK(thrown, "index", "%s: at(%zu) of %zu elements is not rejected", what, i, m.size());
        }
        if (!m.empty()) SIM_CHECK(r.front().id == m.front() && r.back().id == m.back(), "order", "%s: front or back is wrong", what);
        size_t n = 0;
        for (auto& e : r) { SIM_CHECK(n < m.size() && e.id == m[n], "order", "%s: iteration is wrong at %zu", what, n); ++n; }
        SIM_CHECK(n == m.size(), "order", "%s: iteration ends after %zu of %zu", what, n, m.size());
        n = m.size();
        for (auto i = r.rbegin(); i != r.rend(); ++i) { SIM_CHECK(n > 0 && (*i).id == m[n - 1], "order", "%s: backward iteration is wrong at %zu", what, n); --n; }
        SIM_CHECK(n == 0, "order", "%s: backward iteration is short", what);
        if (m.size() > 1)
        {
            long i = long(W(uint32_t(m.size()))), j = long(W(uint32_t(m.size())));
            auto p = r.begin() + i; auto q = r.end() - (long(m.size()) - j);
            SIM_CHECK((*p).id == m[size_t(i)] && (*q).id == m[size_t(j)] && q - p == j - i && (p < q) == (i < j) && (p == q) == (i == j), "iterator", "%s: iterator arithmetic is wrong", what);
        }
    }
    // The members that change a ring's iterators, and the access that permits changes.
    template <class E> void compareMutable(Ring<E>& r, const std::deque<int>& m, size_t cap, const char* what)
    {
        compareRing(r, m, cap, what);
        if (!m.empty()) SIM_CHECK(&r.front() == &r[0] && &r.back() == &r[m.size() - 1] && &r.at(0) == &r[0], "order", "%s: mutable front or back is wrong", what);
        size_t n = m.size();
        for (auto i = r.rbegin(); i != r.rend(); ++i) { SIM_CHECK(n > 0 && i->id == m[n - 1], "order", "%s: mutable backward iteration is wrong at %zu", what, n); --n; }
        SIM_CHECK(n == 0, "order", "%s: mutable backward iteration is short", what);
        if (m.size() > 1)
        {
            const long size = long(m.size()); long at = long(W(uint32_t(size)));
            auto i = r.begin() + at; auto other = r.begin(); other = i;
            for (int k = 0; k < 6; ++k)
            {
                long to = long(W(uint32_t(size)));
                if (at + 1 < size && W(3) == 0) { auto was = W(2) ? i++ : ++i; SIM_CHECK(was->id == m[size_t(at)] || was->id == m[size_t(at + 1)], "iterator", "%s: an increment is wrong", what); to = at + 1; }
                else if (at > 0 && W(3) == 0) { auto was = W(2) ? i-- : --i; SIM_CHECK(was->id == m[size_t(at)] || was->id == m[size_t(at - 1)], "iterator", "%s: a decrement is wrong", what); to = at - 1; }
                else if (W(2)) i += to - at; else i -= at - to;
                at = to;
                SIM_CHECK(i->id == m[size_t(at)] && &*i == &r[size_t(at)], "iterator", "%s: an iterator moved to %ld refers to another element", what, at);
                typename Ring<E>::const_iterator c = i; auto d = (c - at) + at;
                SIM_CHECK(&*c == &*i && d == c && !(d != c), "iterator", "%s: a const iterator differs", what);
                SIM_CHECK((r.end() - i) == size - at, "iterator", "%s: a distance to the end is wrong", what);
            }
            SIM_CHECK(&*other == &*(r.begin() + (other - r.begin())), "iterator", "%s: a copied iterator is wrong", what);
        }
    }
    template <class E> std::deque<int> ringIds(const Ring<E>& r, size_t limit, const char* what)
    {
        SIM_CHECK(r.size() <= limit && r.size() <= r.capacity(), "size", "%s: the ring has %zu elements", what, r.size());
        std::deque<int> d;
        for (size_t i = 0; i < r.size(); ++i) { r[i].check(); d.push_back(r[i].id); }
        return d;
    }
    bool isSubsequence(const std::deque<int>& part, const std::deque<int>& all)
    {
        size_t j = 0;
        for (int x : part) { while (j < all.size() && all[j] != x) ++j; if (j++ >= all.size()) return false; }
        return true;
    }
    template <class E> void ringRun()
    {
        setup();
        constexpr bool copyable = std::is_copy_constructible_v<E>;
        constexpr bool keeps = copyable || std::is_nothrow_move_constructible_v<E>;
        constexpr int N = 3;
        int ids = 0;
        {
            std::unique_ptr<Ring<E>> rings[N]; std::deque<int> models[N]; size_t caps[N]; bool bigRing = false;
            for (int i = 0; i < N; ++i)
            {
                caps[i] = W(4) == 0 ? 0 : 1 + W(6);
                if (i == 0 && W(60) == 0) { caps[i] = 100 + W(300); bigRing = true; probe("big ring"); }
                rings[i] = caps[i] ? std::make_unique<Ring<E>>(caps[i]) : std::make_unique<Ring<E>>();
            }
            int ops = 10 + int(W(110));
            if (bigRing)
            {
                // Filled, and often wrapped around.
                for (size_t i = W(uint32_t(caps[0]) * 2); i > 0; --i)
                {
                    E e(0, ++ids); const bool front = W(8) == 0;
                    if (models[0].size() == caps[0]) front ? models[0].pop_back() : models[0].pop_front();
                    if (front) { rings[0]->push_front(std::move(e)); models[0].push_front(ids); } else { rings[0]->push_back(std::move(e)); models[0].push_back(ids); }
                }
                compareRing(*rings[0], models[0], caps[0], "filled");
                ops = 10 + int(W(30));
            }
            for (int o = 0; o < ops; ++o)
            {
                int a = int(W(N)), b = int(W(N)); Ring<E>& r = *rings[a]; std::deque<int>& m = models[a]; size_t& cap = caps[a];
                int op = int(W(15)), id = ++ids;
                ev("op", op, a, int64_t(m.size()));
                std::deque<int> old = m, source; bool failed = false, push = false, front = false;
                std::optional<E> e; bool owned = false;
                auto after = [&](bool atFront)
                {
                    if (!cap) return;
                    if (m.size() == cap) { probe("push on a full ring"); atFront ? m.pop_back() : m.pop_front(); }
                    atFront ? m.push_front(id) : m.push_back(id);
                };
                try
                {
                    switch (op)
                    {
                    case 0: case 1: case 2: case 3: case 4: case 5:
                    {
                        push = true; front = op % 2;
                        bool self = copyable && op >= 4 && !m.empty();
                        if (self) { size_t at = W(uint32_t(m.size())); id = m[at]; probe("an element of the ring is pushed"); }
                        else e.emplace(id, id), owned = true;
                        Armed f(true, 3);
                        if constexpr (copyable)
                        {
                            if (self)
                            {
                                size_t at = 0; while (m[at] != id) ++at;
                                if (front) r.push_front(std::as_const(r)[at]); else r.push_back(std::as_const(r)[at]);
                            }
                            else if (op >= 2) { if (front) r.push_front(std::as_const(*e)); else r.push_back(std::as_const(*e)); }
                            else { if (front) r.push_front(std::move(*e)); else r.push_back(std::move(*e)); }
                        }
                        else { if (front) r.push_front(std::move(*e)); else r.push_back(std::move(*e)); }
                        f.off();
                        after(front);
                        break;
                    }
                    case 6: if (!m.empty()) { r.pop_front(); m.pop_front(); } break;
                    case 7: if (!m.empty()) { r.pop_back(); m.pop_back(); } break;
                    case 8:
                    {
                        size_t c = 1 + W(bigRing && W(2) ? 400 : 8);
                        { Armed f(true, 6); r.reserve(c); }
                        while (m.size() > c) m.pop_front();
                        cap = c; probe("reserve");
                        break;
                    }
                    case 9: if (W(3) == 0) { if (cap || W(2)) r.clear(); m.clear(); } break;
                    case 10:
                        if constexpr (copyable)
                        {
                            std::unique_ptr<Ring<E>> c;
                            { Armed f(true, 6); c = std::make_unique<Ring<E>>(std::as_const(r)); }
                            compareRing(*c, m, cap, "copy");
                            SIM_CHECK(*c == r, "equal", "a copy is not equal to its source");
                            if (W(2)) rings[a] = std::move(c);
                            probe("copied");
                        }
                        break;
                    case 11:
                        if constexpr (copyable)
                        {
                            source = m; old = models[b];
                            Ring<E>& d = *rings[b];
                            try { Armed f(true, 6); d = std::as_const(r); f.off(); models[b] = source; caps[b] = cap; probe(a == b ? "assigned to itself" : "copy assigned"); }
                            catch (const Err&) { failed = true; }
                            catch (const std::bad_alloc&) { failed = true; }
                            if (failed && a != b)
                            {
                                probe("a copy assignment throws");
                                auto now = ringIds(d, 1000, "target of a failed assignment");
                                SIM_CHECK(isSubsequence(now, source) || isSubsequence(now, old), "foreign", "a failed assignment leaves strange elements");
                                models[b] = now; caps[b] = d.capacity(); failed = false;
                            }
                            compareRing(*rings[b], models[b], caps[b], "target of an assignment");
                            old = m;
                        }
                        break;
                    case 12:
                        if (a != b)
                        {
                            *rings[b] = std::move(r); models[b] = m; caps[b] = cap; m.clear(); cap = r.capacity();
                            compareRing(*rings[b], models[b], caps[b], "target of a move"); probe("move assigned");
                        }
                        else { Ring<E>& same = r; r = std::move(same); probe("moved to itself"); }
                        break;
                    case 13:
                    {
                        auto c = std::make_unique<Ring<E>>(std::move(r));
                        compareRing(*c, m, cap, "moved");
                        compareRing(r, {}, r.capacity(), "moved from");
                        if (W(2)) { r.reserve(2); E x(1, ++ids); r.push_back(std::move(x)); compareRing(r, { ids }, 2, "used after a move"); }
                        rings[a] = std::move(c);
                        break;
                    }
                    case 14:
                    {
                        bool same = models[b] == m;
                        SIM_CHECK((*rings[b] == r) == same, "equal", "comparison of two rings is wrong");
                        break;
                    }
                    }
                }
                catch (const Err&) { failed = true; probe("ring: user code throws"); }
                catch (const std::bad_alloc&) { failed = true; probe("ring: out of memory"); }
                e.reset(); scn::use(owned);
                if (failed)
                {
                    auto now = ringIds(*rings[a], old.size(), "after an exception");
                    if (push)
                    {
                        std::deque<int> dropped = old;
                        if (cap && old.size() == cap) { if (front) dropped.pop_back(); else dropped.pop_front(); }
                        SIM_CHECK(now == old || now == dropped, "exception", "a push that threw changed the contents");
                    }
                    else if (keeps) SIM_CHECK(now == old, "exception", "an operation that threw changed the contents");
                    m = now; cap = rings[a]->capacity();
                }
                compareMutable(*rings[a], m, cap, failed ? "after an exception" : "after an operation");
                uint64_t h = uint64_t(op) * 31 + m.size() * 7 + cap; h = h * 31 + uint64_t(failed); state(h);
            }
            size_t total = 0;
            for (int i = 0; i < N; ++i) { compareRing(*rings[i], models[i], caps[i], "at the end"); total += models[i].size(); }
            SIM_CHECK(cell(0) == int64_t(total), "live", "%lld elements live and %zu are contained", (long long)cell(0), total);
        }
        SIM_CHECK(cell(0) == 0, "live", "%lld elements are never destroyed", (long long)cell(0));
    }
}
SIM_SCENARIO(ring_history)
{
    switch (tune_n(4)) { case 0: ringRun<El>(); break; case 1: ringRun<ElT>(); break; case 2: ringRun<ElM>(); break; default: ringRun<ElMT>(); break; }
}

// ------------------------------------------------------------------------------------------------ C22
namespace
{
    struct INote
    {
        virtual void onNote(int n, const std::string& text) = 0;
        virtual bool onAsk(int n) = 0;
        virtual ~INote() = default;
    };
    struct Source : awl::Observable<INote, Source>
    {
        Source() = default;
        Source(Source&&) = default;
        Source& operator=(Source&&) = default;
        void note(int n, const std::string& t) { Notify(&INote::onNote, n, t); }
        bool ask(int n) { return NotifyWhileTrue(&INote::onAsk, n); }
    };
    constexpr int MaxObs = 9, Sources = 2;
    struct Sub { int id; int ticket; };              // tickets grow with every subscription
    struct Frame { int s; int next; int number; bool stopped; std::vector<Sub> called; };
    struct Watcher;
    struct Court
    {
        std::unique_ptr<Watcher> watchers[MaxObs];
        std::unique_ptr<Source> sources[Sources];
        std::vector<Sub> order[Sources];             // model: the lists
        std::vector<Frame> stack;                    // notifications in progress
        int tickets = 0, numbers = 0;
        double actions;
        int where(int id) { for (int s = 0; s < Sources; ++s) for (auto& x : order[s]) if (x.id == id) return s; return -1; }
        void forget(int id) { for (auto& o : order) std::erase_if(o, [&](auto& x) { return x.id == id; }); }
        // An observer about to be called next must not leave the list: not supported and not required.
        bool mayLeave(int id) { for (auto& f : stack) if (f.next == id) return false; return true; }
        void subscribe(int id, int s);
        void unsubscribe(int id);
        void destroy(int id);
        void move(int id);
        void assign(int a, int b);
        void call(int id);
        void notify(int s, bool ask);
        void check();
    };
    Court* court;

    struct Watcher : awl::Observer<INote>
    {
        int id; std::unique_ptr<int> memory;
        explicit Watcher(int i) : id(i), memory(new int(i)) {}
        Watcher(Watcher&& o) = default;
        Watcher& operator=(Watcher&& o) = default;
        void verify(int n)
        {
            SIM_CHECK(memory && *memory == id, "dead", "an observer that was moved from or destroyed is called");
            SIM_CHECK(!court->stack.empty() && n == court->stack.back().number, "argument", "an observer gets a wrong argument");
        }
        void onNote(int n, const std::string& text) override
        {
            verify(n); SIM_CHECK(text == std::to_string(n), "argument", "an observer gets a wrong argument");
            court->call(id);                         // *this may be gone now
        }
        bool onAsk(int n) override
        {
            verify(n); court->call(id);
            bool r = W(5) != 0;
            if (!r) court->stack.back().stopped = true;
            return r;
        }
    };
    void Court::subscribe(int id, int s)
    {
        if (!watchers[id]) watchers[id] = std::make_unique<Watcher>(id);
        if (where(id) >= 0) return;
        SIM_CHECK(!watchers[id]->IsSubscribed(), "subscribed", "an observer that is not subscribed says it is");
        sources[s]->Subscribe(watchers[id].get()); order[s].push_back({ id, ++tickets });
        SIM_CHECK(watchers[id]->IsSubscribed(), "subscribed", "a subscribed observer says it is not");
        ev("subscribe", id, s);
    }
    void Court::unsubscribe(int id)
    {
        if (!watchers[id]) return;
        int s = where(id);
        if (s < 0) { watchers[id]->UnsubscribeSafe(); return; }
        if (!mayLeave(id)) return;
        switch (W(3)) { case 0: sources[s]->Unsubscribe(watchers[id].get()); break; case 1: watchers[id]->UnsubscribeSelf(); break; default: watchers[id]->UnsubscribeSafe(); }
        forget(id); ev("unsubscribe", id);
        SIM_CHECK(!watchers[id]->IsSubscribed(), "subscribed", "an observer that unsubscribed says it is subscribed");
    }
    void Court::destroy(int id)
    {
        if (!watchers[id] || !mayLeave(id)) return;
        watchers[id] = nullptr; forget(id); ev("destroy", id);
    }
    void Court::move(int id)
    {
        if (!watchers[id] || !mayLeave(id)) return;
        auto n = std::make_unique<Watcher>(std::move(*watchers[id]));
        SIM_CHECK(!watchers[id]->IsSubscribed(), "subscribed", "an observer is still subscribed after it was moved");
        watchers[id] = std::move(n);                 // destroys the old one
        SIM_CHECK(watchers[id]->IsSubscribed() == (where(id) >= 0), "subscribed", "a moved observer does not keep its subscription");
        ev("move", id);
    }
    void Court::assign(int a, int b)                 // the object of b becomes a
    {
        if (a == b || !watchers[a] || !watchers[b] || !mayLeave(a) || !mayLeave(b)) return;
        *watchers[b] = std::move(*watchers[a]);
        forget(b);
        watchers[a] = std::move(watchers[b]);
        SIM_CHECK(watchers[a]->IsSubscribed() == (where(a) >= 0), "subscribed", "an assigned observer does not take the subscription over");
        ev("assign", a, b);
    }
    void Court::call(int id)
    {
        auto& o = order[stack.back().s];
        auto i = std::find_if(o.begin(), o.end(), [&](auto& x) { return x.id == id; });
        SIM_CHECK(i != o.end(), "called", "observer %d is called although it is not subscribed", id);
        int ticket = i->ticket;
        for (auto& c : stack.back().called) SIM_CHECK(c.ticket < ticket, c.ticket == ticket ? "twice" : "order", "observer %d is called %s", id, c.ticket == ticket ? "twice" : "in a wrong order");
        stack.back().called.push_back(*i);
        stack.back().next = i + 1 == o.end() ? -1 : (i + 1)->id;
        ev("called", id, stack.back().s);
        if (!(actions > 0) || !chance(K_USER, actions)) return;
        for (int k = 1 + int(W(3)); k > 0; --k)
        {
            switch (W(10))
            {
            case 0: unsubscribe(id); probe("an observer unsubscribes itself"); break;
            case 1: destroy(id); probe("an observer destroys itself"); break;
            case 2: move(id); probe("an observer moves itself"); break;
            case 3: case 4: { int x = int(W(MaxObs)); if (watchers[x] || W(2)) subscribe(x, int(W(Sources))); probe("an observer subscribes"); break; }
            case 5: unsubscribe(int(W(MaxObs))); probe("an observer unsubscribes another one"); break;
            case 6: { int x = int(W(MaxObs)); if (x != id) destroy(x); probe("an observer destroys another one"); break; }
            case 7: { int x = int(W(MaxObs)); if (x != id) move(x); break; }
            case 8: if (stack.size() < 3) { notify(int(W(Sources)), W(2)); probe("nested notification"); } break;
            default: if (pThrow > 0 && chance(K_THROW, pThrow)) { count_fault(K_THROW); throw Err{ 7 }; }
            }
        }
    }
    void Court::notify(int s, bool ask)
    {
        int number = ++numbers;
        std::vector<Sub> before = order[s];
        stack.push_back({ s, -1, number, false, {} });
        bool threw = false, result = true;
        try { if (ask) result = sources[s]->ask(number); else sources[s]->note(number, std::to_string(number)); }
        catch (const Err&) { threw = true; probe("an observer throws"); }
        Frame f = std::move(stack.back()); stack.pop_back();
        if (ask && !threw) SIM_CHECK(result == !f.stopped, "answer", "NotifyWhileTrue returns %d", int(result));
        // All those which have been subscribed all the time are called, in order, up to the one that stopped it.
        for (auto& x : before)
        {
            bool stays = std::any_of(order[s].begin(), order[s].end(), [&](auto& y) { return y.ticket == x.ticket; });
            bool was = std::any_of(f.called.begin(), f.called.end(), [&](auto& y) { return y.ticket == x.ticket; });
            if (stays && !was) SIM_CHECK((threw || f.stopped) && (f.called.empty() || f.called.back().ticket < x.ticket), "missed", "observer %d is subscribed and is not called", x.id);
        }
        state(uint64_t(before.size()) * 10000 + order[s].size() * 100 + f.called.size());
        for (auto& x : f.called) mix(uint64_t(x.id));
    }
    void Court::check()
    {
        for (int i = 0; i < MaxObs; ++i)
            if (watchers[i]) SIM_CHECK(watchers[i]->IsSubscribed() == (where(i) >= 0), "subscribed", "observer %d: IsSubscribed() is wrong", i);
        for (int s = 0; s < Sources; ++s)
        {
            SIM_CHECK(sources[s]->empty() == order[s].empty(), "size", "empty() of an observable is wrong");
            SIM_CHECK(size_t(sources[s]->size()) == order[s].size(), "size", "size() of an observable is %zu and not %zu", size_t(sources[s]->size()), order[s].size());
        }
    }
}
SIM_SCENARIO(notification)
{
    setup();
    Court c; court = &c; c.actions = tune({ 0, 0.2, 0.5 });
    for (auto& s : c.sources) s = std::make_unique<Source>();
    for (int o = 10 + int(W(60)); o > 0; --o)
    {
        int id = int(W(MaxObs)), s = int(W(Sources)), t = int(W(Sources));
        switch (W(14))
        {
        case 0: case 1: case 2: case 3: c.subscribe(id, s); break;
        case 4: c.unsubscribe(id); break;
        case 5: c.destroy(id); break;
        case 6: c.move(id); break;
        case 7: c.assign(id, int(W(MaxObs))); break;
        case 8: case 9: c.notify(s, false); break;
        case 10: c.notify(s, true); break;
        case 11: // the observable moves
        {
            auto n = std::make_unique<Source>(std::move(*c.sources[s]));
            SIM_CHECK(c.sources[s]->empty(), "size", "a moved observable keeps observers");
            c.sources[s] = std::move(n); probe("observable moved");
            break;
        }
        case 12: // one observable becomes another one
            if (s != t)
            {
                *c.sources[t] = std::move(*c.sources[s]);
                c.order[t] = std::move(c.order[s]); c.order[s].clear(); probe("observable assigned");
            }
            break;
        case 13: if (W(3) == 0) { c.sources[s] = nullptr; c.order[s].clear(); c.sources[s] = std::make_unique<Source>(); probe("observable destroyed first"); } break;
        }
        c.check();
    }
    c.notify(0, false); c.notify(1, false);
    if (W(2)) for (auto& s : c.sources) { s = nullptr; }
    else for (auto& w : c.watchers) w = nullptr;
}

// ------------------------------------------------------------------------------------------------ C23
namespace
{
    struct Item
    {
        int pk, fk, id; uint32_t magic; std::unique_ptr<int> memory;
        Item(int p, int f, int i) : pk(p), fk(f), id(i), magic(Alive), memory(new int(i)) { ++cell(0); }
        Item(const Item& o) : pk(o.pk), fk(o.fk), id(o.id), magic(Alive), memory(new int(o.id)) { o.check(); point(10); ++cell(0); }
        Item(Item&& o) noexcept : pk(o.pk), fk(o.fk), id(o.id), magic(Alive), memory(std::move(o.memory)) { ++cell(0); }
        ~Item() { SIM_CHECK(magic == Alive, "destroyed", "an element is destroyed twice"); magic = Dead; --cell(0); }
        void check() const { SIM_CHECK(magic == Alive && memory && *memory == id, "destroyed", "an element that is destroyed or moved from is used"); }
    };
    const Item& item(const Item& r) { r.check(); return r; }
    const Item& item(const Item* r) { r->check(); return *r; }
    const Item& item(const std::shared_ptr<Item>& r) { r->check(); return *r; }
    const Item& item(const std::unique_ptr<Item>& r) { r->check(); return *r; }
    template <class T> struct MakeItem { static T make(int p, int f, int i) { return T(new Item(p, f, i)); } };
    template <> struct MakeItem<Item> { static Item make(int p, int f, int i) { return Item(p, f, i); } };

    struct PkGetter { int operator()(const Item& r) const { r.check(); return r.pk; } };
    struct FkGetter { int operator()(const Item& r) const { r.check(); return r.fk; } };
    template <class T> struct ByPk
    {
        bool operator()(const T& a, const T& b) const { point(11); return item(a).pk < item(b).pk; }
        bool operator()(const T& a, int b) const { point(11); return item(a).pk < b; }
        bool operator()(int a, const T& b) const { point(11); return a < item(b).pk; }
    };
    template <class T> struct Reversed
    {
        bool operator()(const T& a, const T& b) const { return item(b).pk < item(a).pk; }
        bool operator()(const T& a, int b) const { return b < item(a).pk; }
        bool operator()(int a, const T& b) const { return item(b).pk < a; }
    };
    using Contents = std::map<int, KI>;              // pk -> fk, id

    template <class T> struct Recorder : awl::Observer<awl::INotifySetChanged<T>>
    {
        std::map<int, int> seen; int clearings = 0;
        void OnAdded(const T& v) override
        {
            AllocFaults off(false);
            SIM_CHECK(seen.emplace(item(v).pk, item(v).id).second, "notification", "an element is reported as added twice");
        }
        void OnRemoving(const T& v) override
        {
            auto i = seen.find(item(v).pk);
            SIM_CHECK(i != seen.end() && i->second == item(v).id, "notification", "an element is reported as removed that was not there");
            seen.erase(i);
        }
        void OnClearing() override { seen.clear(); ++clearings; }
    };

    // All ways to read the elements of a set or of a view of it, in its order.
    template <class S> void checkAccess(S& s, const std::vector<std::pair<int, int>>& v, bool reversed, const char* what)
    {
        auto is = [&](auto& x, size_t i) { return i < v.size() && item(x).pk == v[i].first && item(x).id == v[i].second; };
        SIM_CHECK(s.size() == v.size() && s.empty() == v.empty(), "access", "%s: size() or empty() is wrong", what);
        if (!v.empty()) SIM_CHECK(is(s.front(), 0) && is(s.back(), v.size() - 1), "access", "%s: front() or back() is wrong", what);
        size_t n = v.size();
        for (auto i = s.rbegin(); i != s.rend(); ++i) { SIM_CHECK(n > 0 && is(*i, n - 1), "access", "%s: backward iteration is wrong", what); --n; }
        SIM_CHECK(n == 0, "access", "%s: backward iteration is short", what);
        n = 0;
        for (auto i = s.begin(); i != s.end(); ++i, ++n) SIM_CHECK(is(*i, n) && is(s[n], n) && is(s.at(n), n), "access", "%s: the element %zu is wrong", what, n);
        SIM_CHECK(n == v.size(), "access", "%s: iteration is short", what);
        bool thrown = false;
        try { (void)s.at(v.size() + W(3)); } catch (const std::out_of_range&) { thrown = true; }
        SIM_CHECK(thrown, "access", "%s: an index that is too large is accepted", what);
        const int k = int(W(12));
        size_t lo = 0; while (lo < v.size() && (reversed ? v[lo].first > k : v[lo].first < k)) ++lo;
        const bool has = lo < v.size() && v[lo].first == k; const size_t up = lo + has;
        auto l = s.lower_bound(k), u = s.upper_bound(k), f = s.find(k);
        SIM_CHECK((l == s.end()) == (lo == v.size()) && (l == s.end() || is(*l, lo)), "access", "%s: lower_bound(%d) is wrong", what, k);
        SIM_CHECK((u == s.end()) == (up == v.size()) && (u == s.end() || is(*u, up)), "access", "%s: upper_bound(%d) is wrong", what, k);
        SIM_CHECK((f != s.end()) == has && (!has || is(*f, lo)) && s.contains(k) == has, "access", "%s: find or contains(%d) is wrong", what, k);
        if (has) SIM_CHECK(s.index_of(k) == lo, "access", "%s: index_of(%d) is wrong", what, k);
        if (v.size() > 1) SIM_CHECK(s.value_comp()(s[0], s[1]) && !s.value_comp()(s[1], s[0]), "access", "%s: the comparer is wrong", what);
    }
    std::vector<std::pair<int, int>> inOrder(const Contents& m, bool reversed)
    {
        std::vector<std::pair<int, int>> v; for (auto& [pk, x] : m) v.emplace_back(pk, x.id);
        if (reversed) std::reverse(v.begin(), v.end());
        return v;
    }

    template <class T> struct Views
    {
        static constexpr bool copyable = std::is_copy_constructible_v<T>;
        using Observed = awl::observable_set<T, ByPk<T>>;
        using Foreign = awl::foreign_set<T, PkGetter, FkGetter>;
        using Group = typename Foreign::value_type;
        using GroupItem = typename Group::value_type;
        struct None {};

        // Follows the groups of a foreign set.
        struct GroupRecorder : awl::Observer<awl::INotifySetChanged<Group>>
        {
            std::map<int, std::unique_ptr<Recorder<GroupItem>>> groups;
            void add(const Group& g)
            {
                AllocFaults off(false);
                SIM_CHECK(!g.empty(), "group", "an empty group is added");
                auto r = std::make_unique<Recorder<GroupItem>>();
                for (auto& x : g) r->seen.emplace(item(x).pk, item(x).id);
                g.Subscribe(r.get());
                SIM_CHECK(groups.emplace(item(g.front()).fk, std::move(r)).second, "group", "a group is reported as added twice");
            }
            void OnAdded(const Group& g) override { add(g); }
            void OnRemoving(const Group& g) override { SIM_CHECK(groups.erase(item(g.front()).fk) == 1, "group", "a group is reported as removed that was not there"); }
            void OnClearing() override { groups.clear(); }
        };
        template <bool C> struct MirrorPart
        {
            using M1 = awl::mirror_set<T, Reversed<T>>; using M2 = awl::mirror_set<T, ByPk<T>>;
            std::unique_ptr<M1> first; std::unique_ptr<M2> second;
        };
        template <int> struct NoMirror {};
        using Mirrors = std::conditional_t<copyable, MirrorPart<copyable>, NoMirror<0>>;

        struct View
        {
            std::unique_ptr<Recorder<T>> recorder;
            Mirrors mirrors;
            std::unique_ptr<Foreign> foreign; std::unique_ptr<GroupRecorder> groups;
        };

        std::unique_ptr<Observed> source[2];
        Contents model[2];
        std::vector<std::unique_ptr<View>> views[2];

        void attach(int s)
        {
            auto v = std::make_unique<View>(); Observed& o = *source[s];
            v->recorder = std::make_unique<Recorder<T>>();
            for (auto& x : o) v->recorder->seen.emplace(item(x).pk, item(x).id);
            o.Subscribe(v->recorder.get());
            if constexpr (copyable)
            {
                if (W(2))
                {
                    v->mirrors.first = std::make_unique<typename Mirrors::M1>(); v->mirrors.first->reflect(o);
                    if (W(2)) { v->mirrors.second = std::make_unique<typename Mirrors::M2>(); v->mirrors.second->reflect(*v->mirrors.first); }
                }
            }
            if (W(2))
            {
                v->foreign = std::make_unique<Foreign>(o, PkGetter{}, FkGetter{});
                if (W(2))
                {
                    v->groups = std::make_unique<GroupRecorder>();
                    for (auto& g : *v->foreign) v->groups->add(g);
                    v->foreign->Subscribe(v->groups.get());
                }
            }
            views[s].push_back(std::move(v));
        }
        void checkSource(int s)
        {
            Observed& o = *source[s]; const Contents& m = model[s];
            SIM_CHECK(o.size() == m.size() && o.empty() == m.empty(), "source", "the set has %zu elements and not %zu", o.size(), m.size());
            auto i = m.begin(); size_t n = 0;
            for (auto& x : o) { SIM_CHECK(i != m.end() && item(x).pk == i->first && item(x).id == i->second.id, "source", "the contents of the set are wrong"); SIM_CHECK(o.index_of(i->first) == n && item(o[n]).id == i->second.id, "source", "the index of an element is wrong"); ++i; ++n; }
            SIM_CHECK(i == m.end(), "source", "the set lacks elements");
        }
        // Everything else that can be asked.
        void accessAll(int s)
        {
            const auto v = inOrder(model[s], false);
            checkAccess(*source[s], v, false, "source"); checkAccess(std::as_const(*source[s]), v, false, "const source");
            for (auto& w : views[s])
            {
                if constexpr (copyable)
                {
                    if (w->mirrors.first)
                    {
                        auto& r = std::as_const(*w->mirrors.first); checkAccess(r, inOrder(model[s], true), true, "mirror");
                        using M1 = typename Mirrors::M1;
                        M1 other; other.reflect(*source[W(2)]); const bool same = other.size() == r.size() && std::equal(r.begin(), r.end(), other.begin(), [](auto& x, auto& y) { return item(x).pk == item(y).pk; });
                        SIM_CHECK((r == other) == same && (r != other) == !same, "equal", "comparison of mirrors is wrong");
                        if (!model[s].empty() && other.size() == r.size() && same)
                        {
                            bool thrown = false;
                            try { other.reflect(*source[s]); } catch (const std::logic_error&) { thrown = true; }
                            SIM_CHECK(thrown, "mirror", "elements are mirrored twice and it is not reported"); probe("mirrored twice");
                        }
                    }
                    if (w->mirrors.second) checkAccess(std::as_const(*w->mirrors.second), v, false, "mirror of a mirror");
                }
                if (w->foreign)
                {
                    auto& f = std::as_const(*w->foreign); std::map<int, std::vector<std::pair<int, int>>> groups;
                    for (auto& [pk, x] : model[s]) groups[x.key].emplace_back(pk, x.id);
                    size_t n = f.size();
                    for (auto i = f.rbegin(); i != f.rend(); ++i) { SIM_CHECK(n > 0 && &*i == &f[n - 1], "access", "backward iteration of the groups is wrong"); --n; }
                    SIM_CHECK(n == 0, "access", "backward iteration of the groups is short");
                    if (!f.empty()) SIM_CHECK(&f.front() == &f[0] && &f.back() == &f[f.size() - 1] && &f.at(f.size() - 1) == &f.back(), "access", "the first or last group is wrong");
                    bool thrown = false; try { (void)f.at(f.size()); } catch (const std::out_of_range&) { thrown = true; }
                    SIM_CHECK(thrown, "access", "an index of a group that is too large is accepted");
                    for (int k = 0; k < 7; ++k)
                    {
                        auto i = f.find(k); SIM_CHECK((i != f.end()) == (groups.count(k) > 0), "access", "group %d is %s", k, i != f.end() ? "found" : "not found");
                        if (i != f.end()) checkAccess(*i, groups[k], false, "group");
                    }
                }
            }
            probe("all access");
        }
        // An observer that is taken off hears nothing more, until it is put on again.
        void unsubscribed(int s, int pk, int fk, int id)
        {
            Observed& o = *source[s]; if (model[s].count(pk)) return;
            Recorder<T> r, q; for (auto& x : o) r.seen.emplace(item(x).pk, item(x).id);
            const auto before = r.seen;
            o.Subscribe(&r); o.Subscribe(&q); o.Unsubscribe(&r);
            o.insert(MakeItem<T>::make(pk, fk, id));
            SIM_CHECK(r.seen == before && q.seen.size() == 1, "notification", "an observer that was taken off is told of a change");
            o.Unsubscribe(&q); o.Subscribe(&q);
            SIM_CHECK(o.erase(pk) == 1 && q.seen.empty() && r.seen == before, "notification", "an observer that was put on again is not told of a change");
            if (W(2)) o.Unsubscribe(&q);
            probe("taken off");
        }
        void checkView(View& v, const Contents& m, const char* what)
        {
            SIM_CHECK(v.recorder->seen.size() == m.size(), "view", "%s: the notifications give %zu elements and the source has %zu", what, v.recorder->seen.size(), m.size());
            for (auto& [pk, x] : m) { auto i = v.recorder->seen.find(pk); SIM_CHECK(i != v.recorder->seen.end() && i->second == x.id, "view", "%s: the notifications give other contents than the source has", what); }
            if constexpr (copyable)
            {
                if (v.mirrors.first)
                {
                    auto& r = *v.mirrors.first;
                    SIM_CHECK(r.size() == m.size(), "mirror", "%s: the mirror has %zu elements and the source has %zu", what, r.size(), m.size());
                    auto i = m.rbegin(); for (auto& x : r) { SIM_CHECK(item(x).pk == i->first && item(x).id == i->second.id, "mirror", "%s: the mirror has other contents than the source", what); ++i; }
                }
                if (v.mirrors.second)
                {
                    auto& r = *v.mirrors.second;
                    SIM_CHECK(r.size() == m.size(), "mirror", "%s: the mirror of a mirror has %zu elements and the source has %zu", what, r.size(), m.size());
                    auto i = m.begin(); for (auto& x : r) { SIM_CHECK(item(x).pk == i->first && item(x).id == i->second.id, "mirror", "%s: the mirror of a mirror has other contents than the source", what); ++i; }
                }
            }
            if (v.foreign)
            {
                std::map<int, std::map<int, int>> groups;
                for (auto& [pk, x] : m) groups[x.key][pk] = x.id;
                Foreign& f = *v.foreign;
                SIM_CHECK(f.size() == groups.size() && f.empty() == groups.empty(), "foreign", "%s: there are %zu groups and not %zu", what, f.size(), groups.size());
                auto g = groups.begin(); size_t n = 0;
                for (auto& group : f)
                {
                    SIM_CHECK(group.size() == g->second.size(), "foreign", "%s: group %d has %zu elements and not %zu", what, g->first, group.size(), g->second.size());
                    auto i = g->second.begin();
                    for (auto& x : group) { SIM_CHECK(item(x).fk == g->first && item(x).pk == i->first && item(x).id == i->second, "foreign", "%s: group %d has wrong contents", what, g->first); ++i; }
                    SIM_CHECK(f.index_of(g->first) == n && &*f.find(g->first) == &group, "foreign", "%s: group %d is not found", what, g->first);
                    ++g; ++n;
                }
                if (v.groups)
                {
                    SIM_CHECK(v.groups->groups.size() == groups.size(), "group", "%s: the notifications of the groups give %zu groups and not %zu", what, v.groups->groups.size(), groups.size());
                    for (auto& [fk, items] : groups)
                    {
                        auto i = v.groups->groups.find(fk);
                        SIM_CHECK(i != v.groups->groups.end() && i->second->seen == items, "group", "%s: the notifications of group %d give wrong contents", what, fk);
                    }
                }
            }
        }
        void check(int s, const char* what) { checkSource(s); for (auto& v : views[s]) checkView(*v, model[s], what); }

        void run()
        {
            setup();
            int ids = 0; const int keys = int(tune({ 4, 10, 30 })), fks = int(tune({ 1, 3, 6 }));
            for (auto& s : source) s = std::make_unique<Observed>();
            for (int o = 10 + int(W(60)); o > 0; --o)
            {
                int s = int(W(2)), t = 1 - s, pk = int(W(uint32_t(keys))), fk = int(W(uint32_t(fks))), id = ++ids, op = int(W(22));
                Observed& a = *source[s]; Contents& m = model[s];
                ev("op", op, pk, s);
                switch (op)
                {
                case 0: case 1: case 2: case 3: case 4: case 5:
                {
                    std::pair<typename Observed::iterator, bool> r{ a.end(), false };
                    bool threw = false;
                    {
                        T v = MakeItem<T>::make(pk, fk, id);
                        int how = int(W(3));
                        Armed f(true, 12);
                        try
                        {
                            if constexpr (copyable) { if (how == 0) r = a.insert(std::as_const(v)); else if (how == 1) r = a.emplace(std::move(v)); else r = a.insert(std::move(v)); }
                            else { if (how == 0) r = a.emplace(std::move(v)); else r = a.insert(std::move(v)); }
                        }
                        catch (const Err&) { threw = true; }
                        catch (const std::bad_alloc&) { threw = true; }
                    }
                    if (!threw)
                    {
                        bool added = m.emplace(pk, KI{ fk, id }).second;
                        SIM_CHECK(added == r.second && item(*r.first).pk == pk && item(*r.first).id == m[pk].id, "result", "the result of an insertion is wrong");
                    }
                    else if (!m.count(pk) && a.size() > m.size())
                    {
                        // The element is stored and a view failed: it has to be built again.
                        m.emplace(pk, KI{ fk, id }); views[s].clear(); probe("an observer fails");
                    }
                    else probe("an insertion fails");
                    break;
                }
                case 6: case 7: case 8:
                {
                    size_t n = a.erase(pk);
                    SIM_CHECK(n == m.erase(pk), "result", "erase reports %zu", n);
                    break;
                }
                case 9: if (!m.empty()) { auto i = m.begin(); std::advance(i, long(W(uint32_t(m.size())))); a.erase(a.find(i->first)); m.erase(i); } break;
                case 10: if (W(3) == 0) { a.clear(); m.clear(); probe("cleared"); } break;
                case 11: case 12: if (views[s].size() < 3) attach(s); break;
                case 13: if (!views[s].empty()) views[s].erase(views[s].begin() + long(W(uint32_t(views[s].size())))); break;
                case 14: // the source moves, its views follow
                {
                    auto n = std::make_unique<Observed>(std::move(a));
                    SIM_CHECK(a.empty(), "source", "a set keeps elements after it was moved");
                    source[s] = std::move(n); probe("source moved");
                    break;
                }
                case 15: // t becomes s
                {
                    *source[t] = std::move(a);
                    for (auto& v : views[t]) checkView(*v, {}, "views of a set that was assigned to");
                    views[t] = std::move(views[s]); views[s].clear(); model[t] = m; m.clear(); probe("source assigned");
                    break;
                }
                case 16: source[t]->migrate(std::move(a)); model[t] = m; m.clear(); check(t, "migrated"); probe("migrated"); break;
                case 17:
                    if (W(3) == 0)
                    {
                        source[s] = nullptr; m.clear();
                        for (auto& v : views[s]) checkView(*v, {}, "views of a destroyed set");
                        views[s].clear(); source[s] = std::make_unique<Observed>(); probe("source destroyed first");
                    }
                    break;
                case 18: // the views move
                    for (auto& v : views[s])
                    {
                        if constexpr (copyable)
                        {
                            if (v->mirrors.first) v->mirrors.first = std::make_unique<typename Mirrors::M1>(std::move(*v->mirrors.first));
                            if (v->mirrors.first && W(3) == 0) // assigned to a mirror of something else that is mirrored itself
                            {
                                auto n = std::make_unique<typename Mirrors::M1>(); n->reflect(*source[W(2)]);
                                typename Mirrors::M2 f; f.reflect(*n);
                                *n = std::move(*v->mirrors.first);
                                SIM_CHECK(f.empty(), "mirror", "a mirror of a mirror that was assigned to keeps elements");
                                v->mirrors.first = std::move(n); probe("mirror assigned");
                            }
                            if (v->mirrors.second && W(2)) { typename Mirrors::M2 n; n = std::move(*v->mirrors.second); v->mirrors.second = std::make_unique<typename Mirrors::M2>(std::move(n)); }
                        }
                        if (v->foreign) v->foreign = std::make_unique<Foreign>(std::move(*v->foreign));
                        probe("view moved");
                    }
                    break;
                case 19:
                    if constexpr (copyable)
                    {
                        SIM_CHECK((*source[0] == *source[1]) == std::equal(model[0].begin(), model[0].end(), model[1].begin(), model[1].end(), [](auto& x, auto& y) { return x.first == y.first; }), "equal", "comparison is wrong");
                        SIM_CHECK((*source[0] != *source[1]) == !(*source[0] == *source[1]), "equal", "comparison is wrong");
                    }
                    break;
                case 20: accessAll(s); break;
                case 21: unsubscribed(s, pk, fk, id); break;
                }
                check(0, "after an operation"); check(1, "after an operation");
                uint64_t h = uint64_t(op) * 100 + model[0].size(); h = h * 100 + model[1].size(); state(h * 16 + views[0].size() * 4 + views[1].size());
            }
            if (W(2)) { for (int s : { 0, 1 }) { source[s] = nullptr; for (auto& v : views[s]) checkView(*v, {}, "views of a destroyed set"); views[s].clear(); } }
            else { for (int s : { 0, 1 }) { views[s].clear(); source[s] = nullptr; } }
            SIM_CHECK(cell(0) == 0, "live", "%lld elements are never destroyed", (long long)cell(0));
        }
    };
}
SIM_SCENARIO(set_views)
{
    switch (tune_n(3)) { case 0: { Views<Item> v; v.run(); break; } case 1: { Views<std::shared_ptr<Item>> v; v.run(); break; } default: { Views<std::unique_ptr<Item>> v; v.run(); } }
}

// ------------------------------------------------------------------------------------------------ C24
namespace
{
    struct Pooled;
    struct PoolWorld
    {
        awl::object_pool<Pooled>* pool = nullptr;
        std::vector<std::shared_ptr<Pooled>> owners;
        std::set<const Pooled*> out, finalizing, living;
        int constructed = 0; bool reentrant = false, quiet = false, keepChildren = false;
        void acquired(Pooled* p);
    };
    PoolWorld* world;
    struct Pooled : awl::pooled_object
    {
        uint32_t magic; std::unique_ptr<int> memory; std::shared_ptr<Pooled> child; int finalized = 0;
        Pooled() : magic(0), memory(new int(5)) { point(20); magic = Alive; ++cell(0); ++world->constructed; AllocFaults off(false); world->living.insert(this); }
        ~Pooled() override
        {
            SIM_CHECK(magic == Alive, "destroyed", "an object is destroyed twice");
            SIM_CHECK(!world->out.count(this), "destroyed", "an object is destroyed while it is owned");
            magic = Dead; --cell(0); world->living.erase(this);
        }
        void check() const { SIM_CHECK(magic == Alive && *memory == 5, "destroyed", "an object that is destroyed is used"); }
        void Finalize() override
        {
            AllocFaults off(false); check(); ++finalized;
            world->out.erase(this);
            SIM_CHECK(world->finalizing.insert(this).second, "finalized", "an object is finalized while it is being finalized");
            if (child && !world->keepChildren) { auto c = std::move(child); c = nullptr; } // or it is released when this object is destroyed
            if (world->reentrant && !world->quiet && world->owners.size() < 8 && chance(K_USER, 0.1))
            {
                auto p = world->pool->make();
                world->acquired(p.get()); world->owners.push_back(std::move(p)); probe("acquired while another one is finalized");
            }
            check(); world->finalizing.erase(this);
        }
    };
    void PoolWorld::acquired(Pooled* p)
    {
        p->check();
        SIM_CHECK(living.count(p) && !finalizing.count(p), "owner", "an object is given out while it is being finalized");
        SIM_CHECK(out.insert(p).second, "owner", "an object is given to two owners");
        SIM_CHECK(p->included(), "owner", "an object in use is not in the list of the pool");
    }
}
SIM_SCENARIO(object_pool)
{
    setup();
    PoolWorld w; world = &w; w.reentrant = W(2); w.keepChildren = W(2);
    {
        // A pool of its own, or the one that the whole process shares.
        const bool shared = W(3) == 0;
        std::optional<awl::object_pool<Pooled>> own; if (!shared) own.emplace();
        awl::object_pool<Pooled>& pool = shared ? awl::objectPoolSingleton<Pooled> : *own; w.pool = &pool;
        auto make = [&] { return shared ? awl::make_pooled<Pooled>() : pool.make(); };
        auto clear = [&] { if (shared) { awl::clear_pool<Pooled>(); probe("the shared pool is cleared"); } else pool.clear(); };
        std::vector<std::weak_ptr<Pooled>> weak;
        for (int o = 10 + int(W(80)); o > 0; --o)
        {
            switch (W(12))
            {
            case 0: case 1: case 2: case 3:
            {
                size_t freeNow = w.living.size() - w.out.size(); int made = w.constructed; auto outBefore = w.out;
                std::shared_ptr<Pooled> p;
                w.quiet = true;
                try { Armed f(true, 1); p = make(); }
                catch (const std::bad_alloc&) { probe("out of memory"); }
                catch (const Err&) { probe("the constructor throws"); }
                w.quiet = false;
                if (p)
                {
                    w.acquired(p.get());
                    if (freeNow) SIM_CHECK(w.constructed == made, "reuse", "a new object is made while %zu are free", freeNow);
                    AllocFaults off(false);
                    w.owners.push_back(std::move(p));
                }
                else
                {
                    SIM_CHECK(w.out == outBefore, "owner", "a failed acquisition changes the objects in use");
                    if (freeNow) SIM_CHECK(w.living.size() - w.out.size() == freeNow, "lost", "a failed acquisition loses a free object");
                }
                break;
            }
            case 4: // an object that the user has made
            {
                auto outBefore = w.out;
                std::unique_ptr<Pooled> q(new Pooled());
                std::shared_ptr<Pooled> p;
                w.quiet = true;
                try { Armed f(true, 1); p = pool.add(q.release()); }
                catch (const std::bad_alloc&) { probe("out of memory"); }
                w.quiet = false;
                if (p) { w.acquired(p.get()); w.owners.push_back(std::move(p)); } else { SIM_CHECK(w.out == outBefore, "owner", "a failed acquisition changes the objects in use"); }
                break;
            }
            case 5: if (!w.owners.empty()) w.owners.push_back(w.owners[W(uint32_t(w.owners.size()))]); break;
            case 6: case 7: case 8:
                if (!w.owners.empty())
                {
                    size_t i = W(uint32_t(w.owners.size()));
                    auto p = std::move(w.owners[i]); w.owners.erase(w.owners.begin() + long(i));
                    const Pooled* raw = p.get(); bool last = p.use_count() == 1; int fin = p->finalized;
                    if (W(2)) weak.push_back(p);
                    p = nullptr;
                    if (last) { SIM_CHECK(raw->finalized == fin + 1, "finalized", "a released object is finalized %d times", raw->finalized - fin); probe("released"); }
                    else SIM_CHECK(w.out.count(raw), "owner", "an object is released while it has an owner");
                }
                break;
            case 9: // one object owns another one
                if (w.owners.size() > 1)
                {
                    auto a = w.owners[0]; auto b = w.owners.back();
                    if (a != b && !a->child && !b->child && b.use_count() == 2) { b = nullptr; a->child = std::move(w.owners.back()); w.owners.pop_back(); probe("an object owns another one"); }
                }
                break;
            case 10: if (W(3) == 0)
                {
                    clear();
                    SIM_CHECK(w.living.size() == w.out.size(), "free", "%zu free objects remain after clearing", w.living.size() - w.out.size());
                    probe("cleared");
                }
                break;
            case 11: for (auto& x : weak) if (auto p = x.lock()) { p->check(); SIM_CHECK(w.out.count(p.get()), "owner", "a weak pointer locks an object that was released"); } weak.clear(); break;
            }
            for (auto& p : w.owners) { p->check(); SIM_CHECK(w.out.count(p.get()), "owner", "an object with an owner was released"); }
            SIM_CHECK(cell(0) == int64_t(w.living.size()), "live", "objects are miscounted");
            state(w.out.size() * 100 + w.living.size()); ev("objects", int64_t(w.out.size()), int64_t(w.living.size()), int64_t(w.owners.size()));
        }
        w.quiet = true;
        while (!w.owners.empty()) { auto p = std::move(w.owners.back()); w.owners.pop_back(); }
        if (w.keepChildren || shared) { clear(); SIM_CHECK(w.living.empty(), "free", "%zu objects remain after clearing", w.living.size()); }
        SIM_CHECK(w.out.empty(), "owner", "%zu objects are never released", w.out.size());
    }
    SIM_CHECK(cell(0) == 0, "live", "%lld objects are never destroyed", (long long)cell(0));
}
SIM_SCENARIO(unique_owner)
{
    setup();
    constexpr int N = 4;
    {
        awl::unique_ptr<ElM> p[N]; int model[N] = {}; ElM* raw[N] = {}; int ids = 0;
        for (int o = 5 + int(W(40)); o > 0; --o)
        {
            int a = int(W(N)), b = int(W(N)), id = ++ids;
            switch (W(7))
            {
            case 0: case 1:
                try { Armed f(true, 1); auto q = awl::make_unique<ElM>(id, id); f.off(); p[a] = std::move(q); model[a] = id; raw[a] = p[a].get(); }
                catch (const Err&) {} catch (const std::bad_alloc&) { probe("out of memory"); }
                break;
            case 2: if (a != b) { p[b] = std::move(p[a]); model[b] = model[a]; raw[b] = raw[a]; model[a] = 0; raw[a] = nullptr; } break;
            case 3: { awl::unique_ptr<ElM> q(std::move(p[a])); SIM_CHECK(!p[a], "owner", "a pointer keeps its object after a move"); if (W(2)) { p[a] = std::move(q); } else { model[a] = 0; raw[a] = nullptr; } break; }
            case 4: { ElM* e = W(2) ? new ElM(id, id) : nullptr; p[a].reset(e); model[a] = e ? id : 0; raw[a] = e; break; }
            case 5: { ElM* e = p[a].release(); SIM_CHECK(e == raw[a], "owner", "release returns another object"); SIM_CHECK(!p[a], "owner", "a pointer keeps its object after release"); delete e; model[a] = 0; raw[a] = nullptr; break; }
            case 6: SIM_CHECK((p[a] == p[b]) == (raw[a] == raw[b]) && (p[a] != p[b]) == (raw[a] != raw[b]), "equal", "comparison is wrong"); SIM_CHECK((p[a] == nullptr) == !raw[a] && (p[a] != nullptr) == (raw[a] != nullptr) && (p[a] == raw[b]) == (raw[a] == raw[b]) && (p[a] != raw[b]) == (raw[a] != raw[b]) && !(!p[a] && raw[a]), "equal", "comparison with a pointer is wrong"); break;
            }
            int live = 0;
            for (int i = 0; i < N; ++i)
            {
                SIM_CHECK(p[i].get() == raw[i] && bool(p[i]) == (raw[i] != nullptr), "owner", "a pointer owns another object");
                if (raw[i]) { p[i]->check(); SIM_CHECK((*p[i]).id == model[i], "owner", "an object is damaged"); ++live; }
            }
            SIM_CHECK(cell(0) == live, "live", "%lld objects live and %d are owned", (long long)cell(0), live);
            state(uint64_t(live)); for (int m : model) mix(uint64_t(m));
        }
    }
    SIM_CHECK(cell(0) == 0, "live", "%lld objects are never destroyed", (long long)cell(0));
}

// ------------------------------------------------------------------------------------------------ C26
namespace
{
    struct GuardLog { std::vector<int> ran, expected; int next = 0; };
    GuardLog* glog;
    // A copyable, movable action with memory: a moved-from one must not be run.
    struct Action
    {
        int id; std::unique_ptr<int> memory;
        explicit Action(int i) : id(i), memory(new int(i)) {}
        Action(const Action& o) : id(o.id), memory(new int(*o.memory)) {}
        Action(Action&& o) noexcept = default;
        Action& operator=(Action&&) noexcept = default;
        Action& operator=(const Action& o) { id = o.id; memory = std::make_unique<int>(*o.memory); return *this; }
        void operator()() const { SIM_CHECK(memory && *memory == id, "dead", "an action that was moved from is run"); AllocFaults off(false); glog->ran.push_back(id); }
    };
    template <class F> void mayFail(F f) { Armed a(true, 1); f(a); }
    // Every guard pushes its id to the front of what is expected when its scope ends.
    void guarded(int depth)
    {
        int id = ++glog->next;
        struct AtExit { int id = -1; ~AtExit() { if (id >= 0) glog->expected.push_back(id); } };
        AtExit exit1;                     // is destroyed right after the guard declared below
        switch (W(7))
        {
        case 0:
        {
            bool engaged = W(4) != 0;
            Action act(id); bool failed = false;
            // The action is moved, so nothing can fail.
            auto g = [&]
            {
                Armed f;
                try { if (engaged && W(2)) return awl::make_scope_guard(std::move(act)); if (engaged && W(2)) return awl::scope_guard<Action>(std::move(act)); return awl::make_scope_guard(std::move(act), engaged); }
                catch (const std::bad_alloc&) { failed = true; }
                f.off(); return awl::make_scope_guard(Action(id), false);
            }();
            SIM_CHECK(!failed, "failed", "a guard of an action that can be moved is not made");
            bool released = W(4) == 0; if (released) g.release();
            if (engaged && !released) exit1.id = id;
            if (depth < 4) guarded(depth + 1);
            if (W(8) == 0) { g.release(); exit1.id = -1; }
            if (pThrow > 0 && chance(K_THROW, pThrow)) { count_fault(K_THROW); probe("a scope is left by an exception"); throw Err{ id }; }
            break;
        }
        case 1: // with an initial action, which may throw
        {
            bool engaged = W(4) != 0, inited = false;
            if (W(3) == 0) // engaged by default
            {
                auto g = awl::make_scope_guard([&] { inited = true; }, Action(id));
                SIM_CHECK(inited, "init", "the initial action does not run");
                exit1.id = id;
                if (depth < 4) guarded(depth + 1);
                break;
            }
            auto g = awl::make_scope_guard([&] { if (pThrow > 0 && chance(K_THROW, pThrow)) { count_fault(K_THROW); probe("the initial action throws"); throw Err{ id }; } inited = true; }, Action(id), engaged);
            SIM_CHECK(inited == engaged, "init", "the initial action ran: %d, engaged: %d", int(inited), int(engaged));
            if (engaged) exit1.id = id;
            if (depth < 4) guarded(depth + 1);
            break;
        }
        case 2: // moved
        {
            bool engaged = W(3) != 0, releasedBefore = W(3) == 0;
            auto g = awl::make_scope_guard(Action(id), engaged);
            if (releasedBefore) g.release();
            size_t before = glog->ran.size();
            {
                bool failed = false;
                auto h = [&] { Armed f; try { return awl::scope_guard<Action>(std::move(g)); } catch (const std::bad_alloc&) { failed = true; } f.off(); return awl::make_scope_guard(Action(id), false); }();
                SIM_CHECK(!failed, "failed", "a guard of an action that can be moved is not moved");
                bool on = engaged && !releasedBefore;
                if (W(2)) { h.release(); on = false; }
                
                before = glog->ran.size();
                if (on) exit1.id = -2;               // runs here
                probe(engaged && !releasedBefore ? "an engaged guard moved" : "a disengaged guard moved");
            }
            bool ran = glog->ran.size() > before;
            SIM_CHECK(ran == (exit1.id == -2), "moved", "the action of a moved guard runs: %d", int(ran));
            if (ran) glog->expected.push_back(id);
            exit1.id = -1;
            if (depth < 4) guarded(depth + 1);
            break;
        }
        case 3: // type erased
        {
            std::optional<awl::virtual_guard> g;
            bool made = false;
            try { Action a(id); Armed f; g.emplace(awl::make_virtual_guard(std::move(a))); made = true; }
            catch (const std::bad_alloc&) { probe("out of memory"); }
            if (made) exit1.id = id;
            else { size_t n = 0; for (int x : glog->ran) n += x == id; for (size_t i = 0; i < n; ++i) glog->expected.push_back(id); SIM_CHECK(n == 0, "failed", "the action of a guard that could not be made runs"); }
            if (depth < 4) guarded(depth + 1);
            break;
        }
        case 4: // assigned to a guard that does nothing
        {
            awl::virtual_guard g = awl::make_fake_guard();
            if (W(2)) g.release();
            size_t before = glog->ran.size(); bool on = W(3) != 0;
            {
                awl::virtual_guard h = awl::make_virtual_guard(Action(id));
                if (!on) h.release();
                g = std::move(h);
            }
            SIM_CHECK(glog->ran.size() == before, "moved", "an action runs when the guard it was moved from is destroyed");
            if (on) exit1.id = id;
            if (depth < 4) guarded(depth + 1);
            if (pThrow > 0 && chance(K_THROW, pThrow)) { count_fault(K_THROW); throw Err{ id }; }
            break;
        }
        case 5: for (int i = int(W(3)); i > 0; --i) if (depth < 4) guarded(depth + 1); break;
        case 6: // within a destructor called because of another exception
        {
            struct Unwound { int depth; ~Unwound() { if (depth < 4) try { guarded(depth + 1); } catch (const Err&) { probe("exception while another one is handled"); } } };
            try { Unwound u{ depth }; throw 1; } catch (int) {}
            break;
        }
        }
    }
}
SIM_SCENARIO(scope_guards)
{
    setup();
    GuardLog l; glog = &l;
    for (int i = 1 + int(W(4)); i > 0; --i)
    {
        try { guarded(0); } catch (const Err&) { probe("exception"); }
        SIM_CHECK(l.ran == l.expected, "actions", "%zu actions ran and %zu were expected, or in another order", l.ran.size(), l.expected.size());
    }
    for (int x : l.ran) mix(uint64_t(x));
    state(l.ran.size());
}
