// C06: version tolerant, headered and plain loading is all or nothing.  C25: readers and writers report what fails.
#include "common.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/ObservableSet.h"
#include "Awl/VectorSet.h"
#include "Awl/Ring.h"
#include "Awl/BitMap.h"
#include "Awl/Decimal.h"
#if defined(RW) && (!defined(PART) || PART == 4)
#define WITH_BOOST
#include "BoostExtras/Io/Rw/MultiprecisionReadWrite.h"
#include "BoostExtras/MultiprecisionDecimalData.h"
#endif
#include <atomic>
#include <bitset>
#include <chrono>
#include <cstring>
#include <deque>
#include <functional>
#include <istream>
#include <ostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <streambuf>
#include <unordered_map>
#include <unordered_set>
#include <variant>

// This file is compiled in parts, each of which has some of the cases.
#ifndef PART
#define PART -1
#endif
#define IN_PART(n) (PART == -1 || PART == n)
#define MAIN_PART IN_PART(0)
#if !defined(RW) && !defined(LAYOUTS)
#define RW
#define LAYOUTS
#endif

using namespace sim;

namespace ser
{
    AWL_SEQUENTIAL_ENUM(Vehicle, Car, Train, AirPlain)
}
AWL_ENUM_TRAITS(ser, Vehicle)

namespace ser
{
    using Bytes = std::vector<uint8_t>;

    struct Injected0 { int n; };
    [[noreturn]] inline void throwSome(uint32_t what)
    {
        count_fault(K_STREAM);
        switch (what % 5)
        {
        case 0: throw awl::io::ReadFailException();
        case 1: throw awl::io::IoError(_T("injected"));
        case 2: throw std::runtime_error("injected");
        case 3: throw std::bad_alloc();
        default: throw Injected0{ 1 };
        }
    }

    // The transfers of a stream fail at a chosen one.
    struct Fail
    {
        int at = 0, kind = 0, count = 0; bool fired = false, shortTransfer = false;
        bool hit() { return at != 0 && ++count == at ? (fired = true) : false; }
    };

    struct SimIn : awl::io::SequentialInputStream
    {
        const Bytes& v; size_t pos = 0; Fail* f;
        explicit SimIn(const Bytes& x, Fail* y = nullptr) : v(x), f(y) {}
        bool End() override { return pos == v.size(); }
        size_t Read(uint8_t* b, size_t n) override
        {
            size_t k = std::min(n, v.size() - pos);
            if (f && n && f->hit())
            {
                size_t part = choose(K_STREAM, uint32_t(std::min(n, k)) + 1);
                if (part) memcpy(b, v.data() + pos, part);
                pos += part;
                if (f->shortTransfer) { count_fault(K_STREAM); if (part == std::min(n, k)) f->fired = false; return part; }
                throwSome(uint32_t(f->kind));
            }
            if (k) memcpy(b, v.data() + pos, k);
            pos += k;
            return k;
        }
    };
    struct SimOut : awl::io::SequentialOutputStream
    {
        Bytes& v; Fail* f;
        explicit SimOut(Bytes& x, Fail* y = nullptr) : v(x), f(y) {}
        void Write(const uint8_t* b, size_t n) override
        {
            if (f && n && f->hit())
            {
                size_t part = choose(K_STREAM, uint32_t(n));
                v.insert(v.end(), b, b + part);
                throwSome(uint32_t(f->kind));
            }
            v.insert(v.end(), b, b + n);
        }
    };
    // Stream buffers that end or fail.
    struct OutBuf : std::streambuf
    {
        Bytes& v; Fail* f;
        OutBuf(Bytes& x, Fail* y) : v(x), f(y) {}
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            if (n && f->hit())
            {
                size_t part = choose(K_STREAM, uint32_t(n));
                v.insert(v.end(), s, s + part);
                if (f->kind % 2) throw std::runtime_error("injected");
                return std::streamsize(part);
            }
            v.insert(v.end(), s, s + n);
            return n;
        }
        int overflow(int c) override { char ch = char(c); return xsputn(&ch, 1) == 1 ? c : EOF; }
    };
    struct InBuf : std::streambuf
    {
        const Bytes& v; size_t pos = 0; Fail* f;
        InBuf(const Bytes& x, Fail* y) : v(x), f(y) {}
        std::streamsize xsgetn(char* s, std::streamsize n) override
        {
            size_t k = std::min(size_t(n), v.size() - pos);
            if (f && n && f->hit()) { count_fault(K_STREAM); throw std::runtime_error("injected"); }
            if (k) memcpy(s, v.data() + pos, k);
            pos += k;
            return std::streamsize(k);
        }
        int underflow() override { return pos < v.size() ? v[pos] : EOF; }
        int uflow() override { int c = underflow(); if (c != EOF) ++pos; return c; }
    };

    // ---------------------------------------------------------------- structures
    struct Point { int x = 0; double y = 0; std::string name; AWL_REFLECT(x, y, name) };
    inline bool operator<(const Point& a, const Point& b) { return a.x != b.x ? a.x < b.x : a.name < b.name; }
    struct Tup
    {
        std::optional<std::string> o; std::vector<Point> points; std::array<bool, 11> bits{}; std::variant<int, std::string, Point> v; std::set<int> s;
        AWL_TUPLIZABLE(o, points, bits, v, s)
    };
    enum class Plain : int16_t { A = -4, B = 7 };

    template <class T> bool same(const std::optional<T>& a, const std::optional<T>& b);
    template <class T> bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b);
    template <class T> bool same(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b);
    template <class T> bool same(const std::atomic<T>& a, const std::atomic<T>& b);
    template <class A, class B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b);
    template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b);
    template <class T> bool same(const std::deque<T>& a, const std::deque<T>& b);
    template <class T> bool same(const std::set<T>& a, const std::set<T>& b);
    template <class T> bool same(const awl::vector_set<T>& a, const awl::vector_set<T>& b);
    template <class T> bool same(const awl::observable_set<T>& a, const awl::observable_set<T>& b);
    template <class T> bool same(const awl::ring<T>& a, const awl::ring<T>& b);
    // A ring has to know its capacity before it is read.
    template <class T> struct Ring64 : awl::ring<T> { Ring64() : awl::ring<T>(64) {} };
    template <class T> bool same(const Ring64<T>& a, const Ring64<T>& b) { return same(static_cast<const awl::ring<T>&>(a), static_cast<const awl::ring<T>&>(b)); }
    template <class K, class T> bool same(const std::map<K, T>& a, const std::map<K, T>& b);
    template <class T, size_t N> bool same(const std::array<T, N>& a, const std::array<T, N>& b);
    template <class K, class T> bool same(const std::unordered_map<K, T>& a, const std::unordered_map<K, T>& b);
    template <class... Ts> bool same(const std::variant<Ts...>& a, const std::variant<Ts...>& b);
    template <class T> bool same(const T& a, const T& b);
    inline void make(std::string& s);
    inline void make(std::wstring& s);
    template <class T> void make(std::optional<T>& o);
    template <class T> void make(std::shared_ptr<T>& o);
    template <class T> void make(std::unique_ptr<T>& o);
    template <class T> void make(std::atomic<T>& o);
    template <class T> void make(std::vector<T>& v);
    template <class T> void make(std::deque<T>& v);
    template <class T> void make(awl::ring<T>& v);
    template <class T> void make(Ring64<T>& v) { make(static_cast<awl::ring<T>&>(v)); }
    template <class T> void make(std::set<T>& s);
    template <class T> void make(std::unordered_set<T>& s);
    template <class T> void make(awl::vector_set<T>& s);
    template <class T> void make(awl::observable_set<T>& s);
    template <class K, class T> void make(std::map<K, T>& s);
    template <class K, class T> void make(std::unordered_map<K, T>& s);
    template <class T, size_t N> void make(std::array<T, N>& a);
    template <size_t N> void make(std::bitset<N>& b);
    template <class E, std::underlying_type_t<E> N> void make(awl::bitmap<E, N>& b);
    template <class C, class D> void make(std::chrono::time_point<C, D>& t);
    template <class U, uint8_t N, template <typename, uint8_t> class D> void make(awl::decimal<U, N, D>& d);
#ifdef WITH_BOOST
    template <class B, boost::multiprecision::expression_template_option E> void make(boost::multiprecision::number<B, E>& n);
#endif
    template <class... Ts> void make(std::variant<Ts...>& v);
    inline void make(Vehicle& v);
    inline void make(Plain& v);
    template <class T> void make(T& t);

    // ---------------------------------------------------------------- equality, deep
    template <class C> bool sameRange(const C& a, const C& b)
    {
        if (a.size() != b.size()) return false;
        auto i = a.begin(); auto j = b.begin();
        for (; i != a.end(); ++i, ++j) if (!same(*i, *j)) return false;
        return true;
    }
    template <class T> bool same(const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
    template <class T> bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return !a == !b && (!a || same(*a, *b)); }
    template <class T> bool same(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return !a == !b && (!a || same(*a, *b)); }
    template <class T> bool same(const std::atomic<T>& a, const std::atomic<T>& b) { return same(a.load(), b.load()); }
    template <class A, class B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }
    template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b) { return sameRange(a, b); }
    template <class T> bool same(const std::deque<T>& a, const std::deque<T>& b) { return sameRange(a, b); }
    template <class T> bool same(const std::set<T>& a, const std::set<T>& b) { return sameRange(a, b); }
    template <class T> bool same(const awl::vector_set<T>& a, const awl::vector_set<T>& b) { return sameRange(a, b); }
    template <class T> bool same(const awl::observable_set<T>& a, const awl::observable_set<T>& b) { return sameRange(a, b); }
    template <class T> bool same(const awl::ring<T>& a, const awl::ring<T>& b) { return sameRange(a, b); }
    template <class K, class T> bool same(const std::map<K, T>& a, const std::map<K, T>& b) { return sameRange(a, b); }
    template <class T, size_t N> bool same(const std::array<T, N>& a, const std::array<T, N>& b) { return sameRange(a, b); }
    template <class K, class T> bool same(const std::unordered_map<K, T>& a, const std::unordered_map<K, T>& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& [k, x] : a) { auto i = b.find(k); if (i == b.end() || !same(x, i->second)) return false; }
        return true;
    }
    template <class... Ts> bool same(const std::variant<Ts...>& a, const std::variant<Ts...>& b)
    {
        return a.index() == b.index() && std::visit([&](auto& x) { return same(x, std::get<std::decay_t<decltype(x)>>(b)); }, a);
    }
    template <class T> bool same(const T& a, const T& b)
    {
        if constexpr (awl::is_tuplizable_v<T>)
        {
            auto x = awl::object_as_const_tuple(a); auto y = awl::object_as_const_tuple(b);
            return [&]<size_t... I>(std::index_sequence<I...>) { return (true && ... && same(std::get<I>(x), std::get<I>(y))); }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
        }
        else return a == b;
    }

    // ---------------------------------------------------------------- generation
    inline int64_t num()
    {
        switch (W(4)) { case 0: return int64_t(W(5)); case 1: return -int64_t(W(1000)); case 2: return int64_t(W(256)) << 24; default: return int64_t(scn::mixup(W(1u << 30))); }
    }
    inline size_t len() { return W(5) == 0 ? W(40) : W(4); }
    // At most one value of a run is long: more than a byte of its length is needed, or more than two.
    inline bool longMade = false;
    inline size_t longLen(bool nodes = false)
    {
#ifdef RW
        nodes = false;
#endif
        if (longMade || W(60) != 0) return 0;
        longMade = true;
        size_t n = !nodes && W(8) == 0 ? 65500 + W(80) + (W(2) ? W(5000) : 0) : 250 + W(20) + (W(2) ? W(5000) : 0);
        probe(n > 65535 ? "a value of more than 65535 elements" : "a value of more than 250 elements");
        return n;
    }
    template <class C> void makeString(std::basic_string<C>& s)
    {
        s.clear();
        if (size_t n = longLen()) { uint64_t x = W(1u << 20); s.resize(n); for (size_t i = 0; i < n; ++i) s[i] = C('a' + scn::mixup(x + i) % 26); return; }
        for (size_t i = len(); i > 0; --i) s.push_back(C('a' + W(26)));
    }
    inline void make(std::string& s) { makeString(s); }
    inline void make(std::wstring& s) { makeString(s); }
    template <class T> void make(std::optional<T>& o) { if (W(3)) { T t{}; make(t); o = std::move(t); } else o.reset(); }
    template <class T> void make(std::shared_ptr<T>& o) { if (W(3)) { o = std::make_shared<T>(); make(*o); } else o.reset(); }
    template <class T> void make(std::unique_ptr<T>& o) { if (W(3)) { o = std::make_unique<T>(); make(*o); } else o.reset(); }
    template <class T> void make(std::atomic<T>& o) { T t{}; make(t); o = t; }
    template <class T> void make(std::vector<T>& v)
    {
        v.clear();
        if constexpr (std::is_arithmetic_v<T>)
            if (size_t n = longLen()) { uint64_t x = W(1u << 20); v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = T(scn::mixup(x + i) & (std::is_same_v<T, bool> ? 1 : 0xFFFF)); return; }
        for (size_t i = len(); i > 0; --i) { T t{}; make(t); v.push_back(std::move(t)); }
    }
    template <class T> void make(std::deque<T>& v) { v.clear(); if constexpr (std::is_integral_v<T>) if (size_t n = longLen()) { for (size_t i = 0; i < n; ++i) v.push_back(T(i * 7 & 0x7FFF)); return; } for (size_t i = len(); i > 0; --i) { T t{}; make(t); v.push_back(std::move(t)); } }
    template <class T> void make(awl::ring<T>& v)
    {
        if (!v.capacity()) v.reserve(64);
        v.clear();
        for (size_t i = len(); i > 0; --i) { T t{}; make(t); v.push_back(std::move(t)); }
    }
    template <class S> void makeSet(S& s) { s.clear(); if constexpr (std::is_integral_v<typename S::value_type> && sizeof(typename S::value_type) >= 4) if (size_t n = longLen(true)) { for (size_t i = 0; i < n; ++i) s.insert(typename S::value_type(i * 3)); return; } for (size_t i = len(); i > 0; --i) { typename S::value_type t{}; make(t); s.insert(t); } }
    template <class T> void make(std::set<T>& s) { makeSet(s); }
    template <class T> void make(std::unordered_set<T>& s) { makeSet(s); }
    template <class T> void make(awl::vector_set<T>& s) { makeSet(s); }
    template <class T> void make(awl::observable_set<T>& s) { makeSet(s); }
    template <class S> void makeMap(S& s) { s.clear(); if constexpr (std::is_integral_v<typename S::key_type> && sizeof(typename S::key_type) >= 4) if (size_t n = longLen(true)) { for (size_t i = 0; i < n; ++i) s.emplace(typename S::key_type(i * 3), typename S::mapped_type{}); return; } for (size_t i = len(); i > 0; --i) { typename S::key_type k{}; make(k); typename S::mapped_type t{}; make(t); s.emplace(std::move(k), std::move(t)); } }
    template <class K, class T> void make(std::map<K, T>& s) { makeMap(s); }
    template <class K, class T> void make(std::unordered_map<K, T>& s) { makeMap(s); }
    template <class T, size_t N> void make(std::array<T, N>& a) { for (auto& x : a) make(x); }
    template <size_t N> void make(std::bitset<N>& b) { for (size_t i = 0; i < N; ++i) b[i] = W(2); }
    template <class E, std::underlying_type_t<E> N> void make(awl::bitmap<E, N>& b) { for (size_t i = 0; i < b.size(); ++i) b[E(i)] = W(2); }
    template <class C, class D> void make(std::chrono::time_point<C, D>& t) { t = std::chrono::time_point<C, D>(std::chrono::duration_cast<D>(std::chrono::nanoseconds(num() / 4))); }
    template <class U, uint8_t N, template <typename, uint8_t> class D> void make(awl::decimal<U, N, D>& d) { d = awl::decimal<U, N, D>(int64_t(W(100000)), uint8_t(W(4))); }
#ifdef WITH_BOOST
    template <class B, boost::multiprecision::expression_template_option E> void make(boost::multiprecision::number<B, E>& n)
    {
        using Number = boost::multiprecision::number<B, E>;
        uint32_t bits = std::numeric_limits<Number>::digits; if (bits > 1000) bits = 1000; // one byte holds the length
        if (W(3) == 0) bits = W(bits + 1);
        n = 0;
        for (uint32_t i = 0; i < bits; i += 8) { uint32_t k = std::min(8u, bits - i); n <<= k; n |= W(3) ? W(1u << k) : (1u << k) - 1; }
        if constexpr (std::numeric_limits<Number>::is_signed) if (W(2)) n = -n;
    }
#endif
    template <class T, class V> void makeAlternative(V& v) { T t{}; make(t); v = std::move(t); }
    template <class... Ts> void make(std::variant<Ts...>& v)
    {
        size_t which = W(sizeof...(Ts)), i = 0;
        ((i++ == which ? makeAlternative<Ts>(v) : void()), ...);
    }
    inline void make(Vehicle& v) { v = Vehicle(W(3)); }
    inline void make(Plain& v) { v = Plain(int16_t(num())); }
    template <class T> void make(T& t)
    {
        if constexpr (std::is_same_v<T, bool>) t = W(2);
        else if constexpr (std::is_integral_v<T>) t = T(num());
        else if constexpr (std::is_floating_point_v<T>) t = T(num()) / 8;
        else awl::for_each(awl::object_as_tuple(t), [](auto& x) { make(x); });
    }

    inline double pStream, pAlloc;
    using Kind = void (*)();
    struct Case { Kind f; };
    inline std::vector<Case>& rwCases(int part) { static std::vector<Case> v[8]; return v[part]; }
    inline std::vector<Case>& layoutCases(int part) { static std::vector<Case> v[8]; return v[part]; }
    // The order does not depend on the order of linking.
    inline Kind pick(std::vector<Case>& (*cases)(int))
    {
        size_t n = 0; for (int i = 0; i < 8; ++i) n += cases(i).size();
        size_t k = W(uint32_t(n));
        for (int i = 0;; ++i) { if (k < cases(i).size()) return cases(i)[k].f; k -= cases(i).size(); }
    }
    struct Add { Add(std::vector<Case>& v, std::initializer_list<Kind> l) { for (Kind k : l) v.push_back({ k }); } };

#ifdef RW

    // ------------------------------------------------------------ C25: one kind of value
    template <class T, class In> void readFrom(In& in, T& t, bool limited, size_t limit)
    {
        if (limited) awl::io::Read(in, t, awl::io::LimitedContext(limit));
        else awl::io::Read(in, t);
    }
    template <class T> void kind(const char* name)
    {
        T value{}, target{}; make(value);
        const bool limited = W(4) == 0; const size_t limit = longMade ? 1000000 : 1000;
        Bytes data; { SimOut out(data); awl::io::Write(out, value); }
        ev(name, int64_t(data.size()));
        {
            awl::io::MeasureStream m; awl::io::Write(m, value);
            SIM_CHECK(m.GetLength() == data.size(), "measure", "%s: %zu bytes are measured and %zu written", name, m.GetLength(), data.size());
        }
        // Writing to something that fails.
        if (tune_n(2))
        {
            Fail f; f.at = 1 + int(W(12)); f.kind = int(W(5));
            Bytes part; bool thrown = false;
            {
                const bool standard = W(3) == 0;
                SimOut out(part, &f);
                try
                {
                    if (standard) { OutBuf buf(part, &f); std::ostream os(&buf); awl::io::StdOutputStream low(os); awl::io::Write(low, value); }
                    else awl::io::Write(out, value);
                }
                catch (const awl::io::IoException&) { thrown = true; }
                catch (...) { thrown = true; SIM_CHECK(!standard, "write", "%s: a failing standard stream is not reported as an I/O error", name); }
            }
            SIM_CHECK(thrown == f.fired, "write", "%s: a write that %s is reported as %s", name, f.fired ? "failed" : "completed", thrown ? "failed" : "completed");
            SIM_CHECK(part.size() <= data.size() && std::equal(part.begin(), part.end(), data.begin()) && (thrown || part.size() == data.size()), "write", "%s: what was written differs", name);
            if (thrown) probe("a write fails");
        }
        {
            Bytes part; bool thrown = false; Bytes two;
            awl::io::VectorOutputStream out(part);
            uint32_t before = alloc_failures();
            {
                AllocFaults on(pAlloc > 0); fail_nth_alloc(pAlloc > 0 ? choose_p(K_ALLOC, 12, pAlloc) : 0);
                try { awl::io::Write(out, value); } catch (const std::bad_alloc&) { thrown = true; }
                fail_nth_alloc(0);
            }
            SIM_CHECK(thrown == (alloc_failures() != before), "write", "%s: an allocation that failed while writing is not reported", name);
            if (!thrown) SIM_CHECK(part == data, "write", "%s: what was written differs", name);
        }
        // Reading, several times into the same target.
        int tries = 1 + int(W(5));
        for (int i = 0; i < tries; ++i)
        {
            if (W(2)) { bool keep = std::exchange(longMade, true); make(target); longMade = keep; }
            bool cutIt = i + 1 < tries && W(2) && !data.empty();
            size_t cut = cutIt ? W(uint32_t(data.size())) : data.size();
            // Something may follow the value.
            size_t more = cutIt ? 0 : W(3) * 5;
            Bytes src(data.begin(), data.begin() + long(cut)); src.resize(src.size() + more, 0xEE); src.shrink_to_fit();
            Fail f; 
            if (i + 1 < tries && pStream > 0 && choose_p(K_STREAM, 2, pStream)) { f.at = 1 + int(W(14)); f.kind = int(W(5)); f.shortTransfer = W(3) == 0; }
            bool thrown = false, reported = false; size_t used = 0; int via = int(W(4)); bool exact = true;
            uint32_t before = alloc_failures();
            {
                bool allocs = i + 1 < tries && pAlloc > 0;
                AllocFaults on(allocs); fail_nth_alloc(allocs ? choose_p(K_ALLOC, 16, pAlloc) : 0);
                try
                {
                    if (via == 0) { awl::io::VectorInputStream in(src); f.at = 0; readFrom(in, target, limited, limit); exact = false; SIM_CHECK(in.End() == (more == 0), "position", "%s: the stream is%s at the end", name, more ? "" : " not"); }
                    else if (via == 1) { InBuf buf(src, &f); std::istream is(&buf); awl::io::StdInputStream in(is); f.shortTransfer = false; readFrom(in, target, limited, limit); used = buf.pos; SIM_CHECK(in.End() == (more == 0), "position", "%s: the standard stream is%s at the end", name, more ? "" : " not"); }
                    else if (via == 2) { SimIn in(src, &f); awl::io::SequentialInputStream& base = in; readFrom(base, target, limited, limit); used = in.pos; }
                    else { SimIn in(src, &f); readFrom(in, target, limited, limit); used = in.pos; }
                }
                catch (const awl::io::IoException&) { thrown = true; reported = !f.fired || f.shortTransfer; }
                catch (const std::bad_alloc&) { thrown = true; }
                catch (const std::exception&) { thrown = true; }
                catch (const Injected0&) { thrown = true; }
                fail_nth_alloc(0);
            }
            bool allocFailed = alloc_failures() != before;
            ev("read", thrown, int64_t(cut), via);
            if (cutIt)
            {
                SIM_CHECK(thrown, "accepted", "%s: %zu of %zu bytes are accepted as a value", name, cut, data.size());
                if (!f.fired && !allocFailed) SIM_CHECK(reported, "report", "%s: the end of the data is not reported as an I/O error", name);
                probe("cut data");
            }
            if (f.fired) { SIM_CHECK(thrown, "accepted", "%s: a transfer that failed is not reported", name); probe("a transfer fails"); }
            if (allocFailed) { SIM_CHECK(thrown, "accepted", "%s: an allocation that failed is not reported", name); probe("an allocation fails"); }
            if (thrown) SIM_CHECK(cutIt || f.fired || allocFailed, "refused", "%s: complete data is refused", name);
            else
            {
                SIM_CHECK(same(value, target), "value", "%s: the value read differs from the value written", name);
                if (exact) SIM_CHECK(used == data.size(), "position", "%s: %zu bytes of %zu are consumed", name, used, data.size());
            }
            state(scn::mixup(std::hash<std::string_view>{}(name) ^ cut) + data.size() * 4 + uint64_t(thrown));
        }
        // Ended by a limit.
        if constexpr (std::is_same_v<T, std::string>)
        {
            size_t lim = W(10); bool thrown = false, thrownIn = false; T t; Bytes x;
            SimOut out(x); SimIn in(data);
            try { awl::io::Write(out, value, awl::io::LimitedContext(lim)); } catch (const awl::io::IoError&) { thrown = true; }
            try { awl::io::Read(in, t, awl::io::LimitedContext(lim)); } catch (const awl::io::IoError&) { thrownIn = true; }
            SIM_CHECK(thrown == (value.size() > lim) && thrownIn == thrown, "limit", "a string of %zu with the limit %zu is %s written and %s read", value.size(), lim, thrown ? "not" : "", thrownIn ? "not" : "");
            SIM_CHECK(!thrown || x.empty(), "limit", "a part of a string over the limit is written");
        }
    }

    using Dec = awl::decimal<uint64_t, 4>;
#if IN_PART(0)
    const Add add_rwCases0(rwCases(0), {
        [] { kind<int32_t>("int"); },
        [] { kind<std::string>("string"); },
        [] { kind<std::vector<std::string>>("vector<string>"); },
        [] { kind<std::array<int, 5>>("array<int>"); },
        [] { kind<std::optional<std::vector<std::string>>>("optional<vector<string>>"); },
        [] { kind<std::set<int>>("set<int>"); },
        [] { kind<std::map<int, std::set<std::string>>>("map<int, set<string>>"); },
        [] { kind<awl::vector_set<std::string>>("vector_set<string>"); },
        [] { kind<Vehicle>("enum"); },
        [] { kind<Dec>("decimal"); },
    });
#endif
#if IN_PART(1)
    const Add add_rwCases1(rwCases(1), {
        [] { kind<uint8_t>("byte"); },
        [] { kind<std::wstring>("wstring"); },
        [] { kind<std::vector<std::vector<std::wstring>>>("vector<vector<wstring>>"); },
        [] { kind<std::array<bool, 19>>("array<bool>"); },
        [] { kind<std::shared_ptr<std::string>>("shared_ptr<string>"); },
        [] { kind<std::set<std::string>>("set<string>"); },
        [] { kind<std::unordered_map<std::string, std::vector<int>>>("unordered_map<string, vector<int>>"); },
        [] { kind<awl::observable_set<std::string>>("observable_set<string>"); },
        [] { kind<Plain>("other enum"); },
        [] { kind<Point>("structure"); },
    });
#endif
#if IN_PART(2)
    const Add add_rwCases2(rwCases(2), {
        [] { kind<bool>("bool"); },
        [] { kind<std::vector<int>>("vector<int>"); },
        [] { kind<std::vector<std::optional<std::string>>>("vector<optional<string>>"); },
        [] { kind<std::array<std::string, 3>>("array<string>"); },
        [] { kind<std::unique_ptr<std::vector<int>>>("unique_ptr<vector<int>>"); },
        [] { kind<std::unordered_set<std::string>>("unordered_set<string>"); },
        [] { kind<std::deque<std::string>>("deque<string>"); },
        [] { kind<std::unordered_set<int>>("unordered_set<int>"); },
        [] { kind<Ring64<int>>("ring<int>"); },
        [] { kind<std::unordered_map<int, bool>>("unordered_map<int, bool>"); },
        [] { kind<std::bitset<13>>("bitset"); },
        [] { kind<std::atomic<int>>("atomic<int>"); },
        [] { kind<Tup>("nested structure"); },
    });
#endif
#if IN_PART(3)
    const Add add_rwCases3(rwCases(3), {
        [] { kind<double>("double"); },
        [] { kind<std::vector<bool>>("vector<bool>"); },
        [] { kind<std::vector<std::set<std::string>>>("vector<set<string>>"); },
        [] { kind<std::optional<int>>("optional<int>"); },
        [] { kind<std::variant<int, std::string, Point, std::vector<int>>>("variant"); },
        [] { kind<std::map<std::string, int>>("map<string, int>"); },
        [] { kind<awl::vector_set<int>>("vector_set<int>"); },
        [] { kind<awl::observable_set<int64_t>>("observable_set<int64>"); },
        [] { kind<std::deque<int>>("deque<int>"); },
        [] { kind<Ring64<std::string>>("ring<string>"); },
        [] { kind<std::map<int, int>>("map<int, int>"); },
        [] { kind<awl::bitmap<Vehicle>>("bitmap"); },
        [] { kind<std::chrono::system_clock::time_point>("time_point"); },
        [] { kind<std::map<std::string, Tup>>("map<string, structure>"); },
    });
#endif
#ifdef WITH_BOOST
    namespace bmp = boost::multiprecision;
    // A number whose length does not fit is either refused or can be read.
    template <class N> void longNumber()
    {
        N value = 1, target = 7; value <<= 1000 + W(23); value += N(num()) & 0xFFFF;
        Bytes data; SimOut out(data); bool thrown = false;
        try { awl::io::Write(out, value); } catch (const awl::io::IoException&) { thrown = true; }
        if (thrown) { SIM_CHECK(data.empty(), "write", "a part of a number that is too long is written"); SIM_CHECK(value >= (N(1) << 1016), "write", "a number that fits is refused"); probe("a number is too long"); return; }
        SimIn in(data);
        try { awl::io::Read(in, target); } catch (const awl::io::IoException&) { fail("refused", "a number that was written is refused"); }
        SIM_CHECK(value == target && in.pos == data.size(), "value", "a long number is read as another one");
    }
    const Add add_rwCases4(rwCases(4), {
        [] { kind<bmp::uint128_t>("uint128"); },
        [] { kind<bmp::int128_t>("int128"); },
        [] { kind<bmp::uint256_t>("uint256"); },
        [] { kind<bmp::int512_t>("int512"); },
        [] { kind<bmp::uint1024_t>("uint1024"); },
        [] { if (W(2)) longNumber<bmp::uint1024_t>(); else longNumber<bmp::int1024_t>(); },
        [] { kind<std::vector<bmp::int256_t>>("vector<int256>"); },
        [] { kind<std::map<bmp::int128_t, std::string>>("map<int128, string>"); },
        [] { kind<std::optional<bmp::uint512_t>>("optional<uint512>"); },
        [] { kind<awl::decimal<bmp::uint128_t, 4, awl::MultiprecisionDecimalData>>("long decimal"); },
    });
#endif
#endif
}
#if defined(RW) && MAIN_PART
SIM_SCENARIO(readers_and_writers)
{
    using namespace ser;
    pStream = tune({ 0, 0.2, 0.5 }); pAlloc = tune({ 0, 0, 0.2, 0.5 });
    int n = 1 + int(W(4));
    longMade = false;
    for (int i = 0; i < n; ++i) pick(rwCases)();
}
#endif

// ------------------------------------------------------------------------------------------------ C06
#ifdef LAYOUTS
namespace ser
{
    // Three versions of one value. Fields are added (with defaults), removed, renamed and moved, also in the nested ones.
    namespace v0 // a program that only writes; the leaf has no fields yet
    {
        struct Leaf { AWL_REFLECT() };
        struct Root { int a = 0; Leaf leaf; std::string b; std::vector<Leaf> leaves; std::map<std::string, int> m; AWL_REFLECT(a, leaf, b, leaves, m) };
    }
    // Types whose names differ but not the stored bytes.
    namespace ty1
    {
        struct Inner { int z = 0; std::array<short, 2> q{}; std::string t; AWL_REFLECT(z, q, t) };
        struct Root { int a = 0; std::array<short, 2> p{}; std::vector<Inner> v; std::array<int64_t, 2> r{}; std::string s; std::optional<int> o; AWL_REFLECT(a, p, v, r, s, o) };
    }
    namespace ty2
    {
        struct Inner { std::array<signed char, 4> q{}; std::string t; int z = 0; int added = 5; AWL_REFLECT(q, t, z, added) };
        struct Root { std::string s; std::vector<Inner> v; std::array<int, 4> r{}; std::array<signed char, 4> p{}; int a = 0; std::optional<int> o; AWL_REFLECT(s, v, r, p, a, o) };
    }
    // Fields are appended only, or containers of structures are removed and the name of a renamed field is used again.
    namespace ap1
    {
        struct Leaf { int x = 0; std::string s; AWL_REFLECT(x, s) };
        struct Dead { std::string t; int u = 0; std::vector<int> w; Leaf inner; AWL_REFLECT(t, u, w, inner) };
        struct Root
        {
            int a = 0; std::map<std::string, Dead> dead; Leaf leaf; std::string x; std::map<int, Dead> deadMap; std::vector<Leaf> leaves; std::optional<Dead> od; std::string b; Dead one; std::vector<std::string> n;
            AWL_REFLECT(a, dead, leaf, x, deadMap, leaves, od, b, one, n)
        };
    }
    namespace ap2
    {
        struct Leaf { int x = 0; std::string s; int added = 5; std::string more = "m"; AWL_REFLECT(x, s, added, more) };
        struct Dead { std::string t; int u = 0; std::vector<int> w; Leaf inner; AWL_REFLECT(t, u, w, inner) };
        struct Root
        {
            int a = 0; std::string x = "fresh"; Leaf leaf; std::vector<Leaf> leaves; std::string moved = "default"; std::string b; std::vector<std::string> n{ "n" };
            AWL_REFLECT(a, x, leaf, leaves, moved, b, n) // x renamed to moved, another x added
        };
    }
    namespace ap3
    {
        struct Root
        {
            int a = 0; std::map<std::string, ap2::Dead> dead; ap2::Leaf leaf; std::string x; std::map<int, ap2::Dead> deadMap; std::vector<ap2::Leaf> leaves; std::optional<ap2::Dead> od; std::string b; ap2::Dead one; std::vector<std::string> n; std::vector<int> after{ 1, 2 }; std::string last = "last";
            AWL_REFLECT(a, dead, leaf, x, deadMap, leaves, od, b, one, n, after, last)
        };
    }
    namespace v1
    {
        struct Leaf { int x = 0; std::string s; std::optional<int> gone; double d = 0; AWL_REFLECT(x, s, gone, d) };
        struct Old { std::string a; int b = 0; AWL_REFLECT(a, b) };
        struct Root
        {
            int a = 0; std::string b; Leaf leaf; std::vector<Leaf> leaves; std::map<std::string, int> m; Old old; bool flag = false; std::vector<int> numbers; std::optional<std::string> os; std::set<int> set;
            AWL_REFLECT(a, b, leaf, leaves, m, old, flag, numbers, os, set)
        };
    }
    namespace v2
    {
        struct Leaf { std::string s; int64_t added = 77; int y = 5; double d = 0; AWL_REFLECT(s, added, y, d) }; // gone removed, x renamed to y
        struct New { int q = 4; std::string text = "new"; AWL_REFLECT(q, text) };
        struct Root
        {
            std::vector<Leaf> leaves; New fresh; std::string b; std::set<int> set{ 900, 901 }; std::optional<std::string> os{ "default" }; Leaf leaf; std::map<std::string, int> m; std::vector<int> renamed; int a = 3; std::vector<std::string> more{ "x", "y" };
            AWL_REFLECT(leaves, fresh, b, set, os, leaf, m, renamed, a, more) // old, flag removed, numbers renamed
        };
    }
    namespace v3
    {
        struct Leaf { double d = 1; int y = 6; std::string s = "leaf"; AWL_REFLECT(d, y, s) }; // added removed
        struct Root
        {
            int a = 9; std::vector<Leaf> leaves; std::map<std::string, int> m{ { "k", 1 } }; std::shared_ptr<std::string> p; std::vector<int> renamed; std::string b; bool flag = true;
            AWL_REFLECT(a, leaves, m, p, renamed, b, flag) // leaf, fresh, os, set, more removed, flag is back
        };
    }
    // Layouts that do not fit.
    namespace bad
    {
        struct Leaf { int x = 0; std::string s; std::string d; AWL_REFLECT(x, s, d) }; // d was a number
        struct Late { int a = 0; std::string b; std::vector<Leaf> leaves; AWL_REFLECT(a, b, leaves) };
        struct Scalar { int a = 1; std::string b; int leaf = 7; AWL_REFLECT(a, b, leaf) };     // leaf was a structure
        struct Inner { int z = 0; AWL_REFLECT(z) };
        struct Struct { int a = 1; Inner b; AWL_REFLECT(a, b) };                           // b was a string
        struct Type { int a = 2; std::vector<int> numbers; std::map<std::string, int> m; std::string flag; AWL_REFLECT(a, numbers, m, flag) }; // flag was a boolean
    }
    // Values that can be neither copied nor moved.
    namespace fix
    {
        struct One
        {
            std::atomic<int> a{ 0 }; std::string b; std::atomic<int64_t> c{ 0 }; std::vector<std::string> v; std::map<std::string, int> m; std::optional<std::string> o; std::unique_ptr<std::string> p; std::set<int> s; std::deque<int> d; v1::Leaf leaf;
            AWL_REFLECT(a, b, c, v, m, o, p, s, d, leaf)
        };
        struct Two
        {
            std::string b; std::set<int> s; std::atomic<int> a{ 0 }; std::atomic<bool> added{ true }; std::optional<std::string> o; v2::Leaf leaf; std::deque<int> d; std::vector<std::string> v; std::unique_ptr<std::string> p; std::map<std::string, int> m;
            AWL_REFLECT(b, s, a, added, o, leaf, d, v, p, m) // c removed
        };
        struct Bad { std::atomic<int> a{ 0 }; std::string b; bad::Leaf leaf; AWL_REFLECT(a, b, leaf) };
    }
}
namespace awl::io
{
    template <> class FieldMap<ser::v2::Leaf> { public: static std::string_view GetNewName(std::string_view n) { return n == "x" ? "y" : n; } };
    template <> class FieldMap<ser::v3::Leaf> { public: static std::string_view GetNewName(std::string_view n) { return n == "x" ? "y" : n; } };
    template <> class FieldMap<ser::ap2::Root> { public: static std::string_view GetNewName(std::string_view n) { return n == "x" ? "moved" : n; } };
    template <> class FieldMap<ser::v2::Root> { public: static std::string_view GetNewName(std::string_view n) { return n == "numbers" ? "renamed" : n; } };
    template <> class FieldMap<ser::v3::Root> { public: static std::string_view GetNewName(std::string_view n) { return n == "numbers" ? "renamed" : n; } };
}
namespace ser
{
    // What loading the first as the second gives; the second holds what fields missing in the first are to have.
    inline void conv(const v1::Leaf& f, v1::Leaf& t) { t = f; }
    inline void conv(const v2::Leaf& f, v2::Leaf& t) { t = f; }
    inline void conv(const v3::Leaf& f, v3::Leaf& t) { t = f; }
    inline void conv(const v1::Leaf& f, v2::Leaf& t) { t.s = f.s; t.y = f.x; t.d = f.d; }
    inline void conv(const v1::Leaf& f, v3::Leaf& t) { t.s = f.s; t.y = f.x; t.d = f.d; }
    inline void conv(const v2::Leaf& f, v3::Leaf& t) { t.s = f.s; t.y = f.y; t.d = f.d; }
    inline void conv(const v2::Leaf& f, v1::Leaf& t) { t.s = f.s; t.d = f.d; }
    inline void conv(const v3::Leaf& f, v1::Leaf& t) { t.s = f.s; t.d = f.d; }
    inline void conv(const v3::Leaf& f, v2::Leaf& t) { t.s = f.s; t.d = f.d; t.y = f.y; }
    inline void conv(const ty1::Inner& f, ty2::Inner& t) { t.z = f.z; std::memcpy(&t.q, &f.q, sizeof t.q); t.t = f.t; }
    inline void conv(const ap1::Leaf& f, ap2::Leaf& t) { t.x = f.x; t.s = f.s; }
    inline void conv(const ap2::Leaf& f, ap1::Leaf& t) { t.x = f.x; t.s = f.s; }
    inline void conv(const ap1::Dead& f, ap2::Dead& t) { t.t = f.t; t.u = f.u; t.w = f.w; conv(f.inner, t.inner); }
    inline void conv(const ap2::Dead& f, ap1::Dead& t) { t.t = f.t; t.u = f.u; t.w = f.w; conv(f.inner, t.inner); }
    template <class A, class B> void conv(const std::optional<A>& f, std::optional<B>& t) { if (f) { t.emplace(); conv(*f, *t); } else t.reset(); }
    template <class K, class A, class B> void conv(const std::map<K, A>& f, std::map<K, B>& t) { t.clear(); for (auto& [k, x] : f) conv(x, t[k]); }
    template <class A, class B> void conv(const std::vector<A>& f, std::vector<B>& t)
    {
        // The elements kept by resize() keep the fields that are not stored.
        t.resize(f.size()); for (size_t i = 0; i < f.size(); ++i) conv(f[i], t[i]);
    }
    inline void conv(const ap1::Root& f, ap1::Root& t) { t = f; }
    inline void conv(const ap1::Root& f, ap2::Root& t) { t.a = f.a; conv(f.leaf, t.leaf); t.moved = f.x; conv(f.leaves, t.leaves); t.b = f.b; t.n = f.n; }
    inline void conv(const ap1::Root& f, ap3::Root& t) { t.a = f.a; conv(f.leaf, t.leaf); t.x = f.x; conv(f.leaves, t.leaves); t.b = f.b; t.n = f.n; conv(f.dead, t.dead); conv(f.deadMap, t.deadMap); conv(f.od, t.od); conv(f.one, t.one); }
    inline void conv(const ap3::Root& f, ap1::Root& t) { t.a = f.a; conv(f.leaf, t.leaf); t.x = f.x; conv(f.leaves, t.leaves); t.b = f.b; t.n = f.n; conv(f.dead, t.dead); conv(f.deadMap, t.deadMap); conv(f.od, t.od); conv(f.one, t.one); }
    inline void conv(const v0::Root& f, v1::Root& t) { t.a = f.a; t.b = f.b; t.leaves.resize(f.leaves.size()); t.m = f.m; }
    inline void conv(const v0::Root& f, v2::Root& t) { t.a = f.a; t.b = f.b; t.leaves.resize(f.leaves.size()); t.m = f.m; }
    inline void conv(const ty1::Root& f, ty2::Root& t) { t.a = f.a; std::memcpy(&t.p, &f.p, sizeof t.p); static_assert(sizeof t.r == sizeof f.r); std::memcpy(&t.r, &f.r, sizeof t.r); t.s = f.s; t.o = f.o; conv(f.v, t.v); }
    // Incompatible only if there are elements of the changed structure.
    inline void conv(const v1::Root& f, bad::Late& t) { t.a = f.a; t.b = f.b; t.leaves.clear(); }
    inline void conv(const v1::Root& f, v1::Root& t) { t = f; }
    inline void conv(const v2::Root& f, v2::Root& t) { t = f; }
    inline void conv(const v3::Root& f, v3::Root& t) { t = f; }
    inline void conv(const v1::Root& f, v2::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaf, t.leaf); conv(f.leaves, t.leaves); t.m = f.m; t.renamed = f.numbers; t.os = f.os; t.set = f.set; }
    inline void conv(const v1::Root& f, v3::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaves, t.leaves); t.m = f.m; t.renamed = f.numbers; t.flag = f.flag; }
    inline void conv(const v2::Root& f, v3::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaves, t.leaves); t.m = f.m; t.renamed = f.renamed; }
    inline void conv(const v2::Root& f, v1::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaf, t.leaf); conv(f.leaves, t.leaves); t.m = f.m; t.os = f.os; t.set = f.set; }
    inline void conv(const v3::Root& f, v1::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaves, t.leaves); t.m = f.m; t.flag = f.flag; }
    inline void conv(const v3::Root& f, v2::Root& t) { t.a = f.a; t.b = f.b; conv(f.leaves, t.leaves); t.m = f.m; t.renamed = f.renamed; }
    inline void copy(const fix::One& f, fix::One& t)
    {
        t.a = f.a.load(); t.b = f.b; t.c = f.c.load(); t.v = f.v; t.m = f.m; t.o = f.o; t.s = f.s; t.d = f.d; t.leaf = f.leaf;
        if (f.p) t.p = std::make_unique<std::string>(*f.p); else t.p.reset();
    }
    inline void copy(const fix::Two& f, fix::Two& t)
    {
        t.a = f.a.load(); t.b = f.b; t.added = f.added.load(); t.v = f.v; t.m = f.m; t.o = f.o; t.s = f.s; t.d = f.d; t.leaf = f.leaf;
        if (f.p) t.p = std::make_unique<std::string>(*f.p); else t.p.reset();
    }
    inline void copy(const fix::Bad& f, fix::Bad& t) { t.a = f.a.load(); t.b = f.b; t.leaf = f.leaf; }
    template <class T> void copy(const T& f, T& t) { t = f; }
    inline void conv(const fix::One& f, fix::One& t) { copy(f, t); }
    inline void conv(const fix::Two& f, fix::Two& t) { copy(f, t); }
    inline void conv(const fix::One& f, fix::Two& t)
    {
        t.a = f.a.load(); t.b = f.b; t.v = f.v; t.m = f.m; t.o = f.o; t.s = f.s; t.d = f.d; conv(f.leaf, t.leaf);
        if (f.p) t.p = std::make_unique<std::string>(*f.p); else t.p.reset();
    }
    inline void conv(const fix::Two& f, fix::One& t)
    {
        t.a = f.a.load(); t.b = f.b; t.v = f.v; t.m = f.m; t.o = f.o; t.s = f.s; t.d = f.d; conv(f.leaf, t.leaf);
        if (f.p) t.p = std::make_unique<std::string>(*f.p); else t.p.reset();
    }
    template <class F, class T> bool fitsNow(const F& f, const T*) { if constexpr (std::is_same_v<T, bad::Late>) return f.leaves.empty(); return true; }
    template <class F, class T> concept fits = requires(const F& f, T& t) { conv(f, t); };

    struct Header9 : awl::io::Header {};

    // How a value is stored and loaded. The formats are written and read with the same parameters.
    enum Format { Plain0, Vts, VtsVector, Euphoric, Headered, Formats };
    template <class T, class V> struct Old : awl::io::HeaderedSerializable<T, awl::io::SequentialInputStream, awl::io::SequentialOutputStream, awl::crypto::Crc64, V>
    {
        using Base = awl::io::HeaderedSerializable<T, awl::io::SequentialInputStream, awl::io::SequentialOutputStream, awl::crypto::Crc64, V>;
        using Base::Base;
        size_t seen = 0;
        void ReadOldVersion(size_t v) override { if (v < 3) Base::ReadOldVersion(v); seen = v; }
    };

    // The object that writes the value may have written it before.
    template <class S> void writeWith(const S& s, awl::io::SequentialOutputStream& out)
    {
        if (W(4) == 0) { Bytes first; { SimOut o(first); s.Write(o); } probe("written again by the same object"); }
        s.Write(out);
    }
    template <class T, class V> void store(T& value, Format fmt, size_t block, size_t version, const std::string& name, awl::io::SequentialOutputStream& out)
    {
        using namespace awl::io;
        switch (fmt)
        {
        case Plain0: if constexpr (std::is_move_assignable_v<T>) writeWith(PlainSerializable<T>(value), out); break;
        case Vts: case VtsVector:
            if constexpr (std::is_same_v<T, v0::Root>) { Writer<V> w; w.WriteNewPrototypes(out); w.WriteV(out, value); } // a reader needs fields
            else writeWith(VersionTolerantSerializable<T, SequentialInputStream, SequentialOutputStream, true, V>(value), out);
            break;
        case Euphoric: if constexpr (!std::is_same_v<T, v0::Root>) writeWith(EuphoricallySerializable<T, SequentialInputStream, SequentialOutputStream, awl::crypto::Crc64, V>(value, block), out); break;
        default: if constexpr (!std::is_same_v<T, v0::Root>) writeWith(Old<T, V>(Header{ name, version }, value, block), out); break;
        }
    }
    template <class T, class V> size_t load(T& value, Format fmt, size_t block, size_t version, const std::string& name, SimIn& in)
    {
        using namespace awl::io;
        switch (fmt)
        {
        case Plain0: if constexpr (std::is_move_assignable_v<T>) PlainSerializable<T>(value).Read(in); break;
        case Vts: VersionTolerantSerializable<T, SequentialInputStream, SequentialOutputStream, true, V>(value).Read(in); break;
        case VtsVector: VersionTolerantSerializable<T, SimIn, SequentialOutputStream, true, V>(value).Read(in); break;
        case Euphoric: EuphoricallySerializable<T, SequentialInputStream, SequentialOutputStream, awl::crypto::Crc64, V>(value, block).Read(in); break;
        default: { Old<T, V> h(Header{ name, version }, value, block); h.Read(in); return h.seen; }
        }
        return 0;
    }

    // Makes the static member lists before anything is counted.
    template <class... T> void touch() { (scn::use(T::get_member_names().size()), ...); }

    template <class From, class To, class V, class VFrom = awl::mp::variant_from_structs<From>> void layouts(const char* what)
    {
        constexpr bool movable = std::is_move_assignable_v<To>;
        bool compatible = fits<From, To>;
        constexpr bool sameLayout = std::is_same_v<From, To>;
        Format fmt = Format(sameLayout && movable ? W(Formats) : 1 + W(Formats - 1));
        if (std::is_same_v<From, v0::Root>) fmt = Vts;
        const size_t block = fmt >= Euphoric ? std::initializer_list<size_t>{ 64, 9, 17, 500 }.begin()[W(4)] : 0;
        const size_t version = 2 + W(4) + (W(8) == 0 ? size_t(W(2) ? 0x80000000u : 0xffffffffu) : 0); const std::string name = W(4) ? "format" : "";
        From from{}; make(from);
        compatible = compatible && fitsNow(from, (To*)nullptr);
        Bytes data; { SimOut out(data); store<From, VFrom>(from, fmt, block, version, name, out); }
        ev(what, fmt, int64_t(data.size()));

        To value{}, before{}; make(value);
        int tries = 1 + int(W(5));
        for (int i = 0; i < tries; ++i)
        {
            if (W(3) == 0) { bool keep = std::exchange(longMade, true); make(value); longMade = keep; }
            copy(value, before);
            bool last = i + 1 == tries;
            bool cutIt = !last && W(2) && !data.empty();
            Bytes src(data.begin(), data.begin() + long(cutIt ? W(uint32_t(data.size())) : data.size())); src.shrink_to_fit();
            bool corrupted = false;
            if (fmt >= Euphoric && !cutIt && !last && !src.empty() && W(3) == 0)
            {
                src[W(uint32_t(src.size()))] ^= uint8_t(1 + W(255)); corrupted = true; count_fault(K_CORRUPT);
            }
            size_t readVersion = version; std::string readName = name;
            if (fmt == Headered && !last)
                switch (W(8)) { case 0: readVersion = version + 1 + W(3); break; case 1: readVersion = version - 1 - W(2); break; case 2: { const char* other[] = { "other", "form", "format2", "Format", "f", "" }; readName = other[W(6)]; if (readName == name) readName = "another"; break; } default: break; }
            Fail f; if (!last && pStream > 0 && choose_p(K_STREAM, 2, pStream)) { f.at = 1 + int(W(W(4) == 0 ? 200 : 30)); f.kind = int(W(5)); f.shortTransfer = W(4) == 0; }
            bool thrown = false; size_t seen = 0;
            uint32_t failed = alloc_failures();
            SimIn in(src, &f);
            {
                // A value that can not be moved is restored in place, which needs memory itself.
                bool allocs = !last && pAlloc > 0 && (movable || (compatible && !cutIt && !f.at && !corrupted && readVersion == version && readName == name));
                AllocFaults on(allocs); fail_nth_alloc(allocs ? choose_p(K_ALLOC, W(3) == 0 ? 300 : 40, pAlloc) : 0);
                try { seen = load<To, V>(value, fmt, block, readVersion, readName, in); }
                catch (const awl::io::IoException&) { thrown = true; }
                catch (const std::bad_alloc&) { thrown = true; }
                catch (const std::exception&) { thrown = true; }
                catch (const Injected0&) { thrown = true; }
                fail_nth_alloc(0);
            }
            bool allocFailed = alloc_failures() != failed;
            ev("load", thrown, int64_t(src.size()), i);
            state(scn::mixup(std::hash<std::string_view>{}(what) ^ src.size()) + data.size() * 8 + uint64_t(thrown) * 2 + uint64_t(fmt) * 100000);
            if (thrown)
            {
                SIM_CHECK(same(value, before), "changed", "%s: a load that fails (%s%s%s%s) changes the value", what, cutIt ? "data cut" : "", f.fired ? " failing stream" : "", allocFailed ? " failing allocation" : "", corrupted ? " corruption" : "");
                bool reason = cutIt || f.fired || allocFailed || corrupted || !compatible || readVersion < version || readName != name || (readVersion > version && version < 3);
                SIM_CHECK(reason, "refused", "%s: complete data is refused", what);
                probe(cutIt ? "load of cut data" : f.fired ? "load from a failing stream" : allocFailed ? "load without memory" : corrupted ? "load of corrupted data" : !compatible ? "load of an incompatible layout" : "load of another format");
                continue;
            }
            SIM_CHECK(!f.fired, "accepted", "%s: a transfer that failed is not reported", what);
            SIM_CHECK(!allocFailed, "accepted", "%s: an allocation that failed is not reported", what);
            SIM_CHECK(readName == name && readVersion >= version, "accepted", "%s: another format is accepted", what);
            if (fmt == Headered && readVersion > version)
            {
                SIM_CHECK(seen == version, "version", "%s: the version %zu is reported as %zu", what, version, seen);
                SIM_CHECK(same(value, before), "changed", "%s: a load of an old version changes the value", what);
                probe("old version recognised"); continue;
            }
            SIM_CHECK(!corrupted, "accepted", "%s: corrupted data is accepted", what);
            SIM_CHECK(!cutIt, "accepted", "%s: %zu of %zu bytes are accepted as a value", what, src.size(), data.size());
            SIM_CHECK(compatible, "accepted", "%s: an incompatible layout is accepted", what);
            if constexpr (fits<From, To>)
            {
                // New fields have their defaults; values that can not be moved keep what they had.
                To expected{}; if constexpr (!movable) copy(before, expected);
                conv(from, expected);
                SIM_CHECK(same(value, expected), "value", "%s: the value loaded is wrong", what);
                probe(sameLayout ? "loaded" : "loaded another layout");
            }
        }
    }

    // The same reader is used again after it has failed.
    template <class From, class To> void readerAgain(const char* what)
    {
        using V = awl::mp::variant_from_structs<To, From>;
        From from{}; make(from);
        Bytes data; { SimOut out(data); awl::io::Writer<awl::mp::variant_from_structs<From>> w; w.WriteNewPrototypes(out); w.WriteV(out, from); }
        SimIn in(data); awl::io::Reader<V> r; bool table = true;
        try { r.ReadOldPrototypes(in); } catch (const awl::io::IoException&) { table = false; }
        if (!table) return;
        size_t start = in.pos;
        for (int i = 0; i < 3; ++i)
        {
            To to{}; in.pos = start; bool thrown = false;
            {
                bool allocs = pAlloc > 0; AllocFaults on(allocs); fail_nth_alloc(allocs ? choose_p(K_ALLOC, 20, pAlloc) : 0);
                try { r.ReadV(in, to); } catch (const awl::io::IoException&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; }
                fail_nth_alloc(0);
            }
            if constexpr (fits<From, To>)
            {
                To expected{}; conv(from, expected);
                if (!thrown && fitsNow(from, &to)) SIM_CHECK(same(to, expected), "value", "%s: a reader that is used again reads a wrong value", what);
            }
            if (!fits<From, To> || !fitsNow(from, &to)) SIM_CHECK(thrown, "accepted", "%s: a reader that is used again accepts an incompatible layout", what);
        }
        probe("reader used again");
    }

    // Values of several layouts are loaded one after another by the same object.
    template <class V, class To, class... From> void mixedLayouts(const char* what)
    {
        using namespace awl::io;
        const Format fmt = std::initializer_list<Format>{ Vts, Euphoric, Headered, VtsVector }.begin()[W(4)]; // the last one: a bare reader
        const size_t block = 64;
        To value{}; make(value);
        VersionTolerantSerializable<To, SequentialInputStream, SequentialOutputStream, true, V> vts(value);
        EuphoricallySerializable<To, SequentialInputStream, SequentialOutputStream, awl::crypto::Crc64, V> euphoric(value, block);
        Old<To, V> headered(Header{ "format", 5 }, value, block);
        Reader<V> reader;
        for (int i = 0, n = 2 + int(W(3)); i < n; ++i)
        {
            auto one = [&]<class F>(F from)
            {
                make(from); const size_t version = fmt == Headered && W(3) == 0 ? 2 + W(5) : 5;
                Bytes data; { SimOut out(data); store<F, awl::mp::variant_from_structs<F>>(from, fmt, block, version, "format", out); }
                const size_t full = data.size();
                if (W(4) == 0) data.resize(W(uint32_t(full)));
                To before{}; copy(value, before); bool thrown = false;
                SimIn in(data); headered.seen = 0;
                try
                {
                    switch (fmt)
                    {
                    case Vts: vts.Read(in); break;
                    case Euphoric: euphoric.Read(in); break;
                    case Headered: headered.Read(in); break;
                    default: { To to{}; reader.ClearPrototypes(); reader.ReadOldPrototypes(in); reader.ReadV(in, to); value = std::move(to); break; }
                    }
                }
                catch (const IoException&) { thrown = true; }
                const bool cutIt = data.size() != full;
                ev(what, thrown, int64_t(data.size()), fmt);
                const bool other = version < 3 || version > 5;
                // The end of a value of another version is not read.
                SIM_CHECK(thrown == (cutIt || other) || (version != 5 && cutIt && !other), "accepted", "%s: %zu of %zu bytes are %s after another layout", what, data.size(), full, thrown ? "refused" : "accepted");
                if (thrown) { SIM_CHECK(same(value, before), "changed", "%s: a load that fails changes the value", what); return; }
                if (version != 5)
                {
                    SIM_CHECK(headered.seen == version && same(value, before), "version", "%s: the version %zu is reported as %zu", what, version, headered.seen);
                    probe("an old version after another one"); return;
                }
                SIM_CHECK(!headered.seen, "version", "%s: the current version is taken for an old one", what);
                To expected{}; conv(from, expected);
                SIM_CHECK(same(value, expected), "value", "%s: the value loaded after another layout is wrong", what);
                probe("loaded after another layout");
            };
            const uint32_t which = W(uint32_t(sizeof...(From))); uint32_t k = 0;
            ((k++ == which ? one(From{}) : void()), ...);
        }
    }

    // The names of some types have changed since the data were written; the reader is told the new ones.
    inline void renamedTypes()
    {
        using V = awl::mp::variant_from_structs<ty2::Root>;
        ty1::Root from{}; make(from);
        Bytes data; { SimOut out(data); awl::io::Writer<awl::mp::variant_from_structs<ty1::Root>> w; w.WriteNewPrototypes(out); w.WriteV(out, from); }
        const int known = W(4) ? 2 : int(W(3)); const bool mapped = known == 2, cutIt = W(4) == 0;
        std::unordered_map<std::string, std::string> names{ { "sequence<int64_t>", "int8_t" } };
        if (mapped || known == 0) names.emplace("array<int16_t, 2>", "array<int8_t, 4>");
        if (mapped || known == 1) names.emplace("array<int64_t, 2>", "array<int32_t, 4>");
        if (cutIt) data.resize(W(uint32_t(data.size())));
        Fail f; if (pStream > 0 && choose_p(K_STREAM, 2, pStream)) { f.at = 1 + int(W(30)); f.kind = int(W(5)); }
        SimIn in(data, &f); ty2::Root to{}; bool thrown = false;
        const uint32_t failed = alloc_failures();
        {
            AllocFaults on(pAlloc > 0); fail_nth_alloc(pAlloc > 0 ? choose_p(K_ALLOC, 100, pAlloc) : 0);
            try { awl::io::Reader<V> r; r.ReadOldPrototypes(in, names); r.ReadV(in, to); }
            catch (const awl::io::IoException&) { thrown = true; }
            catch (const std::bad_alloc&) { thrown = true; }
            catch (const std::exception&) { thrown = true; }
            catch (const Injected0&) { thrown = true; }
            fail_nth_alloc(0);
        }
        const bool reason = cutIt || f.fired || alloc_failures() != failed || !mapped;
        SIM_CHECK(thrown == reason, "renamed-type", "data with renamed types (%s) are %s", mapped ? "the new name is known" : "the new name is not known", thrown ? "refused" : "accepted");
        if (!thrown)
        {
            ty2::Root expected{}; conv(from, expected);
            SIM_CHECK(same(to, expected), "value", "the value read with a new name of a type is wrong");
            SIM_CHECK(in.pos == data.size(), "rest", "%zu of %zu bytes are read", in.pos, data.size());
            probe("renamed type");
        }
        ev("renamed type", thrown, int64_t(data.size()));
    }

    // Data without a description are read with the current one.
    inline void noDescription()
    {
        using V = awl::mp::variant_from_structs<v1::Root>;
        v1::Root from{}; make(from);
        Bytes data; { SimOut out(data); awl::io::Writer<V> w; w.WriteV(out, from); w.WriteV(out, from); }
        const size_t full = data.size(), cut = W(4) == 0 ? W(uint32_t(full)) : full;
        data.resize(cut);
        SimIn in(data); v1::Root to[2] = {}; bool thrown = false;
        try { awl::io::Reader<V> r; r.Initialize(); r.ReadV(in, to[0]); r.ReadV(in, to[1]); } catch (const std::exception&) { thrown = true; }
        SIM_CHECK(thrown == (cut != full), "accepted", "%zu of %zu bytes without a description are %s", cut, full, thrown ? "refused" : "accepted");
        if (!thrown) SIM_CHECK(same(to[0], from) && same(to[1], from) && in.pos == data.size(), "value", "values read without a description are wrong");
        probe(thrown ? "data without a description cut" : "data without a description");
    }

    using OptInt = std::optional<int>; using OptStr = std::optional<std::string>;
    using awl::mp::variant_from_structs;
#if IN_PART(0)
    const Add add_layoutCases0(layoutCases(0), {
        [] { layouts<v1::Root, v1::Root, variant_from_structs<v1::Root>>("v1"); },
        [] { layouts<v3::Root, v2::Root, variant_from_structs<v2::Root, std::shared_ptr<std::string>, bool>>("v3 as v2"); },
        [] { layouts<fix::One, fix::Two, variant_from_structs<fix::Two, OptInt, int64_t>>("not movable, first as second"); },
    });
#endif
#if IN_PART(1)
    const Add add_layoutCases1(layoutCases(1), {
        [] { layouts<v2::Root, v2::Root, variant_from_structs<v2::Root>>("v2"); },
        [] { layouts<v1::Root, bad::Late, variant_from_structs<bad::Late, v1::Root>>("v1, type of a nested field changed"); },
        [] { layouts<fix::Two, fix::One, variant_from_structs<fix::One, bool, int64_t>>("not movable, second as first"); },
    });
#endif
#if IN_PART(2)
    const Add add_layoutCases2(layoutCases(2), {
        [] { layouts<v1::Root, v2::Root, variant_from_structs<v2::Root, OptInt, bool>>("v1 as v2"); },
        [] { layouts<v1::Root, bad::Scalar, variant_from_structs<bad::Scalar, v1::Root>>("v1, structure to scalar"); },
        [] { layouts<fix::One, fix::Bad, variant_from_structs<fix::Bad, fix::One>>("not movable, incompatible"); },
    });
#endif
#if IN_PART(3)
    const Add add_layoutCases3(layoutCases(3), {
        [] { layouts<v2::Root, v1::Root, variant_from_structs<v1::Root, int64_t, std::vector<std::string>>>("v2 as v1"); },
        [] { layouts<v1::Root, bad::Struct, variant_from_structs<bad::Struct, v1::Root>>("v1, scalar to structure"); },
        [] { readerAgain<v1::Root, v1::Root>("v1"); },
        [] { layouts<v0::Root, v1::Root, variant_from_structs<v1::Root>>("no fields yet, as v1"); },
    });
#endif
#if IN_PART(4)
    const Add add_layoutCases4(layoutCases(4), {
        [] { layouts<v1::Root, v3::Root, variant_from_structs<v3::Root, OptInt, OptStr, std::set<int>>>("v1 as v3"); },
        [] { layouts<v1::Root, bad::Type, variant_from_structs<bad::Type, v1::Root>>("v1, type of a field changed"); },
        [] { readerAgain<v1::Root, bad::Late>("v1, type of a nested field changed"); },
        [] { layouts<v0::Root, v2::Root, variant_from_structs<v2::Root>>("no fields yet, as v2"); },
    });
#endif
#if IN_PART(5)
    const Add add_layoutCases5(layoutCases(5), {
        [] { layouts<v2::Root, v3::Root, variant_from_structs<v3::Root, int64_t, OptStr, std::vector<std::string>, std::set<int>>>("v2 as v3"); },
        [] { layouts<v1::Root, bad::Type, variant_from_structs<bad::Type>>("v1, types missing"); },
        [] { readerAgain<v2::Root, v2::Root>("v2"); },
        [] { noDescription(); },
        [] { mixedLayouts<variant_from_structs<v3::Root, OptInt, OptStr, std::set<int>, int64_t, std::vector<std::string>>, v3::Root, v1::Root, v2::Root, v3::Root>("any version as v3"); },
    });
#endif
#if IN_PART(6)
    const Add add_layoutCases6(layoutCases(6), {
        [] { layouts<v3::Root, v1::Root, variant_from_structs<v1::Root, std::shared_ptr<std::string>>>("v3 as v1"); },
        [] { layouts<fix::One, fix::One, variant_from_structs<fix::One>>("not movable"); },
        [] { renamedTypes(); },
        [] { mixedLayouts<variant_from_structs<v1::Root, std::shared_ptr<std::string>, int64_t, std::vector<std::string>>, v1::Root, v1::Root, v2::Root, v3::Root>("any version as v1"); },
    });
#endif
#if IN_PART(7)
    const Add add_layoutCases7(layoutCases(7), {
        [] { layouts<ap1::Root, ap2::Root, variant_from_structs<ap2::Root, ap2::Dead, std::map<std::string, ap2::Dead>, std::map<int, ap2::Dead>, std::optional<ap2::Dead>>>("containers of structures removed"); },
        [] { layouts<ap1::Root, ap3::Root, variant_from_structs<ap3::Root>>("fields appended"); },
        [] { layouts<ap3::Root, ap1::Root, variant_from_structs<ap1::Root>>("last fields removed"); },
    });
#endif
}
#if MAIN_PART
SIM_SCENARIO(layout_changes)
{
    using namespace ser;
    touch<v0::Leaf, v0::Root, ty1::Inner, ty1::Root, ty2::Inner, ty2::Root, ap1::Leaf, ap1::Dead, ap1::Root, ap2::Leaf, ap2::Dead, ap2::Root, ap3::Root, v1::Leaf, v1::Old, v1::Root, v2::Leaf, v2::New, v2::Root, v3::Leaf, v3::Root, bad::Leaf, bad::Late, bad::Scalar, bad::Inner, bad::Struct, bad::Type, fix::One, fix::Two, fix::Bad>();
    pStream = tune({ 0, 0.3, 0.6 }); pAlloc = tune({ 0, 0, 0.3, 0.6 });
    int n = 1 + int(W(2));
    longMade = false;
    for (int i = 0; i < n; ++i) pick(layoutCases)();
}
#endif
#endif
