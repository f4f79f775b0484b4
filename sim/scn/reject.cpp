// C36: values that can not be valid are refused when they are written and when they are read.
#include "common.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/ObservableSet.h"
#include "Awl/VectorSet.h"
#include "Awl/Ring.h"
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <limits>

using namespace sim;

namespace rej { AWL_SEQUENTIAL_ENUM(Gear, Low, Middle, High, Reverse) }
AWL_ENUM_TRAITS(rej, Gear)

namespace rej
{
    using Bytes = std::vector<uint8_t>;

    // The largest request for the memory of a string.
    size_t largest;
    template <class T> struct Counting
    {
        using value_type = T;
        Counting() = default;
        template <class U> Counting(const Counting<U>&) {}
        T* allocate(size_t n)
        {
            largest = std::max(largest, n * sizeof(T));
            if (n > (size_t(1) << 26) / sizeof(T)) throw std::bad_alloc();
            return std::allocator<T>().allocate(n);
        }
        void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
        template <class U> bool operator==(const Counting<U>&) const { return true; }
    };
    template <class Ch> using Text = std::basic_string<Ch, std::char_traits<Ch>, Counting<Ch>>;

    template <class S> S shortText() { return S(W(5), typename S::value_type('s')); }
    template <class S> struct Inner { int a = 0; S s; AWL_TUPLIZABLE(a, s) };
    template <class S> struct Outer { S before; std::vector<S> v; Inner<S> in; std::optional<Inner<S>> o; AWL_TUPLIZABLE(before, v, in, o) };
    template <class S> struct Reflected { int a = 0; S s; double d = 0; AWL_REFLECT(a, s, d) };

    // Puts the leaf somewhere into the value; the other strings are short.
    template <class S> void put(S& d, const S& leaf) { d = leaf; }
    template <class S> void put(Inner<S>& d, const S& leaf) { d.a = int(W(100)); d.s = leaf; }
    template <class S> void put(Reflected<S>& d, const S& leaf) { d.a = int(W(100)); d.s = leaf; }
    template <class S> void put(Outer<S>& d, const S& leaf)
    {
        d.before = shortText<S>(); d.v.assign(W(3), shortText<S>()); d.in.s = shortText<S>();
        switch (W(4)) { case 0: d.before = leaf; break; case 1: d.v.push_back(leaf); break; case 2: d.in.s = leaf; break; default: d.o.emplace(); d.o->s = leaf; break; }
    }
    template <class S, class E> void put(std::vector<E>& d, const S& leaf) { d.resize(1 + W(3)); put(d[W(uint32_t(d.size()))], leaf); }
    template <class S> void put(std::array<S, 3>& d, const S& leaf) { for (auto& s : d) s = shortText<S>(); d[W(3)] = leaf; }
    template <class S> void put(std::deque<S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d.push_back(shortText<S>()); if (W(2)) d.push_back(leaf); else d.push_front(leaf); }
    template <class S> void put(awl::ring<S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d.push_back(shortText<S>()); d.push_back(leaf); }
    template <class S> void put(std::set<S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d.insert(shortText<S>()); d.insert(leaf); }
    template <class S> void put(awl::vector_set<S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d.insert(shortText<S>()); d.insert(leaf); }
    template <class S> void put(awl::observable_set<S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d.insert(shortText<S>()); d.insert(leaf); }
    template <class S> void put(std::map<S, int>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d[shortText<S>()] = 1; d[leaf] = 2; }
    template <class S> void put(std::map<int, S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d[int(W(9))] = shortText<S>(); d[int(W(9))] = leaf; }
    template <class S> void put(std::unordered_map<int, S>& d, const S& leaf) { for (uint32_t n = W(3); n; --n) d[int(W(9))] = shortText<S>(); d[int(W(9))] = leaf; }
    template <class S, class E> void put(std::optional<E>& d, const S& leaf) { d.emplace(); put(*d, leaf); }
    template <class S, class E> void put(std::shared_ptr<E>& d, const S& leaf) { d = std::make_shared<E>(); put(*d, leaf); }
    template <class S, class E> void put(std::unique_ptr<E>& d, const S& leaf) { d = std::make_unique<E>(); put(*d, leaf); }
    template <class S> void put(std::variant<int, S, Inner<S>>& d, const S& leaf) { if (W(2)) d = leaf; else { Inner<S> x; x.s = leaf; d = x; } }

    // Some kinds need to be set up before they are read.
    template <class T> void prepare(T&) {}
    template <class S> void prepare(awl::ring<S>& r) { r = awl::ring<S>(8); }

    template <class T, class... C> Bytes written(const T& v, const C&... c) { Bytes b; awl::io::VectorOutputStream out(b); awl::io::Write(out, v, c...); return b; }

    template <class T> bool equal(const T& a, const T&, const Bytes& data) { return written(a) == data; }
    template <class S> bool equal(const std::unordered_map<int, S>& a, const std::unordered_map<int, S>& b, const Bytes&) { return a == b; }

    template <class S, class T> void text(const char* name)
    {
        using Ch = typename S::value_type;
        S leaf; for (uint32_t n = 20 + W(60), i = 0; i < n; ++i) leaf.push_back(Ch('A' + int((i * 7 + n) % 26)));
        const size_t lb = leaf.size() * sizeof(Ch), shortest = 4 * sizeof(Ch);
        T value{}; prepare(value); put(value, leaf);
        const Bytes data = written(value);
        ev(name, int64_t(data.size()));
        Bytes pattern(reinterpret_cast<const uint8_t*>(leaf.data()), reinterpret_cast<const uint8_t*>(leaf.data()) + lb);
        const auto at = std::search(data.begin(), data.end(), pattern.begin(), pattern.end());
        SIM_CHECK(at != data.end() && at - data.begin() >= 8, "format", "%s: the string is not in the data", name);
        const size_t lenPos = size_t(at - data.begin()) - sizeof(size_t);

        // A limit that is just enough or too small, when writing and when reading.
        for (int i = 0; i < 3; ++i)
        {
            size_t lim = i == 0 ? lb : i == 1 ? lb - 1 - W(uint32_t(lb - shortest)) : lb + W(1000);
            const bool ok = lim >= lb;
            Bytes part; bool refused = false;
            { awl::io::VectorOutputStream out(part); try { awl::io::Write(out, value, awl::io::LimitedContext(lim)); } catch (const awl::io::IoException&) { refused = true; } }
            SIM_CHECK(refused != ok, "write", "%s: a string of %zu bytes is %s with the limit %zu", name, lb, refused ? "not written" : "written", lim);
            if (ok) SIM_CHECK(part == data, "write", "%s: what is written with a limit differs", name);
            else SIM_CHECK(part.size() <= lenPos && std::equal(part.begin(), part.end(), data.begin()), "write", "%s: %zu bytes are written, the refused string is at %zu", name, part.size(), lenPos);
            T target{}; prepare(target); refused = false; largest = 0;
            awl::io::VectorInputStream in(data);
            try { awl::io::Read(in, target, awl::io::LimitedContext(lim)); } catch (const awl::io::IoException&) { refused = true; }
            SIM_CHECK(refused != ok, "read", "%s: a string of %zu bytes is %s with the limit %zu", name, lb, refused ? "not read" : "read", lim);
            if (ok) { SIM_CHECK(equal(target, value, data), "value", "%s: what is read with a limit differs", name); SIM_CHECK(in.End(), "position", "%s: something is left", name); }
            else { SIM_CHECK(largest < std::max<size_t>(lb, 64), "memory", "%s: %zu bytes are allocated for a string that is refused", name, largest); probe("a string is refused"); }
        }
        // The stored length is altered.
        const size_t lim = lb + W(1000);
        for (int i = 0; i < 2; ++i)
        {
            size_t len;
            switch (choose(K_CORRUPT, 7))
            {
            case 0: len = lim / sizeof(Ch) + 1 + W(100); break;
            case 1: len = size_t(1) << 20; break;
            case 2: len = size_t(1) << 31; break;
            case 3: len = size_t(1) << 45; break;
            case 4: len = std::numeric_limits<size_t>::max() / sizeof(Ch); break;
            case 5: len = (size_t(1) << 60) + leaf.size(); break;
            default: len = leaf.size() | size_t(1) << (12 + W(51)); break;
            }
            count_fault(K_CORRUPT);
            Bytes bad = data; memcpy(bad.data() + lenPos, &len, sizeof len);
            T target{}; prepare(target); bool refused = false; largest = 0;
            awl::io::VectorInputStream in(bad);
            try { awl::io::Read(in, target, awl::io::LimitedContext(lim)); }
            catch (const awl::io::IoException&) { refused = true; }
            catch (const std::length_error&) { refused = len * sizeof(Ch) / sizeof(Ch) != len; } // the number of bytes is not representable
            SIM_CHECK(refused, "accepted", "%s: the length %zu is accepted, the limit is %zu bytes", name, len, lim);
            SIM_CHECK(largest <= lim + sizeof(Ch) * 64, "memory", "%s: %zu bytes are allocated for a string of the length %zu, the limit is %zu", name, largest, len, lim);
            probe("an altered length is refused");
        }
        state(scn::mixup(std::hash<std::string_view>{}(name) + lenPos));
    }

    // ------------------------------------------------------------------------ enumerations
    struct Part { int n = 3; Gear g = Gear::Low; bool operator==(const Part&) const = default; AWL_TUPLIZABLE(n, g) };
    struct Wheel { int n = 3; Gear g = Gear::Low; AWL_REFLECT(n, g) };
    struct Car { std::string name; Gear g = Gear::Low; std::optional<Gear> o; std::vector<Wheel> parts; AWL_REFLECT(name, g, o, parts) };

    void put(Gear& d, Gear g) { d = g; }
    void put(Part& d, Gear g) { d.g = g; }

    template <class E> void put(std::optional<E>& d, Gear g) { d.emplace(); put(*d, g); }
    template <class E> void put(std::shared_ptr<E>& d, Gear g) { d = std::make_shared<E>(); put(*d, g); }
    template <class E> void put(std::unique_ptr<E>& d, Gear g) { d = std::make_unique<E>(); put(*d, g); }
    template <class E> void put(std::vector<E>& d, Gear g) { d.resize(3); put(d[1], g); }
    void put(std::array<Part, 2>& d, Gear g) { put(d[1], g); }
    void put(std::deque<Gear>& d, Gear g) { d = { Gear::Low, g, Gear::High }; }
    void put(awl::ring<Gear>& d, Gear g) { d.push_back(Gear::High); d.push_back(g); }
    void put(std::set<Gear>& d, Gear g) { d = { g }; }
    void put(std::map<Gear, int>& d, Gear g) { d[g] = 5; }
    void put(std::map<int, Gear>& d, Gear g) { d[1] = Gear::Low; d[2] = g; }
    void put(std::variant<std::string, Gear>& d, Gear g) { d = g; }
    void put(awl::vector_set<Gear>& d, Gear g) { d.insert(g); }

    template <class T> void gear(const char* name)
    {
        Bytes d[4];
        for (int i = 0; i < 4; ++i) { T v{}; prepare(v); put(v, Gear(i)); d[i] = written(v); }
        size_t pos = 0; while (pos < d[0].size() && d[0][pos] == d[1][pos]) ++pos;
        SIM_CHECK(d[0].size() == d[1].size() && pos < d[0].size(), "format", "%s: the enumeration is not in the data", name);
        // every byte that can be there
        const uint8_t byte = uint8_t(W(3) == 0 ? choose(K_CORRUPT, 8) : choose(K_CORRUPT, 256));
        Bytes bad = d[0]; bad[pos] = byte; count_fault(K_CORRUPT);
        const Bytes tail = W(2) ? Bytes(9, 0xEE) : Bytes(); bad.insert(bad.end(), tail.begin(), tail.end());
        T v{}; prepare(v); bool refused = false;
        awl::io::VectorInputStream in(bad);
        try { awl::io::Read(in, v); } catch (const awl::io::IoException&) { refused = true; }
        SIM_CHECK(refused == (byte > 3), "enum", "%s: the byte %u is %s as an enumerator", name, byte, refused ? "refused" : "accepted");
        if (!refused) SIM_CHECK(written(v) == d[byte], "value", "%s: what is read differs", name);
        else probe("an altered enumerator is refused");
        // and on the other side
        T w{}; prepare(w); put(w, Gear(byte)); Bytes part; refused = false;
        { awl::io::VectorOutputStream out(part); try { awl::io::Write(out, w); } catch (const awl::io::IoException&) { refused = true; } }
        SIM_CHECK(refused == (byte > 3), "enum-write", "%s: the enumerator %u is %s", name, byte, refused ? "not written" : "written");
        if (refused) { SIM_CHECK(part.size() <= pos, "enum-write", "%s: an enumerator that is refused is written", name); probe("an invalid enumerator is not written"); }
        state(scn::mixup(std::hash<std::string_view>{}(name) + byte));
    }
    // In a version tolerant structure.
    void gearV()
    {
        Bytes d[2];
        for (int i = 0; i < 2; ++i) { Car c; c.name = "car"; c.g = Gear(i); c.parts.resize(2); awl::io::VectorOutputStream out(d[i]); awl::io::WriteV<Car, awl::io::SequentialOutputStream>(out, c); }
        size_t pos = 0; while (pos < d[0].size() && d[0][pos] == d[1][pos]) ++pos;
        SIM_CHECK(pos < d[0].size(), "format", "the enumeration is not in the data");
        const uint8_t byte = uint8_t(choose(K_CORRUPT, 256)); d[0][pos] = byte; count_fault(K_CORRUPT);
        Car c; bool refused = false;
        awl::io::VectorInputStream in(d[0]);
        try { awl::io::ReadV<Car, awl::io::SequentialInputStream>(in, c); } catch (const awl::io::IoException&) { refused = true; }
        SIM_CHECK(refused == (byte > 3), "enum", "version tolerant structure: the byte %u is %s as an enumerator", byte, refused ? "refused" : "accepted");
        if (refused) probe("an altered enumerator is refused"); else SIM_CHECK(c.g == Gear(byte), "value", "what is read differs");
        Car w; w.name = "x"; (W(2) ? w.g : w.parts.emplace_back().g) = Gear(byte); Bytes part; refused = false;
        { awl::io::VectorOutputStream out(part); try { awl::io::WriteV<Car, awl::io::SequentialOutputStream>(out, w); } catch (const awl::io::IoException&) { refused = true; } }
        SIM_CHECK(refused == (byte > 3), "enum-write", "version tolerant structure: the enumerator %u is %s", byte, refused ? "not written" : "written");
    }

    using Fn = void (*)();
    template <class S> const std::vector<Fn>& texts()
    {
        static const std::vector<Fn> f{
            [] { text<S, S>("string"); }, [] { text<S, std::vector<S>>("vector"); }, [] { text<S, std::array<S, 3>>("array"); }, [] { text<S, std::deque<S>>("deque"); },
            [] { text<S, awl::ring<S>>("ring"); }, [] { text<S, std::set<S>>("set"); }, [] { text<S, awl::vector_set<S>>("vector_set"); }, [] { text<S, awl::observable_set<S>>("observable_set"); },
            [] { text<S, std::map<S, int>>("map key"); }, [] { text<S, std::map<int, S>>("map value"); }, 
            [] { text<S, std::unordered_map<int, S>>("unordered_map value"); }, [] { text<S, std::optional<S>>("optional"); },
            [] { text<S, std::shared_ptr<S>>("shared_ptr"); }, [] { text<S, std::unique_ptr<S>>("unique_ptr"); }, [] { text<S, std::variant<int, S, Inner<S>>>("variant"); },
            [] { text<S, Inner<S>>("structure"); }, [] { text<S, Outer<S>>("nested structure"); }, [] { text<S, Reflected<S>>("reflected structure"); },
            [] { text<S, std::vector<std::optional<Inner<S>>>>("vector<optional<structure>>"); }, [] { text<S, std::optional<std::vector<std::unique_ptr<S>>>>("optional<vector<unique_ptr>>"); } };
        return f;
    }
    const std::vector<Fn> gears{
        [] { gear<Gear>("enumeration"); }, [] { gear<Part>("structure"); }, [] { gear<std::optional<Gear>>("optional"); }, [] { gear<std::shared_ptr<Gear>>("shared_ptr"); },
        [] { gear<std::unique_ptr<Part>>("unique_ptr"); }, [] { gear<std::vector<Part>>("vector"); }, [] { gear<std::vector<std::optional<Gear>>>("vector<optional>"); }, [] { gear<std::array<Part, 2>>("array"); },
        [] { gear<std::deque<Gear>>("deque"); }, [] { gear<awl::ring<Gear>>("ring"); }, [] { gear<std::set<Gear>>("set"); }, [] { gear<std::map<Gear, int>>("map key"); }, [] { gear<std::map<int, Gear>>("map value"); },
        [] { gear<std::variant<std::string, Gear>>("variant"); }, [] { gear<awl::vector_set<Gear>>("vector_set"); }, [] { gearV(); }, [] { gearV(); } };
}

SIM_SCENARIO(refused_values)
{
    using namespace rej;
    for (uint32_t n = 1 + W(4); n; --n)
        switch (W(4))
        {
        case 0: { auto& f = texts<Text<char>>(); f[W(uint32_t(f.size()))](); break; }
        case 1: { auto& f = W(2) ? texts<Text<wchar_t>>() : texts<Text<char16_t>>(); f[W(uint32_t(f.size()))](); break; }
        default: gears[W(uint32_t(gears.size()))](); break;
        }
}
