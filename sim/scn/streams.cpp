// C05: hashing and buffering streams.  C08: native file streams.
#include "common.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/NativeStream.h"
#include "Awl/Crypto/Crc64.h"
#include <memory>
#include <istream>
#include <ostream>
#include <algorithm>
#include <functional>
#include <sys/mman.h>

using namespace sim;

namespace
{
    using Bytes = std::vector<uint8_t>;

    struct Injected0 { int n; };

    // Thrown by the injected streams; each kind in turn.
    [[noreturn]] void throwSome(uint32_t what)
    {
        count_fault(K_STREAM);
        switch (what % 4)
        {
        case 0: throw awl::io::ReadFailException();
        case 1: throw awl::io::IoError(_T("injected"));
        case 2: throw std::runtime_error("injected");
        default: throw Injected0{ 1 };
        }
    }

    double pStream; bool streamFaults; int faultsFired;

    bool streamFault()
    {
        if (streamFaults && pStream > 0 && chance(K_STREAM, pStream)) { ++faultsFired; return true; }
        return false;
    }

    // ---- the streams below the hashing ones
    struct SimOut : awl::io::SequentialOutputStream
    {
        Bytes& v;
        explicit SimOut(Bytes& x) : v(x) {}
        void Write(const uint8_t* b, size_t n) override
        {
            if (streamFault())
            {
                size_t part = choose(K_STREAM, uint32_t(n) + 1);
                v.insert(v.end(), b, b + part);
                throwSome(choose(K_STREAM, 4));
            }
            v.insert(v.end(), b, b + n);
        }
    };

    struct SimIn : awl::io::SequentialInputStream
    {
        const Bytes& v; size_t pos = 0;
        explicit SimIn(const Bytes& x) : v(x) {}
        bool End() override { return pos == v.size(); }
        size_t Read(uint8_t* b, size_t n) override
        {
            size_t k = std::min(n, v.size() - pos);
            if (streamFault())
            {
                size_t part = choose(K_STREAM, uint32_t(k) + 1);
                if (part) memcpy(b, v.data() + pos, part);
                // either nothing is consumed, so that it can be repeated, or a part is lost
                if (choose(K_STREAM, 2)) pos += part;
                throwSome(choose(K_STREAM, 4));
            }
            if (k) memcpy(b, v.data() + pos, k);
            pos += k;
            return k;
        }
    };

    // A stream buffer that fails by throwing, as file buffers do.
    struct OutBuf : std::streambuf
    {
        Bytes& v;
        explicit OutBuf(Bytes& x) : v(x) {}
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            if (streamFault())
            {
                size_t part = choose(K_STREAM, uint32_t(n));
                v.insert(v.end(), s, s + part);
                if (choose(K_STREAM, 2)) throw std::runtime_error("injected");
                return std::streamsize(part);
            }
            v.insert(v.end(), s, s + n);
            return n;
        }
        int overflow(int c) override { char ch = char(c); return xsputn(&ch, 1) == 1 ? c : EOF; }
    };
    struct InBuf : std::streambuf
    {
        const Bytes& v; size_t pos = 0;
        explicit InBuf(const Bytes& x) : v(x) {}
        std::streamsize xsgetn(char* s, std::streamsize n) override
        {
            size_t k = std::min(size_t(n), v.size() - pos);
            if (streamFault())
            {
                size_t part = choose(K_STREAM, uint32_t(k) + 1);
                if (part) memcpy(s, v.data() + pos, part);
                throw std::runtime_error("injected");
            }
            if (k) memcpy(s, v.data() + pos, k);
            pos += k;
            return std::streamsize(k);
        }
        int underflow() override { if (streamFault()) throw std::runtime_error("injected"); return pos < v.size() ? v[pos] : EOF; }
        int uflow() override { int c = underflow(); if (c != EOF) ++pos; return c; }
    };

    // ---- other hashes
    struct Tiny : awl::crypto::BasicHash<3>
    {
        uint32_t seed;
        Tiny(uint32_t s = 5) : seed(s) {}
        template <class It> value_type operator()(It b, It e) const
        {
            uint32_t h = seed * 2654435761u + 1; for (; b != e; ++b) h = (h ^ *b) * 16777619u;
            h ^= h >> 13; return { uint8_t(h), uint8_t(h >> 8), uint8_t(h >> 16) };
        }
    };
    struct Wide : awl::crypto::BasicHash<20>
    {
        uint64_t seed;
        Wide(uint64_t s = 9) : seed(s) {}
        template <class It> value_type operator()(It b, It e) const
        {
            uint64_t h = scn::mixup(seed); for (; b != e; ++b) h = scn::mixup(h ^ *b);
            value_type r; for (size_t i = 0; i < r.size(); ++i) { r[i] = uint8_t(h >> (i % 8 * 8)); if (i % 8 == 7) h = scn::mixup(h); }
            return r;
        }
    };
    template <class H> constexpr bool Detects = std::is_same_v<H, awl::crypto::Crc64> || std::is_same_v<H, Wide>;

    // CRC-64/Jones, bit by bit: tells whether altered bytes happen to form a valid block.
    bool happensToBeValid(const uint8_t* b, size_t n, uint64_t seed)
    {
        if (n < 8) return false;
        uint64_t c = seed;
        for (size_t i = 0; i < n - 8; ++i) { c ^= b[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? c >> 1 ^ 0x95ac9329ac4bc9b5ull : c >> 1; }
        for (int i = 0; i < 8; ++i) if (b[n - 8 + i] != uint8_t(c >> (8 * i))) return false;
        return true;
    }

    // classify what was thrown: 0 alloc, 1 injected or stream failure, 2 corruption
    enum { ThrewAlloc, ThrewStream, ThrewCorrupt };
    template <class F> int guarded(F&& f) // -1: nothing thrown
    {
        try { f(); }
        catch (const std::bad_alloc&) { return ThrewAlloc; }
        catch (const awl::io::CorruptionException&) { return ThrewCorrupt; }
        catch (const awl::io::IoException&) { return ThrewStream; }
        catch (const std::runtime_error&) { return ThrewStream; }
        catch (const Injected0&) { return ThrewStream; }
        return -1;
    }

    Bytes makeData(size_t n, uint64_t salt, int avoid)
    {
        Bytes d; d.reserve(n);
        uint32_t shape = uint32_t(salt % 3);
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t c = shape == 0 ? uint8_t(scn::mixup(salt + i)) : shape == 1 ? uint8_t(i % 5) : uint8_t(scn::mixup(salt + i / 16) | (avoid >= 0));
            if (c == avoid) c += 2; // with a one byte seed it brings the CRC into its zero state
            d.push_back(c);
        }
        return d;
    }

    template <class Hash>
    struct HashRun
    {
        Hash hash; size_t block; Bytes data; int backend; uint64_t seed = 0; bool detects = Detects<Hash>;

        size_t payload() const { return block - Hash::size(); }

        // Writes data; returns the number of bytes which the stream accepted as written, -1 if it failed.
        bool write(Bytes& file)
        {
            using Out = awl::io::HashOutputStream<Hash>;
            bool complete = false;
            size_t given = 0;
            auto body = [&](awl::io::SequentialOutputStream& low)
            {
                std::unique_ptr<Out> out;
                int t = guarded([&] { AllocFaults af; out = block == awl::io::defaultBlockSize ? std::make_unique<Out>(low, hash) : std::make_unique<Out>(low, block, hash); });
                if (t >= 0) { SIM_CHECK(t == ThrewAlloc, "error-kind", "the constructor of the output stream throws"); return; }
                bool failed = false;
                while (given != data.size() && !failed)
                {
                    size_t n = std::min<size_t>(data.size() - given, W(4) == 0 ? W(uint32_t(data.size()) + 1) : W(uint32_t(std::min<size_t>(payload() * 2, 400)) + 1));
                    uint32_t a = alloc_failures(); int f = faultsFired;
                    t = guarded([&] { AllocFaults af; out->Write(data.data() + given, n); });
                    if (t >= 0)
                    {
                        failed = true; ev("write fails", t);
                        SIM_CHECK(t == ThrewAlloc ? alloc_failures() != a : faultsFired != f || (backend == 2 && alloc_failures() != a), "error-kind", "writing fails with exception %d although nothing was injected", t);
                    }
                    else { SIM_CHECK(faultsFired == f, "masked", "Write reports success although the underlying stream failed"); given += n; }
                }
                if (!failed)
                {
                    bool explicitFlush = W(3) != 0;
                    for (uint32_t i = 0; explicitFlush && i < 1 + W(2); ++i)
                    {
                        uint32_t a = alloc_failures(); int f = faultsFired;
                        t = guarded([&] { AllocFaults af; out->Flush(); });
                        if (t >= 0)
                        {
                            failed = true; ev("flush fails", t);
                            SIM_CHECK(t == ThrewAlloc ? alloc_failures() != a : faultsFired != f || (backend == 2 && alloc_failures() != a), "error-kind", "Flush fails with exception %d although nothing was injected", t);
                            break;
                        }
                        SIM_CHECK(faultsFired == f, "masked", "Flush reports success although the underlying stream failed");
                    }
                    if (explicitFlush && !failed) complete = true;
                }
                int f = faultsFired; uint32_t a = alloc_failures();
                if (failed) probe("output stream destroyed after a failure");
                { AllocFaults af; out.reset(); } // never terminates
                if (faultsFired != f) probe("the last block fails in the destructor");
                if (!failed && !complete && faultsFired == f && alloc_failures() == a) complete = true; // flushed by the destructor
            };
            if (backend == 0) { SimOut low(file); body(low); }
            else if (backend == 1) { awl::io::VectorOutputStream low(file); body(low); }
            else { OutBuf buf(file); std::ostream os(&buf); awl::io::StdOutputStream low(os); body(low); if (!os) complete = false; }
            return complete;
        }

        // Reads everything. intact: file holds all the data; limit: bytes up to this offset have to be delivered if no fault is injected
        void read(const Bytes& file, bool intact, bool longer)
        {
            using In = awl::io::HashInputStream<Hash>;
            auto body = [&](awl::io::SequentialInputStream& low, bool repeatable)
            {
                std::unique_ptr<In> in;
                int t = guarded([&] { AllocFaults af; in = block == awl::io::defaultBlockSize ? std::make_unique<In>(low, hash) : std::make_unique<In>(low, block, hash); });
                if (t >= 0) { SIM_CHECK(t == ThrewAlloc, "error-kind", "the constructor of the input stream throws"); return; }
                size_t pos = 0; bool exact = true; // exact: the position in the data is known
                bool anyFault = false; int again = 0;
                Bytes buf(std::max<size_t>(data.size() + 300, 1));
                for (int guard = 0; guard < 4000; ++guard)
                {
                    bool end = false; size_t got = 0, want = 0;
                    uint32_t a = alloc_failures(); int f = faultsFired;
                    if (W(4) == 0)
                    {
                        t = guarded([&] { AllocFaults af; end = in->End(); });
                    }
                    else
                    {
                        want = W(5) == 0 ? buf.size() : W(3) == 0 ? 1 + W(4) : 1 + W(uint32_t(std::min(payload() * 2, buf.size())));
                        memset(buf.data(), 0xa5, buf.size());
                        t = guarded([&] { AllocFaults af; got = in->Read(buf.data(), want); });
                        if (t < 0)
                        {
                            SIM_CHECK(got <= want, "too-much", "Read returns %zu for a request of %zu bytes", got, want);
                            for (size_t i = got; i < buf.size(); ++i) SIM_CHECK(buf[i] == 0xa5, "overrun", "Read writes beyond the bytes it reports");
                            end = got < want;
                        }
                    }
                    bool injected = faultsFired != f || alloc_failures() != a;
                    if (injected) anyFault = true;
                    if (t >= 0)
                    {
                        ev("read fails", t, int64_t(pos));
                        SIM_CHECK(t != ThrewAlloc || alloc_failures() != a, "error-kind", "bad_alloc without a failing allocation");
                        SIM_CHECK(t != ThrewStream || faultsFired != f || (!repeatable && (anyFault || again)), "error-kind", "a read error without a failing stream");
                        SIM_CHECK(t != ThrewCorrupt || !intact || anyFault, "false-corruption", "intact data are reported as corrupted");
                        // A caller may go on: what is delivered then has to be genuine data nevertheless.
                        exact = false;
                        if (++again > 3) return;
                        probe("read continued after a failure");
                        continue;
                    }
                    SIM_CHECK(faultsFired == f, "masked", "a read reports success although the underlying stream failed");
                    if (got)
                    {
                        if (!exact)
                        {
                            // resynchronized at the beginning of some block, or still inside of the block before
                            if (detects)
                            {
                                bool found = false;
                                for (size_t p = 0; p < data.size() && !found; ++p)
                                    if (got <= data.size() - p && !memcmp(buf.data(), data.data() + p, got)) found = true;
                                SIM_CHECK(found, "wrong-bytes", "after a failed read %zu bytes are delivered that were never written in this order", got);
                            }
                            else return;
                            pos = 0;
                        }
                        else if (detects || (intact && !anyFault))
                        {
                            size_t n = std::min(got, data.size() - pos);
                            SIM_CHECK(!memcmp(buf.data(), data.data() + pos, n), "wrong-bytes", "bytes delivered at %zu differ from the written ones", pos);
                            SIM_CHECK(n == got || longer, "wrong-bytes", "more bytes are delivered than have been written");
                            if (n != got) return;
                        }
                        pos += got;
                    }
                    ev("read", int64_t(want), int64_t(got));
                    if (end)
                    {
                        if (intact && !anyFault && exact) SIM_CHECK(pos == data.size(), "short", "the end of the data is reported at %zu of %zu", pos, data.size());
                        if (want == 0 || W(2)) { SIM_CHECK(anyFault || (guarded([&] { got = in->Read(buf.data(), 3); }) < 0 && got == 0) || faultsFired != f, "after-end", "data after the end"); }
                        return;
                    }
                }
            };
            if (backend == 0) { SimIn low(file); body(low, true); }
            else if (backend == 1) { awl::io::VectorInputStream low(file); body(low, true); }
            else { InBuf buf(file); std::istream is(&buf); awl::io::StdInputStream low(is); body(low, false); }
            scn::use(intact);
        }

        // Truncation at cut: throws, unless the cut is between blocks or the rest of the block happens to be valid.
        void readCut(const Bytes& file, size_t cut)
        {
            Bytes part(file.begin(), file.begin() + cut);
            size_t rest = cut % block;
            bool valid = rest == 0;
            if (rest >= Hash::size() && !valid)
            {
                auto h = hash(part.end() - rest, part.end() - Hash::size());
                valid = std::equal(h.begin(), h.end(), part.end() - Hash::size());
            }
            awl::io::VectorInputStream low(part);
            awl::io::HashInputStream<Hash> in(low, block, hash);
            Bytes buf(data.size() + 1);
            size_t pos = 0;
            int t = guarded([&] {
                for (;;)
                {
                    size_t want = 1 + W(uint32_t(std::min(payload() * 2, data.size() + 1)));
                    want = std::min(want, buf.size() - pos);
                    size_t got = in.Read(buf.data() + pos, want);
                    pos += got;
                    if (got < want || pos == buf.size()) break;
                }
            });
            SIM_CHECK(t < 0 || t == ThrewCorrupt, "error-kind", "truncated data are reported as something else");
            SIM_CHECK((t < 0) == valid, "truncation", valid ? "data cut between blocks are reported as corrupted" : "data cut inside of a block at %zu are accepted", cut);
            SIM_CHECK(pos <= data.size() && std::equal(buf.begin(), buf.begin() + pos, data.begin()), "wrong-bytes", "truncated data deliver wrong bytes");
            probe(t < 0 ? "cut between blocks" : "cut inside of a block");
        }

        void run()
        {
            Bytes file;
            bool complete = write(file);
            ev("file", int64_t(file.size()), complete);
            // independent reading without faults
            streamFaults = false; cfg().p_alloc = 0;
            if (complete)
            {
                size_t n = data.size(), full = n / payload(), tail = n % payload();
                SIM_CHECK(file.size() == full * block + (tail ? tail + Hash::size() : 0), "incomplete", "%zu bytes are reported as written but the underlying stream got %zu bytes", n, file.size());
                read(file, true, false);
            }
            else { probe("output abandoned"); if (detects) read(file, false, false); }
            streamFaults = true; 
            uint32_t what = W(4);
            if (what == 0) { cfg().p_alloc = tune({ 0, 0.05, 0.3 }); read(file, complete, false); }
            else if (!complete || file.empty()) return;
            else if (what == 1) { streamFaults = false; readCut(file, W(uint32_t(file.size()) + 1)); }
            else
            {
                // altered
                Bytes bad = file; bool longer = false;
                uint32_t n = 1 + W(3);
                for (uint32_t i = 0; i < n && !bad.empty(); ++i)
                {
                    count_fault(K_CORRUPT);
                    size_t p = choose(K_CORRUPT, uint32_t(bad.size()));
                    switch (choose(K_CORRUPT, 6))
                    {
                    case 0: bad[p] ^= uint8_t(1 << choose(K_CORRUPT, 8)); break;
                    case 1: bad[p] = uint8_t(choose(K_CORRUPT, 256)); break;
                    case 2: { size_t q = choose(K_CORRUPT, uint32_t(bad.size())); std::swap(bad[p], bad[q]); break; }
                    case 3: bad.erase(bad.begin() + p); break;
                    case 4: bad.insert(bad.begin() + p, uint8_t(choose(K_CORRUPT, 256))); longer = true; break;
                    default: { size_t e = std::min(bad.size(), p + 1 + choose(K_CORRUPT, 30)); std::fill(bad.begin() + p, bad.begin() + e, 0); break; }
                    }
                }
                if constexpr (std::is_same_v<Hash, awl::crypto::Crc64>)
                    for (size_t b = 0; b < bad.size(); b += block)
                    {
                        size_t n = std::min(block, bad.size() - b);
                        bool same = b + n <= file.size() && (n == block || file.size() == bad.size()) && !memcmp(bad.data() + b, file.data() + b, n);
                        if (!same && happensToBeValid(bad.data() + b, n, seed)) { probe("altered bytes form a valid block"); return; }
                    }
                if (W(2)) streamFaults = false;
                read(bad, bad == file, longer);
                if (bad != file) probe("altered data read");
            }
        }
    };

    template <class Hash> void hashRun(Hash h, int avoid, uint64_t seed = 127)
    {
        HashRun<Hash> r{ h, 0, {}, 0, seed };
        static const size_t extra[] = { 1, 2, 3, 8, 17, 40, 100, 1000 };
        uint32_t b = W(40);
        r.block = b == 39 ? awl::io::defaultBlockSize : Hash::size() + extra[b % 8];
        r.backend = int(W(4)) % 3;
        size_t n = r.payload() > 2000 ? (W(2) ? r.payload() * W(3) + W(3) : W(3000)) : W(3) == 0 ? r.payload() * W(5) : W(uint32_t(r.payload() * 5));
        r.data = makeData(n, W(1000), avoid);
        ev("config", int64_t(r.block), r.backend, int64_t(n));
        r.run();
        state(scn::mixup(r.block * 77 + n) ^ uint64_t(faultsFired) << 40);
    }
}

SIM_SCENARIO(hash_streams)
{
    cfg().step_cap = 3000000; cfg().step_max = 6000000;
    pStream = tune({ 0, 0, 0.02, 0.1, 0.3 });
    cfg().p_alloc = tune({ 0, 0, 0.05, 0.2 });
    streamFaults = true; faultsFired = 0;
    switch (W(6))
    {
    case 0: case 1: hashRun(awl::crypto::Crc64(), 127); break;
    case 2: { uint64_t s = 0; for (int i = 0; i < 4; ++i) s = s << 16 | (1 + W(65535)); hashRun(awl::crypto::Crc64(s), -1, s); break; }
    case 3: hashRun(awl::crypto::FakeHash(), -1); break;
    case 4: hashRun(Tiny(W(100)), -1); break;
    default: hashRun(Wide(W(100)), -1); break;
    }
    streamFaults = false;
}

// --------------------------------------------------------------------------------------------------------------- C08

namespace
{
    struct File { std::string path; Bytes data; bool exists = false, fsyncFailed = false; size_t base = 0; /* so many zeroes before the data */ size_t size() const { return base + data.size(); } };
    constexpr size_t HugeSize = 0x100100000;
    struct Slot { std::unique_ptr<awl::io::UniqueStream> s; int file = -1; size_t pos = 0; bool ro = false; };

    // Memory which is never touched as a whole.
    uint8_t* hugeBuffer()
    {
        static uint8_t* const p = static_cast<uint8_t*>(mmap(nullptr, HugeSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        SIM_CHECK(p != MAP_FAILED, "setup", "no address space");
        return p;
    }
    // A read into a buffer of some GB.
    template <class Op> void readHuge(Slot& s, File& x, size_t avail, Op&& op)
    {
        const size_t n = (W(2) ? 0x80000000 : 0x100000000) + W(100), look = avail + 5000;
        uint8_t* buf = hugeBuffer(); size_t got = 0;
        memset(buf, 0xa5, look);
        bool t = op([&] { got = s.s->Read(buf, n); }, false, false, "read into a huge buffer");
        if (!t)
        {
            SIM_CHECK(got == avail, "short-read", "read returns %zu instead of %zu", got, avail);
            for (size_t i = 0; i < avail; ++i) SIM_CHECK(buf[i] == (s.pos + i < x.base ? 0 : x.data[s.pos + i - x.base]), "wrong-bytes", "read delivers wrong bytes");
            s.pos += got;
        }
        else { size_t p = s.s->GetPosition(); SIM_CHECK(p >= s.pos && p <= s.pos + avail, "position", "the position after a failed read is %zu", p); s.pos = p; }
        for (size_t i = avail; i < look; ++i) SIM_CHECK(buf[i] == 0xa5, "overrun", "read writes beyond the bytes it reports");
        memset(buf, 0, look);
        probe("a read of some GB"); ev("read", int64_t(n), int64_t(got));
    }

    Bytes content(const std::string& p) { std::string s = disk::content(p.c_str()); return Bytes(s.begin(), s.end()); }
}

SIM_SCENARIO(native_stream)
{
    disk::reset();
    auto& f = disk::faults();
    static const uint32_t sectors[] = { 16, 1, 7, 64, 512 };
    disk::set_sector(sectors[W(5)]);
    f.read_err = tune({ 0, 0, 0.02, 0.1 }); f.read_short = tune({ 0, 0.1, 0.5 }); f.read_eintr = tune({ 0, 0.1, 0.4 });
    f.write_err = tune({ 0, 0, 0.02, 0.1 }); f.write_short = tune({ 0, 0.1, 0.5 }); f.write_eintr = tune({ 0, 0.1, 0.4 });
    f.fsync_err = tune({ 0, 0, 0.1 }); f.trunc_err = tune({ 0, 0, 0.1 }); f.open_err = tune({ 0, 0, 0.1 }); f.stat_err = tune({ 0, 0, 0.1 }); f.close_err = tune({ 0, 0, 0.2 });
    cfg().p_alloc = tune({ 0, 0, 0, 0.1 });
    const bool limited = W(4) == 0;
    if (limited) disk::set_capacity(100 + W(400));

    File files[2]; files[0].path = "/simdisk/a"; files[1].path = "/simdisk/b";
    for (auto& x : files) if (W(3) == 0) { x.data = makeData(W(200), W(50), -1); x.exists = true; disk::put(x.path.c_str(), std::string(x.data.begin(), x.data.end())); }
    static const size_t bases[] = { 0x7ffffff0, 0x80000010, 0xfffffff0, 0x100000010, 0x17fffffff, 0x300000000 };
    if (files[0].exists && W(2)) { files[0].base = bases[W(6)]; disk::set_base(files[0].path.c_str(), files[0].base); probe("a file of some GB"); }
    Slot slots[3]; int openCount = 0;
    scn::use(openCount);

    uint64_t fired = 0; uint32_t allocs = 0;
    auto begin = [&] { fired = disk::hard_faults(); allocs = alloc_failures(); };
    auto faulted = [&] { return disk::hard_faults() != fired || alloc_failures() != allocs; };
    // Runs an operation of a stream; true if it throws. must: it has to throw.
    auto op = [&](auto&& fn, bool must, bool maySilently, const char* what) -> bool
    {
        begin();
        bool t = false;
        { AllocFaults af; try { fn(); } catch (const awl::io::IoException&) { t = true; } catch (const std::bad_alloc&) { t = true; SIM_CHECK(alloc_failures() != allocs, "error-kind", "%s: bad_alloc without a failing allocation", what); } }
        if (must) SIM_CHECK(t, "accepted", "%s succeeds although it cannot", what);
        else if (t) SIM_CHECK(faulted() || maySilently, "spurious-error", "%s throws although nothing failed", what);
        if (t) { probe("stream operation failed"); ev(what, -1); }
        return t;
    };
    auto sync = [&](int i) // nothing else changes the files
    {
        File& x = files[i];
        SIM_CHECK(disk::exists(x.path.c_str()) == x.exists, "existence", "the file %s unexpectedly", x.exists ? "does not exist" : "exists");
        if (x.exists) SIM_CHECK(content(x.path) == x.data, "content", "the file has not the expected content");
    };

    uint32_t steps_ = 10 + W(60);
    for (uint32_t step = 0; step < steps_; ++step)
    {
        int si = int(W(3)); Slot& s = slots[si];
        if (!s.s)
        {
            int fi = int(W(2)); File& x = files[fi];
            bool ro = W(3) == 0, had = x.exists;
            int fds = disk::open_fds();
            bool t = op([&] {
                if (ro) s.s = std::make_unique<awl::io::UniqueStream>(awl::io::OpenUniqueFile(x.path));
                else s.s = std::make_unique<awl::io::UniqueStream>(awl::io::CreateUniqueFile(x.path));
            }, ro && !had, false, "open");
            if (!ro && disk::exists(x.path.c_str())) x.exists = true; // created, maybe although the object could not be allocated
            if (t) { SIM_CHECK(disk::open_fds() == fds, "descriptors", "a failed open leaves a descriptor"); continue; }
            if (!ro) SIM_CHECK(awl::io::OpenedExisting() == had, "existing", "OpenedExisting returns %d", int(!had));
            SIM_CHECK(disk::open_fds() == fds + 1, "descriptors", "opening a file does not open one descriptor");
            s.file = fi; s.pos = 0; s.ro = ro;
            ev("open", fi, ro); sync(fi);
            continue;
        }
        File& x = files[s.file]; awl::io::UniqueStream& st = *s.s;
        switch (W(14))
        {
        case 0: case 1: case 2:
        {
            size_t n = W(3) ? W(60) : W(300);
            if (W(150) == 1) { n = 60000 + W(100000); probe("a read of more than 60000 bytes"); }
            size_t avail = s.pos < x.size() ? x.size() - s.pos : 0;
            if (avail < 1000000 && W(150) == 1) { readHuge(s, x, avail, op); break; }
            Bytes buf(n + 4, 0xa5); size_t got = 0;
            size_t want = std::min(n, avail);
            bool t = op([&] { got = st.Read(buf.data(), n); }, false, false, "read");
            if (!t)
            {
                SIM_CHECK(got == want, "short-read", "read returns %zu instead of %zu", got, want);
                for (size_t i = 0; i < want; ++i) SIM_CHECK(buf[i] == (s.pos + i < x.base ? 0 : x.data[s.pos + i - x.base]), "wrong-bytes", "read delivers wrong bytes");
                s.pos += got;
            }
            else { size_t p = st.GetPosition(); SIM_CHECK(p >= s.pos && p <= s.pos + want, "position", "the position after a failed read is %zu", p); s.pos = p; }
            for (size_t i = n; i < n + 4; ++i) SIM_CHECK(buf[i] == 0xa5, "overrun", "read writes beyond the buffer");
            for (size_t i = t ? want : got; i < n; ++i) SIM_CHECK(buf[i] == 0xa5, "overrun", "read writes beyond the bytes it reports");
            ev("read", int64_t(n), int64_t(got));
            break;
        }
        case 3: case 4: case 5: case 6:
        {
            size_t n = W(3) ? W(60) : W(300);
            if (s.pos < x.base || s.pos > x.size() + 2000) break; // would need the memory
            if (W(150) == 1) { n = 60000 + W(100000); probe("a write of more than 60000 bytes"); }
            if (limited && W(100) == 1) // the disk is full long before the end
            {
                const size_t huge = (W(2) ? 0x80000000 : 0x100000000) + W(400);
                bool t = op([&] { st.Write(hugeBuffer(), huge); }, true, false, "write of some GB");
                size_t p = st.GetPosition(); SIM_CHECK(t && p >= s.pos && p <= s.pos + 1000, "position", "the position after a failed write is %zu", p);
                if (size_t done = p - s.pos) { size_t at = s.pos - x.base; if (x.data.size() < at + done) x.data.resize(at + done); memset(x.data.data() + at, 0, done); }
                s.pos = p; sync(s.file); probe("a write of some GB"); break;
            }
            Bytes d = makeData(n, W(1000), -1);
            Bytes before = x.data;
            bool t = op([&] { st.Write(d.data(), n); }, s.ro && n > 0, false, "write");
            size_t done = n;
            if (t) { size_t p = st.GetPosition(); SIM_CHECK(p >= s.pos && p <= s.pos + n && (p < s.pos + n || n == 0), "position", "the position after a failed write is %zu", p); done = p - s.pos; if (done) probe("write fails after a part"); }
            if (done) { size_t at = s.pos - x.base; if (x.data.size() < at + done) x.data.resize(at + done); memcpy(x.data.data() + at, d.data(), done); }
            s.pos += done;
            sync(s.file);
            ev("write", int64_t(n), int64_t(done));
            break;
        }
        case 7:
        {
            size_t p = W(3) == 0 ? W(500) : x.base + W(uint32_t(x.data.size()) + 1);
            if (W(10) == 1) { p = bases[W(6)] + W(100); probe("a position of some GB"); }
            if (!op([&] { st.Seek(p); }, false, false, "seek")) s.pos = p;
            break;
        }
        case 8:
        {
            size_t back = W(3) ? 0 : W(uint32_t(x.data.size()) + 5);
            if (W(10) == 1) back = bases[W(6)] - W(100);
            bool bad = back > x.size();
            if (!op([&] { st.Seek(size_t(-std::ptrdiff_t(back)), false); }, bad, false, "seek from the end")) s.pos = x.size() - back;
            break;
        }
        case 9:
        {
            std::ptrdiff_t o = std::ptrdiff_t(W(60)) - 30;
            if (W(6) == 1) { o = std::ptrdiff_t(bases[W(6)] + W(100)) * (s.pos > 0x7fffffff ? -1 : 1); probe("a move by some GB"); }
            bool bad = std::ptrdiff_t(s.pos) + o < 0;
            if (!op([&] { st.Move(o); }, bad, false, "move")) s.pos = size_t(std::ptrdiff_t(s.pos) + o);
            break;
        }
        case 10:
        {
            if (s.pos < x.base || s.pos > x.size() + 2000) break;
            bool grow = s.pos > x.size(), t = op([&] { st.Truncate(); }, s.ro && s.pos != x.size(), grow || s.ro, "truncate");
            if (!t) x.data.resize(s.pos - x.base);
            sync(s.file); ev("truncate", t, int64_t(s.pos));
            break;
        }
        case 11:
        {
            bool t = op([&] { st.Flush(); }, false, false, "flush");
            if (t) x.fsyncFailed = true;
            else if (!x.fsyncFailed) SIM_CHECK(Bytes(content(x.path)) == x.data && disk::durable(x.path.c_str()) == disk::content(x.path.c_str()), "not-durable", "flushed data are not on the disk");
            break;
        }
        case 12:
        {
            size_t len = 0; bool end = false;
            if (!op([&] { len = st.GetLength(); }, false, false, "length")) SIM_CHECK(len == x.size(), "length", "the length is %zu instead of %zu", len, x.size());
            if (!op([&] { end = st.End(); }, false, false, "end") && s.pos <= x.size()) SIM_CHECK(end == (s.pos == x.size()), "end", "End returns %d at %zu of %zu", int(end), s.pos, x.size());
            break;
        }
        case 13:
        {
            int fds = disk::open_fds();
            switch (W(4))
            {
            case 0: s.s.reset(); s.file = -1; SIM_CHECK(disk::open_fds() == fds - 1, "descriptors", "closing a stream does not close its descriptor"); break;
            case 1: // move construction
            {
                auto p = std::make_unique<awl::io::UniqueStream>(std::move(st));
                if (W(2)) { s.s = std::move(p); }
                else { std::unique_ptr<awl::io::UniqueStream> old = std::move(s.s); s.s = std::move(p); old.reset(); }
                SIM_CHECK(disk::open_fds() == fds, "descriptors", "moving a stream changes the number of descriptors");
                break;
            }
            case 2: // move assignment to another one, which is closed
            {
                Slot& o = slots[W(3)];
                if (&o == &s || !o.s) break;
                *o.s = std::move(*s.s);
                o.file = s.file; o.pos = s.pos; o.ro = s.ro;
                s.s.reset(); s.file = -1;
                SIM_CHECK(disk::open_fds() == fds - 1, "descriptors", "move assignment does not close the old descriptor");
                break;
            }
            default:
            {
                // an exception while a stream is on the stack
                bool t = false; awl::io::UniqueStream e;
                try { awl::io::UniqueStream a(std::move(st)); e = std::move(a); throw 1; } catch (int) { t = true; }
                s.s.reset(); s.file = -1;
                SIM_CHECK(t && disk::open_fds() == fds, "descriptors", "lost a descriptor");
                e = awl::io::UniqueStream();
                SIM_CHECK(disk::open_fds() == fds - 1, "descriptors", "an empty stream assigned does not close the descriptor");
            }
            }
            ev("handles", disk::open_fds());
            break;
        }
        }
        if (s.s) SIM_CHECK(s.s->GetPosition() == s.pos, "position", "the position is %zu instead of %zu", s.s->GetPosition(), s.pos);
    }
    for (auto& s : slots) s.s.reset();
    SIM_CHECK(disk::open_fds() == 0, "descriptors", "%d descriptors are left open", disk::open_fds());
    for (int i = 0; i < 2; ++i) sync(i);
    state(scn::mixup(files[0].data.size() * 1000 + files[1].data.size()) ^ disk::faults_fired() << 48);
}
