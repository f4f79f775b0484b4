// C01, C02, C03, C04, C07: the storage stack (PersistentObject, AtomicStorage, OptionalStorage, Euphorically/HeaderedSerializable,
// version tolerant serialization, hash streams, native streams) runs unmodified on the simulated disk.
#include "common.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/OptionalMutex.h"
#include <memory>
#include <thread>
#include <filesystem>
#include <mutex>
#include <optional>

using namespace sim;

namespace
{
    struct Item { int32_t a; std::string b; bool operator == (const Item&) const = default; AWL_REFLECT(a, b) };

    struct Val
    {
        int64_t id = -1;
        std::vector<int64_t> data;
        std::string text;
        std::map<int32_t, std::string> names;
        std::vector<Item> items;
        int64_t check = 0;

        bool operator == (const Val&) const = default;
        AWL_REFLECT(id, data, text, names, items, check)
    };

    // In a few runs some of the values do not fit into 64 K.
    bool bigValues = false;

    // The whole value follows from its id.
    Val make(int64_t id)
    {
        Val v;
        v.id = id;
        uint64_t h = scn::mixup(uint64_t(id) * 77 + 5);
        uint32_t shape = h % 5;
        uint32_t n = shape == 0 ? 0 : shape == 1 ? 3 : shape == 2 ? 20 : h / 7 % 12;
        for (uint32_t i = 0; i < n; ++i) v.data.push_back(int64_t(scn::mixup(h + i)));
        n = h / 100 % 40;
        if (shape == 3) v.text.assign(n + 30, '\0'); // zeroes are valid data as well
        else for (uint32_t i = 0; i < n; ++i) v.text += char('a' + (h + i * i) % 26);
        n = h / 10000 % 4;
        for (uint32_t i = 0; i < n; ++i) v.names[int32_t(i * 3)] = std::string(h / 100000 % 9, 'n');
        n = h / 1000000 % 3;
        for (uint32_t i = 0; i < n; ++i) v.items.push_back(Item{ int32_t(id), std::string(i, 'x') });
        v.check = int64_t(scn::mixup(uint64_t(id)));
        if (bigValues && id > 0 && h % 3 == 0)
        {
            v.text.resize(65000 + h / 11 % 3000 * (h / 3 % 2 + 1));
            for (size_t i = 0; i < v.text.size(); ++i) v.text[i] = char(i * i + h);
        }
        return v;
    }

    class CountingLogger : public awl::Logger
    {
    public:
        int warnings = 0, all = 0;
        void log(awl::LogLevel level, awl::LogString) override { ++all; if (level == awl::LogLevel::Warning || level == awl::LogLevel::Error) ++warnings; }
    };

    const char Master[] = "/simdisk/settings.dat", Backup[] = "/simdisk/settings.bak";

    struct Session
    {
        CountingLogger logger;
        virtual ~Session() = default;
        virtual bool open() = 0;
        virtual bool isOpen() = 0;
        virtual bool load() = 0;
        virtual void save() = 0;
        virtual void close() = 0;
        virtual Val& val() = 0;
        virtual bool optional() { return false; }
        virtual bool moveStorage() { return false; }
        virtual bool canRemove() { return false; }
        virtual void remove() {}
        virtual int empty() { return -1; }       // -1 cannot be asked
        std::string base = "/simdisk/settings";
        std::string master() const { return base + ".dat"; }
        std::string backup() const { return base + ".bak"; }
    };

    template <class Storage>
    struct PlainSession : Session
    {
        Val v;
        awl::io::EuphoricallySerializable<Val> ser;
        Storage st;
        PlainSession(size_t bs) : ser(v, bs), st(logger) {}
        bool open() override { return st.Open(master(), backup()); }
        int empty() override { return st.IsEmpty(); }
        bool isOpen() override { return st.IsOpened(); }
        bool load() override { return st.Load(ser); }
        void save() override { st.Save(ser); }
        void close() override { st.Close(); }
        Val& val() override { return v; }
        bool optional() override { return std::is_same_v<Storage, awl::io::OptionalStorage>; }
        bool moveStorage() override { Storage t(std::move(st)); Storage u(logger); u = std::move(t); if (W(2)) st = std::move(u); else { st.~Storage(); new (&st) Storage(std::move(u)); } return true; }
    };

    template <class Object>
    struct ObjectSession : Session
    {
        Object obj;
        ObjectSession(size_t bs) : obj(logger, awl::io::Header{ "sim", 3u }, bs) {}
        bool open() override { return obj.open(base); }
        bool canRemove() override { return true; }
        void remove() override { obj.remove(base); }
        bool isOpen() override { return obj.is_open(); }
        bool load() override { return obj.load(); }
        void save() override { obj.save(); }
        void close() override { obj.close(); }
        Val& val() override { return *obj; }
        bool optional() override { return std::is_same_v<Object, awl::io::OptionalObject<Val>>; }
    };

    // saving under a mutex goes through a snapshot
    struct LockSession : PlainSession<awl::io::AtomicStorage>
    {
        std::mutex m;
        awl::MutexWrapper<std::mutex> w{ m };
        using PlainSession::PlainSession;
        void save() override { st.Save(ser, &w); }
    };

    std::unique_ptr<Session> makeSession(uint32_t kind, size_t bs)
    {
        switch (kind)
        {
        case 0: return std::make_unique<PlainSession<awl::io::AtomicStorage>>(bs);
        case 1: return std::make_unique<ObjectSession<awl::io::PersistentObject<Val>>>(bs);
        case 2: return std::make_unique<LockSession>(bs);
        case 3: return std::make_unique<ObjectSession<awl::io::OptionalObject<Val>>>(bs);
        default: return std::make_unique<PlainSession<awl::io::OptionalStorage>>(bs);
        }
    }

    size_t pickBlock()
    {
        static const size_t b[] = { 64, 9, 16, 24, 33, 100, 500, 65536 };
        return b[W(8)];
    }

    // What may be loaded: the last value that is known to be stored, or any value whose save was attempted since.
    struct Model
    {
        int64_t stored = 0;              // 0: nothing
        std::vector<int64_t> later;
        bool weak = false;               // the application went on saving although a load had failed because of injected errors:
                                         // until a save completes the old value may be lost
        int64_t next = 1;

        bool allows(int64_t id) const { if (id == stored && id) return true; for (auto a : later) if (a == id) return true; return false; }
        std::string text() const { std::string s = std::to_string(stored); for (auto a : later) s += " " + std::to_string(a); return s; }
        void set(int64_t id) { stored = id; later.clear(); weak = false; }
    };

    void checkValue(const Val& v, const Model& m)
    {
        SIM_CHECK(v == make(v.id), "garbage", "loaded a value that is not one of the saved values (id %lld)", (long long)v.id);
        SIM_CHECK(m.allows(v.id), "wrong-value", "loaded value %lld, allowed are: %s", (long long)v.id, m.text().c_str());
    }

    // Allocations fail during loads and saves.
    double pAllocFault = 0;

    // Returns true if a value was loaded. Only called while the machine is up.
    bool loadAndCheck(Session& s, Model& m)
    {
        s.val() = make(-5);
        uint64_t faults = disk::hard_faults();
        bool r = false, thrown = false;
        const uint32_t allocs = alloc_failures();
        if (pAllocFault > 0) fail_nth_alloc(choose_p(K_ALLOC, 60, pAllocFault));
        try { r = s.load(); }
        catch (const awl::io::IoException&) { thrown = true; }
        catch (const std::bad_alloc&) { thrown = true; }
        fail_nth_alloc(0);
        if (disk::crashed()) return false;
        ev("load", r, thrown, s.val().id);
        faults = disk::hard_faults() - faults + (alloc_failures() - allocs);
        if (alloc_failures() != allocs) probe("an allocation fails while loading");
        if (thrown)
        {
            SIM_CHECK(faults != 0, "load-throws", "load throws although no I/O error was injected");
            probe("load failed with an exception");
            if (s.val().id != -5) { checkValue(s.val(), m); }
            else SIM_CHECK(s.val() == make(-5), "changed", "a failed load changed the object");
            return false;
        }
        if (r)
        {
            checkValue(s.val(), m);
            if (!m.weak) m.set(s.val().id);
            return true;
        }
        SIM_CHECK(s.val() == make(-5), "changed", "a failed load changed the object");
        if (faults == 0 && !m.weak)
            SIM_CHECK(m.stored == 0, "lost", "load reports failure although value %lld was stored (attempts: %s)", (long long)m.stored, m.text().c_str());
        if (faults) probe("load failed because of read errors");
        return false;
    }

    // Returns true if the save is known to be complete.
    bool saveAndCheck(Session& s, Model& m, bool mayFail)
    {
        int64_t id = m.next++;
        s.val() = make(id);
        uint64_t faults = disk::hard_faults();
        int warn = s.logger.warnings;
        m.later.push_back(id);
        bool ok = false, thrown = false, memory = false;
        const uint32_t allocs = alloc_failures();
        if (pAllocFault > 0 && mayFail) fail_nth_alloc(choose_p(K_ALLOC, 60, pAllocFault));
        try { s.save(); ok = true; }
        catch (const awl::io::IoException&) { thrown = true; }
        catch (const std::bad_alloc&) { memory = true; }
        fail_nth_alloc(0);
        if (disk::crashed()) return false;
        SIM_CHECK(s.val() == make(id), "save-changes", "saving changed the value");
        faults = disk::hard_faults() - faults + (alloc_failures() - allocs);
        if (alloc_failures() != allocs) probe("an allocation fails while saving");
        SIM_CHECK(!memory || alloc_failures() != allocs, "save-fails", "save runs out of memory although no allocation failed");
        if (memory) ok = false;
        else if (s.optional())
        {
            SIM_CHECK(!thrown, "optional-throws", "a save to the optional storage throws");
            ok = s.logger.warnings == warn;
            if (!ok) probe("optional storage warned about a failed save");
        }
        if (!ok)
        {
            SIM_CHECK(faults != 0, "save-fails", "save fails although no I/O error was injected");
            SIM_CHECK(mayFail, "save-fails", "save fails after the faults have stopped");
            probe("save failed");
            if (faults == 0) fail("save-fails", "save fails without an injected fault");
        }
        else if (faults) probe("save succeeded despite faults");
        ev("save", ok, id, int64_t(faults));
        if (ok) m.set(id);
        return ok;
    }

    struct Mode { bool crash, io; uint32_t kinds[3]; bool openErr; };

    void randomFaults(bool openErr)
    {
        auto& f = disk::faults();
        bool read = tune_n(2) == 0;
        f.write_err = tune({ 0, 0, 0.02, 0.1, 0.4 });
        f.write_short = tune({ 0, 0, 0.05, 0.3 });
        f.write_eintr = tune({ 0, 0, 0.05, 0.3 });
        f.trunc_err = tune({ 0, 0, 0.05, 0.3 });
        f.stat_err = 0;
        // an fsync that fails loses data: what the file system then holds and what is read back may differ. Either this or read errors.
        if (read) { f.read_err = tune({ 0.02, 0.1, 0.4 }); f.read_short = tune({ 0, 0.1, 0.5 }); f.read_eintr = tune({ 0, 0.1, 0.3 }); f.stat_err = tune({ 0, 0, 0.1 }); }
        else { f.fsync_err = tune({ 0, 0.05, 0.1, 0.3, 0.6 }); f.read_short = tune({ 0, 0.1 }); f.read_eintr = tune({ 0, 0.1 }); }
        f.open_err = openErr ? tune({ 0, 0.1, 0.4 }) : 0;
        f.close_err = tune({ 0, 0, 0, 0.3 });
    }

    void storageRun(uint32_t kind, bool withIo)
    {
        cfg().expect_all_done = true;
        static const uint32_t sectors[] = { 64, 16, 512, 1 };
        disk::set_sector(sectors[W(4)]);
        size_t bs = pickBlock();
        bigValues = W(150) == 0;
        if (bigValues) { probe("values of more than 65000 bytes"); if (bs < 500) bs = W(2) ? 500 : 65536; disk::set_sector(512); }
        Model m;
        uint32_t epochs = 1 + W(withIo ? 4 : 5);
        if (kind < 4 && W(8) == 1) m.next = int64_t(W(1000));
        if (m.next == 0) m.next = 1;
        bool clean = true; // nothing has been interrupted and the last save succeeded

        for (uint32_t e = 0; e < epochs; ++e)
        {
            bool crash = W(5) != 0;
            if (crash)
            {
                static const uint32_t range[] = { 8, 30, 80 };
                disk::crash_at(choose(K_CRASH, range[choose(K_CRASH, 3)] * (bigValues ? 8 : 1)), choose(K_CRASH, 3) != 2);
            }
            pAllocFault = 0;
            if (withIo)
            {
                randomFaults(true);
                pAllocFault = tune({ 0, 0, 0, 0.2, 0.5 });
                if (tune_n(3) == 0) disk::set_capacity(disk::size(Master) + disk::size(Backup) + W(1500)); else disk::set_capacity(0);
            }

            auto s = makeSession(kind, bs);
            bool opened = false;
            if (withIo && W(6) == 0 && !disk::crashed())
            {
                // the same storage is used with other files before
                const std::string mine = std::exchange(s->base, "/simdisk/other");
                try { s->open(); } catch (const awl::io::IoException&) {}
                if (!disk::crashed() && s->isOpen())
                {
                    s->val() = make(999998);
                    try { s->save(); } catch (const awl::io::IoException&) { probe("save to other files failed"); }
                }
                if (!disk::crashed()) { s->close(); SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after close", disk::open_fds()); }
                s->base = mine; s->val() = Val{};
            }
            for (int i = 0; i < 6 && !disk::crashed(); ++i)
            {
                uint64_t f = disk::hard_faults();
                int w = s->logger.warnings;
                bool thrown = false;
                try { s->open(); } catch (const awl::io::IoException&) { thrown = true; }
                if (disk::crashed()) break;
                f = disk::hard_faults() - f;
                opened = s->isOpen();
                if (thrown || !opened)
                {
                    SIM_CHECK(!s->optional() || !thrown, "optional-throws", "open of the optional storage throws");
                    SIM_CHECK(f != 0, "open-fails", "open fails although no error was injected");
                    SIM_CHECK(!opened, "half-open", "the storage is open after a failed open");
                    SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after a failed open", disk::open_fds());
                    if (s->optional())
                    {
                        SIM_CHECK(s->logger.warnings > w, "silent", "a failed open is not reported as a warning");
                        // saving is a no-op
                        w = s->logger.warnings;
                        uint64_t n = disk::ops();
                        s->val() = make(999999);
                        s->save();
                        if (disk::crashed()) break;
                        SIM_CHECK(disk::ops() == n && s->logger.warnings == w, "closed-save", "a save to the closed optional storage does something");
                        probe("save to a closed optional storage");
                    }
                    probe("open failed");
                }
                else { SIM_CHECK(!thrown, "open-throws", "open throws but the storage is open"); break; }
            }
            if (!opened && !disk::crashed()) { disk::faults() = {}; disk::set_capacity(0); s->open(); opened = disk::crashed() || s->isOpen(); SIM_CHECK(opened, "open-fails", "open fails without faults"); }

            bool loaded = false;
            // The application does not load what is stored. After a crash or a failure it has to: a save truncates what may be the only copy.
            const bool blind = W(6) == 0 && clean;
            if (blind) { loaded = true; probe("saved without loading before"); }
            if (!disk::crashed() && !blind) loaded = loadAndCheck(*s, m);
            if (withIo && !disk::crashed() && !loaded && W(3) != 0)
            {
                // the application tries again
                for (int i = 0; i < 3 && !loaded && !disk::crashed(); ++i) { if (i == 2) { disk::faults() = {}; disk::set_capacity(0); } loaded = loadAndCheck(*s, m); }
            }
            uint32_t n = W(withIo ? 6 : 4);
            bool last = withIo && W(2);
            clean = clean && (blind || loaded || (m.stored == 0 && m.later.empty()));
            if (!loaded && (n || last) && !disk::crashed() && withIo) m.weak = true; // whatever was stored is given up by the application
            for (uint32_t i = 0; i < n && !disk::crashed(); ++i)
            {
                bool ok = clean = saveAndCheck(*s, m, true);
                if (disk::crashed()) break;
                if (!ok && W(4) == 0 && s->moveStorage()) probe("storage moved after a failed save");
                uint32_t what = W(12);
                if (what == 1) { if (m.weak) continue; loadAndCheck(*s, m); }
                else if (what == 2)
                {
                    s->close();
                    SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after close", disk::open_fds());
                    auto f = disk::faults(); disk::faults() = {};
                    s->open();
                    disk::faults() = f;
                    if (disk::crashed()) break;
                    if (!loadAndCheck(*s, m) && !disk::crashed()) { m.weak = m.weak || withIo; clean = false; }
                }
                else if (what == 3) s->moveStorage();
                else if (what == 4 && withIo)
                {
                    // the faults stop: the next save on the same storage succeeds
                    auto f = disk::faults(); disk::faults() = {}; disk::set_capacity(0);
                    clean = saveAndCheck(*s, m, false);
                    disk::faults() = f;
                }
            }
            if (last && !disk::crashed())
            {
                disk::faults() = {}; disk::set_capacity(0); pAllocFault = 0;
                clean = saveAndCheck(*s, m, false);
                if (!disk::crashed()) probe("save after the faults stopped");
            }
            if (!disk::crashed() && crash) disk::crash_now(choose(K_CRASH, 3) != 2);
            s.reset();
            if (disk::crashed()) { disk::reboot(); clean = false; }
            else SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after the session", disk::open_fds());
            disk::cancel_crash();
        }

        disk::faults() = {}; disk::set_capacity(0); pAllocFault = 0;
        {
            auto s = makeSession(kind, bs);
            s->open();
            bool a = loadAndCheck(*s, m);
            bool b = loadAndCheck(*s, m);
            SIM_CHECK(a == b, "second-load", "the first load returns %d, the second %d", a, b);
            if (saveAndCheck(*s, m, false) == false) fail("save-fails", "the last save fails");
        }
        {
            auto s = makeSession(kind, bs);
            disk::crash_now(true);
            disk::reboot();
            s->open();
            SIM_CHECK(loadAndCheck(*s, m), "lost", "the last value is lost");
        }
        SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open at the end", disk::open_fds());
        state(scn::mixup(uint64_t(m.stored)) ^ disk::ops());
    }
}

SIM_SCENARIO(crash_plain) { storageRun(W(2) ? 0 : 2, false); }
SIM_SCENARIO(crash_object) { storageRun(W(2) ? 1 : 3, false); }
SIM_SCENARIO(faults_plain) { storageRun(W(2) ? 0 : 2, true); }
SIM_SCENARIO(faults_object) { storageRun(1, true); }
SIM_SCENARIO(optional_storage) { storageRun(3 + W(2), W(4) != 0); }

// ---------------------------------------------------------------- C29
namespace
{
    // One owner of a pair of files. Several of them work at once, each with its own files.
    struct Life
    {
        std::unique_ptr<Session> s; Model m; uint32_t kind; size_t bs; bool alone; bool faulty;
        std::vector<int64_t> ever; // what may come back if a removal gets lost

        bool existed() const { return disk::exists(s->master().c_str()) || disk::exists(s->backup().c_str()); }
        void make(const std::string& base) { s = makeSession(kind, bs); s->base = base; }
        void checkClosed() const
        {
            SIM_CHECK(!s->isOpen(), "still-open", "the storage is open after it was closed");
            if (alone) SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open although the storage is closed", disk::open_fds());
        }
        void checkEmpty()
        {
            if (!s->isOpen() || disk::faults().stat_err > 0 || s->empty() < 0 || disk::crashed()) return;
            const bool e = disk::size(s->master().c_str()) == 0 && disk::size(s->backup().c_str()) == 0;
            const bool r = s->empty() != 0;
            if (disk::crashed()) return;
            SIM_CHECK(r == e, "empty", "the storage says that it is%s empty, the files have %lld and %lld bytes", r ? "" : " not", (long long)disk::size(s->master().c_str()), (long long)disk::size(s->backup().c_str()));
            probe(r ? "empty" : "not empty");
        }
        void open()
        {
            const bool before = existed();
            const uint64_t fired = disk::hard_faults();
            bool thrown = false, r = false;
            try { r = s->open(); } catch (const awl::io::IoException&) { thrown = true; }
            if (disk::crashed()) return;
            ev("open", r, thrown, before);
            if (!s->isOpen())
            {
                SIM_CHECK(disk::hard_faults() != fired, "open-fails", "open fails although no error was injected");
                SIM_CHECK(!r, "existed", "an open that failed reports that the files existed");
                SIM_CHECK(thrown != s->optional(), "open-throws", "a failed open is reported wrongly");
                checkClosed(); probe("open failed"); return;
            }
            SIM_CHECK(!thrown, "open-throws", "open throws but the storage is open");
            SIM_CHECK(r == before, "existed", "open reports that the files %s, which is wrong", r ? "existed" : "did not exist");
            SIM_CHECK(disk::exists(s->master().c_str()) && disk::exists(s->backup().c_str()), "files", "a file does not exist after open");
            probe(r ? "opened existing files" : "opened new files");
            checkEmpty();
        }
        void remove()
        {
            const uint64_t fired = disk::hard_faults();
            bool thrown = false;
            ever.push_back(m.stored); ever.insert(ever.end(), m.later.begin(), m.later.end());
            try { s->remove(); } catch (const std::filesystem::filesystem_error&) { thrown = true; }
            if (disk::crashed()) return;
            ev("remove", thrown);
            checkClosed();
            if (thrown) { SIM_CHECK(disk::hard_faults() != fired, "remove-fails", "removing fails although no error was injected"); m.weak = true; probe("remove failed"); return; }
            SIM_CHECK(!existed(), "files", "a file exists after it was removed");
            m.set(0); probe("removed");
        }
        void crash()
        {
            // The removal may have been lost, or may have been interrupted.
            m.later.insert(m.later.end(), ever.begin(), ever.end());
            if (!ever.empty()) m.weak = true;
        }
        void history(uint32_t n)
        {
            const std::string base = s->base;
            for (uint32_t i = 0; i < n && !disk::crashed(); ++i)
            {
                switch (W(8))
                {
                case 0: s->close(); if (!disk::crashed()) checkClosed(); break;
                case 1: if (s->canRemove()) remove(); break;
                case 2: if (s->isOpen()) loadAndCheck(*s, m); break;
                case 3: if (s->isOpen()) { if (!loadAndCheck(*s, m) && !disk::crashed()) m.weak = m.weak || faulty; } checkEmpty(); break;
                case 4: s->moveStorage(); checkEmpty(); break;
                case 5: { make(base); if (alone && !disk::crashed()) SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after the storage has been destroyed", disk::open_fds()); break; }
                default:
                    // A storage that was opened again is loaded before it is saved.
                    if (!s->isOpen()) { open(); if (s->isOpen() && !disk::crashed()) { if (!loadAndCheck(*s, m) && !disk::crashed()) m.weak = m.weak || faulty; } }
                    else { saveAndCheck(*s, m, true); checkEmpty(); }
                    break;
                }
                if (!s->isOpen() && !disk::crashed() && W(2)) open();
                else continue;
                if (s->isOpen() && !disk::crashed() && !loadAndCheck(*s, m) && !disk::crashed()) m.weak = m.weak || faulty;
            }
        }
        void finish()
        {
            const std::string base = s->base;
            make(base);
            open();
            SIM_CHECK(s->isOpen(), "open-fails", "open fails after the faults have stopped");
            bool a = loadAndCheck(*s, m), b = loadAndCheck(*s, m);
            SIM_CHECK(a == b, "second-load", "the first load returns %d, the second %d", a, b);
            saveAndCheck(*s, m, false);
            checkEmpty();
            if (s->canRemove()) { if (W(2)) s->close(); remove(); open(); SIM_CHECK(!loadAndCheck(*s, m), "not-removed", "a value is loaded after the files have been removed"); }
            s->close(); checkClosed();
        }
    };
}

SIM_SCENARIO(storage_lifecycle)
{
    swarm_sched();
    bigValues = false; pAllocFault = 0;
    static const uint32_t sectors[] = { 64, 16, 512, 1 };
    disk::set_sector(sectors[W(4)]);
    const uint32_t count = W(2) ? 1 : 2 + W(2);
    const uint32_t epochs = 1 + W(3);
    std::vector<Life> lives(count);
    for (uint32_t i = 0; i < count; ++i)
    {
        static const uint32_t kinds[] = { 0, 1, 3, 4 };
        auto& l = lives[i]; l.kind = kinds[W(4)]; l.bs = pickBlock(); l.alone = count == 1; l.make("/simdisk/owner" + std::to_string(i));
    }
    for (uint32_t e = 0; e < epochs; ++e)
    {
        const bool faulty = W(3) == 0, crash = W(3) == 0;
        if (faulty) { auto& f = disk::faults(); f.open_err = tune({ 0.1, 0.4 }); f.unlink_err = tune({ 0, 0.2, 0.5 }); f.write_err = tune({ 0, 0, 0.1 }); f.read_eintr = tune({ 0, 0.2 }); f.stat_err = tune({ 0, 0, 0.1 }); f.close_err = tune({ 0, 0, 0.3 }); }
        if (crash) disk::crash_at(choose(K_CRASH, 60), choose(K_CRASH, 2));
        for (auto& l : lives) l.faulty = faulty;
        uint32_t n = 2 + W(6);
        if (count == 1) lives[0].history(n);
        else
        {
            std::vector<std::thread> t;
            for (auto& l : lives) t.emplace_back([&l, n] { l.history(n); });
            for (auto& x : t) x.join();
        }
        if (crash && !disk::crashed()) disk::crash_now(choose(K_CRASH, 2));
        for (auto& l : lives) { const std::string base = l.s->base; l.s.reset(); l.make(base); if (crash) l.crash(); }
        if (disk::crashed()) disk::reboot();
        disk::cancel_crash();
        disk::faults() = {};
        SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open after all storages have been destroyed", disk::open_fds());
    }
    for (auto& l : lives) l.finish();
    SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open at the end", disk::open_fds());
    uint64_t h = count; for (auto& l : lives) h = h * 31 + uint64_t(l.m.next) * 7 + l.kind;
    state(h ^ disk::ops() << 8);
}

// ---------------------------------------------------------------- C03
namespace
{
    // Damage stored bytes. Whole blocks in the middle are never removed or exchanged: the format does not claim to notice that.
    std::string damage(std::string d)
    {
        if (d.empty()) return d;
        uint32_t n = uint32_t(d.size());
        switch (choose(K_CORRUPT, 11))
        {
        case 0: d[choose(K_CORRUPT, n)] ^= char(1u << choose(K_CORRUPT, 8)); break;
        case 1: { uint32_t k = 1 + choose(K_CORRUPT, 6); for (uint32_t i = 0; i < k; ++i) d[choose(K_CORRUPT, n)] ^= char(1 + choose(K_CORRUPT, 255)); break; }
        case 2: { uint32_t a = choose(K_CORRUPT, n), k = 1 + choose(K_CORRUPT, n - a); for (uint32_t i = 0; i < k; ++i) d[a + i] = 0; break; }
        case 3: { uint32_t a = choose(K_CORRUPT, n), k = 1 + choose(K_CORRUPT, n - a); for (uint32_t i = 0; i < k; ++i) d[a + i] = char(0xff); break; }
        case 4: { uint32_t a = choose(K_CORRUPT, n), k = 1 + choose(K_CORRUPT, std::min(n - a, 64u)); for (uint32_t i = 0; i < k; ++i) d[a + i] = char(choose(K_CORRUPT, 256)); break; }
        case 5: d.resize(choose(K_CORRUPT, n)); break;                         // cut short anywhere
        case 6: d.resize(n - 1 - choose(K_CORRUPT, std::min(n, 12u))); break;  // a few bytes are missing
        case 7: d.assign(n, '\0'); break;                                      // lost sectors read as zeroes
        case 8: d.clear(); break;
        default: { uint32_t k = 1 + choose(K_CORRUPT, choose(K_CORRUPT, 2) ? 200u : 12u); for (uint32_t i = 0; i < k; ++i) d += char(choose(K_CORRUPT, 256)); break; } // the end of something else follows
        }
        return d;
    }

    // What a program with another layout of the value has saved there.
    struct Alien { std::string id; std::vector<int64_t> data; std::string text; AWL_REFLECT(id, data, text) };
    std::string alienBytes(uint32_t kind, size_t bs)
    {
        disk::drop_file(Master); disk::drop_file(Backup);
        CountingLogger logger;
        auto fill = [](Alien& a) { a.id = std::string(W(30), 'i'); a.data.resize(W(20)); };
        if (kind == 1 || kind == 3)
        {
            awl::io::PersistentObject<Alien> o(logger, awl::io::Header{ "sim", 3u }, bs);
            o.open("/simdisk/settings"); fill(*o); o.save();
        }
        else
        {
            Alien a; fill(a);
            awl::io::EuphoricallySerializable<Alien> ser(a, bs); awl::io::AtomicStorage st(logger);
            st.Open(Master, Backup); st.Save(ser);
        }
        std::string d = disk::content(Master);
        disk::drop_file(Master); disk::drop_file(Backup);
        return d;
    }

    std::string storedBytes(uint32_t kind, size_t bs, int64_t id)
    {
        disk::drop_file(Master); disk::drop_file(Backup);
        {
            auto s = makeSession(kind, bs);
            s->open();
            s->load();
            s->val() = make(id);
            s->save();
        }
        std::string d = disk::content(Master);
        disk::drop_file(Master); disk::drop_file(Backup);
        return d;
    }

    void damageRun(uint32_t kind)
    {
        scn::use(Alien::get_member_names().size());
        size_t bs = pickBlock();
        bigValues = W(150) == 0;
        if (bigValues) { probe("values of more than 65000 bytes"); if (bs < 500) bs = W(2) ? 500 : 65536; }
        int64_t id1 = 1 + W(500), id2 = 501 + W(500);
        const std::string d1 = storedBytes(kind, bs, id1), d2 = storedBytes(kind, bs, id2);

        // The master holds id1, the backup is empty or holds id2 (the crash came between the two writes).
        bool two = W(2);
        std::string m = d1, b = two ? d2 : std::string();
        uint32_t which = choose(K_CORRUPT, 4); // 0: nothing, 1: master, 2: backup, 3: both
        bool noMaster = false, noBackup = false;
        if (which & 1) { if (choose(K_CORRUPT, 12) == 11) { noMaster = true; m.clear(); } else { m = damage(m); if (choose(K_CORRUPT, 4) == 3) m = damage(m); } count_fault(K_CORRUPT); }
        if (which & 2) { if (choose(K_CORRUPT, 12) == 11) { noBackup = true; b.clear(); } else { b = damage(b); if (choose(K_CORRUPT, 4) == 3) b = damage(b); } count_fault(K_CORRUPT); }
        if ((which & 1) && W(10) == 0) { m = alienBytes(kind, bs); noMaster = false; probe("a value of another layout"); }
        if ((which & 2) && W(10) == 0) { b = alienBytes(kind, bs); noBackup = false; probe("a value of another layout"); }
        if (!noMaster) disk::put(Master, m);
        if (!noBackup) disk::put(Backup, b);
        const bool goodMaster = m == d1, goodBackup = two && b == d2;
        if (goodMaster != goodBackup) probe("exactly one intact copy");
        if (!goodMaster && !goodBackup) probe("no intact copy");

        auto s = makeSession(kind, bs);
        s->open();
        bool readFaults = W(3) == 1;
        auto& f = disk::faults();
        if (readFaults) { f.read_err = tune({ 0.05, 0.2 }); f.read_short = tune({ 0, 0.3 }); f.read_eintr = tune({ 0, 0.3 }); f.stat_err = tune({ 0, 0, 0.1 }); }
        int64_t loaded = 0;
        for (int i = 0; i < 6 && !loaded; ++i)
        {
            if (i == 4) f = {};
            s->val() = make(-5);
            uint64_t fired = disk::hard_faults();
            bool r = false, thrown = false;
            try { r = s->load(); } catch (const awl::io::IoException&) { thrown = true; }
            fired = disk::hard_faults() - fired;
            ev("load", r, thrown, s->val().id);
            SIM_CHECK(!thrown || fired, "load-throws", "load throws although no I/O error was injected");
            if (thrown) { SIM_CHECK(s->val() == make(-5) || s->val() == make(id1) || s->val() == make(id2), "garbage", "a failed load left garbage in the object"); continue; }
            if (!r)
            {
                if (!(s->val() == make(-5)))
                {
                    // The value is complete and valid, but the file goes on after it and that is noticed too late (a known finding).
                    auto followed = [&](const std::string& file, const std::string& d, int64_t id) { return s->val() == make(id) && file.size() > d.size() && file.compare(0, d.size(), d) == 0; };
                    SIM_CHECK(followed(m, d1, id1) || (two && followed(b, d2, id2)), "changed", "load reports failure but the object has changed");
                    probe("the value is followed by other data (known finding)");
                    SIM_CHECK(W(100) != 0, "unread-tail", "load reports failure but the object has the value of a file that goes on after it");
                }
                SIM_CHECK(fired || (!goodMaster && !goodBackup), "not-loaded", "an intact copy exists (master %d, backup %d), but load reports failure", goodMaster, goodBackup);
                continue;
            }
            loaded = s->val().id;
            SIM_CHECK(s->val() == make(loaded) && (loaded == id1 || loaded == id2), "garbage", "loaded a value that was never saved (id %lld)", (long long)loaded);
            if (!fired && goodBackup) SIM_CHECK(loaded == id2, "stale", "the intact backup was ignored");
        }
        f = {};
        if (goodMaster || goodBackup) SIM_CHECK(loaded != 0, "not-loaded", "an intact copy exists but the value can't be loaded");

        if (loaded)
        {
            // after a successful load the storage holds the value
            if (W(2)) { s.reset(); disk::crash_now(W(2)); disk::reboot(); s = makeSession(kind, bs); s->open(); }
            s->val() = make(-6);
            SIM_CHECK(s->load() && s->val() == make(loaded), "reload", "value %lld was loaded but can't be loaded again", (long long)loaded);
        }
        // and whatever the damage was, the next save works
        s->val() = make(2000);
        s->save();
        if (W(2)) { disk::crash_now(true); s.reset(); disk::reboot(); s = makeSession(kind, bs); s->open(); }
        s->val() = make(-7);
        SIM_CHECK(s->load() && s->val() == make(2000), "reload", "the value saved after the damage can't be loaded");
        s.reset();
        SIM_CHECK(disk::open_fds() == 0, "fd-leak", "%d descriptors are open at the end", disk::open_fds());
        uint64_t h = m.size() * 7 + b.size(); for (char c : m) h = h * 31 + uint8_t(c); for (char c : b) h = h * 31 + uint8_t(c);
        state(h);
    }
}

SIM_SCENARIO(damage_plain) { damageRun(W(2) ? 0 : 4); }
SIM_SCENARIO(damage_object) { damageRun(W(2) ? 1 : 3); }

// ---------------------------------------------------------------- C04
namespace
{
    // The mutex of the application. Nobody but its owner may write files while it is held, i.e. nobody.
    struct WatchedMutex : awl::IMutex
    {
        std::mutex m;
        static int64_t& owner() { return cell(0); }
        static int64_t& opsAtLock() { return cell(1); }
        int saver = -1;
        WatchedMutex() { owner() = -1; }
        void lock() override { m.lock(); owner() = fiber_id(); opsAtLock() = int64_t(disk::ops()); }
        void unlock() override
        {
            SIM_CHECK(owner() == fiber_id(), "unlock", "the mutex is unlocked by thread %d, its owner is %lld", fiber_id(), (long long)owner());
            if (saver == owner()) SIM_CHECK(int64_t(disk::ops()) == opsAtLock(), "io-under-lock", "%lld disk operations while the mutex was held by the saving thread", (long long)(int64_t(disk::ops()) - opsAtLock()));
            owner() = -1;
            m.unlock();
        }
    };

    enum { R_SET = 1, R_BEGIN, R_END };

    template <class Ser, class Storage, class... Args>
    void lockedRun(Args... args)
    {
        swarm_sched();
        bigValues = false;
        size_t bs = pickBlock();
        uint32_t writers = 1 + W(3), saves = 1 + W(3), sets = 1 + W(4);
        bool io = W(3) == 0, alloc = W(3) == 0;
        bool crash = W(3) == 0;

        WatchedMutex mutex;
        mutex.saver = fiber_id();
        Val v = make(1);
        rec(R_SET, 1);
        CountingLogger logger;
        std::vector<int64_t> allowed;    // values that the files may hold
        int64_t loaded = -1;
        bool stored = false;
        bool crashedInSave = false;
        {
            Ser ser(args..., v, bs);
            Storage st(logger);
            st.Open(Master, Backup);
            { std::unique_lock<WatchedMutex> l(mutex); Val tmp; v = make(1); st.Load(ser); v = make(1); mutex.opsAtLock() = int64_t(disk::ops()); }

            std::vector<std::thread> threads;
            for (uint32_t w = 0; w < writers; ++w)
                threads.emplace_back([&, w]
                {
                    for (uint32_t i = 0; i < sets; ++i)
                    {
                        Val n = make(int64_t(10 + w * 100 + i));
                        awl::OptionalMutex<WatchedMutex> same(&mutex), none(nullptr);
                        std::unique_lock<awl::OptionalMutex<WatchedMutex>> nothing(none), l(same);
                        // not atomically
                        v.id = n.id;
                        v.data = std::move(n.data);
                        yield("modify");
                        v.text = std::move(n.text);
                        v.names = std::move(n.names);
                        yield("modify");
                        v.items = std::move(n.items);
                        v.check = n.check;
                        rec(R_SET, v.id);
                    }
                });

            if (crash) disk::crash_at(choose(K_CRASH, 40), choose(K_CRASH, 2));
            if (io) { auto& f = disk::faults(); f.write_err = tune({ 0, 0.05, 0.2 }); f.trunc_err = tune({ 0, 0.1 }); f.fsync_err = tune({ 0, 0.1 }); f.write_short = tune({ 0, 0.2 }); f.write_eintr = tune({ 0, 0.2 }); }

            for (uint32_t i = 0; i < saves && !disk::crashed(); ++i)
            {
                uint64_t before = disk::hard_faults();
                uint32_t allocs = alloc_failures();
                int warn = logger.warnings;
                size_t from = rec_count();
                // the value that is current when the save starts
                int64_t first = 0;
                for (size_t k = from; k-- > 0;) if (rec_at(k).op == R_SET) { first = rec_at(k).a; break; }
                bool ok = false, badAlloc = false;
                try
                {
                    if (alloc && choose_p(K_ALLOC, 2, 0.4)) fail_nth_alloc(1 + choose(K_ALLOC, 40));
                    st.Save(ser, &mutex);
                    ok = true;
                }
                catch (const awl::io::IoException&) {}
                catch (const std::bad_alloc&) { badAlloc = true; }
                fail_nth_alloc(0);
                SIM_CHECK(mutex.owner() != fiber_id(), "still-locked", "the mutex is held after the save");
                if (std::is_same_v<Storage, awl::io::OptionalStorage> && logger.warnings != warn) ok = false;
                if (ok && !disk::crashed()) { stored = true; allowed.clear(); }
                std::vector<int64_t> c{ first };
                for (size_t k = from; k < rec_count(); ++k) if (rec_at(k).op == R_SET) c.push_back(rec_at(k).a);
                allowed.insert(allowed.end(), c.begin(), c.end());
                if (disk::crashed()) { crashedInSave = true; break; }
                if (!ok) SIM_CHECK(disk::hard_faults() != before || (badAlloc && alloc_failures() != allocs), "save-fails", "save fails although nothing was injected");
                if (c.size() > 1) probe("value modified during the save");
                ev("saved", ok, badAlloc, int64_t(c.size()));
            }
            for (auto& t : threads) t.join();
            SIM_CHECK(mutex.owner() == -1, "still-locked", "the mutex is still held at the end");
        }
        disk::faults() = {};
        if (disk::crashed()) disk::reboot(); else disk::cancel_crash();
        {
            Val x = make(-5);
            Ser ser(args..., x, bs);
            Storage st(logger);
            st.Open(Master, Backup);
            bool r = st.Load(ser);
            loaded = x.id;
            ev("loaded", r, loaded);
            if (r)
            {
                SIM_CHECK(x == make(loaded), "torn", "a torn value was stored (id %lld)", (long long)loaded);
                bool found = false; for (auto a : allowed) if (a == loaded) found = true;
                SIM_CHECK(found, "wrong-moment", "stored value %lld was not the value at any time during the save", (long long)loaded);
            }
            else SIM_CHECK(!stored, "lost", "nothing can be loaded after a successful save");
        }
        (void)crashedInSave;
    }
}

SIM_SCENARIO(locked_save) { lockedRun<awl::io::EuphoricallySerializable<Val>, awl::io::AtomicStorage>(); }
SIM_SCENARIO(locked_save_headered) { if (W(2)) lockedRun<awl::io::HeaderedSerializable<Val>, awl::io::AtomicStorage>(awl::io::Header{ "sim", 3u }); else lockedRun<awl::io::EuphoricallySerializable<Val>, awl::io::OptionalStorage>(); }
