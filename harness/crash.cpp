// A01/A02: AtomicStorage, OptionalStorage and PersistentObject on an in-memory file system.
//   default  : every crash point of every history x every content a crash may leave behind x (crashes during) recovery
//   --faults : every failing or short call of every history, alone, persistent and (thorough) in pairs,
//              followed by a crash at every later point, or by fault-free use
#include "fakefs.hpp"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Reflection.h"
#include "Awl/Logger.h"
#include <memory>
#include <mutex>

using fakefs::Bytes;
using fakefs::w;

namespace
{
    struct Data
    {
        std::string name;
        std::vector<int32_t> items;
        bool operator == (const Data&) const = default;
        AWL_REFLECT(name, items)
    };

    Data value(int id)
    {
        switch (id)
        {
        case 1: return { "one", { 1 } };
        case 2: return { "the second value", { 2, 22, 222, 2222, 22222 } };
        case 3: return { "3", {} };
        default: return {};
        }
    }
    constexpr int values = 3;
    int identify(const Data& d)
    {
        for (int i = 0; i <= values; ++i) if (d == value(i)) return i;
        return -1;
    }

    struct NullLogger : awl::Logger
    {
        void log(awl::LogLevel, awl::LogString) override {}
    };
    NullLogger logger;

    struct Mutex : awl::IMutex
    {
        int held = 0;
        void lock() override { if (held) mc::fail("Save locks the mutex twice"); ++held; }
        void unlock() override { if (!held) mc::fail("Save unlocks a mutex that is not locked"); --held; }
    };

    struct Kind
    {
        const char* name;
        int wrapper;        // 0 Headered, 1 Euphorically, 2 PersistentObject
        size_t block;
        bool mutex;
        bool optional;
        size_t sector;
        bool deep = false;  // second generation of crashes in the quick tier
    };

    const char* master = "f.dat";
    const char* backup = "f.bak";

    // A process using the storage.
    struct Process
    {
        virtual ~Process() = default;
        virtual void open() = 0;
        virtual bool load() = 0;
        virtual void save(int id) = 0;
        virtual Data& val() = 0;
    };

    template <class S, class Storage>
    struct Direct : Process
    {
        Data d;
        S s;
        Storage st;
        Mutex m;
        bool use_mutex;
        template <class... A>
        Direct(bool mx, A&&... a) : s(std::forward<A>(a)...), st(logger), use_mutex(mx) {}
        Data& val() override { return d; }
        void open() override
        {
            st.Open(master, backup);
            if (!st.IsOpened()) throw awl::io::IoError("not opened");
        }
        bool load() override { return st.Load(s); }
        void save(int id) override
        {
            d = value(id);
            struct Unlocked { Mutex& m; ~Unlocked() { if (m.held) mc::fail("Save left the mutex locked"); } } u { m };
            st.Save(s, use_mutex ? &m : nullptr);
        }
    };

    template <class S, class Storage>
    struct DirectH : Direct<S, Storage>
    {
        DirectH(bool mx, size_t block) : Direct<S, Storage>(mx, awl::io::Header { "fmt", 1 }, this->d, block) {}
    };
    template <class S, class Storage>
    struct DirectE : Direct<S, Storage>
    {
        DirectE(bool mx, size_t block) : Direct<S, Storage>(mx, this->d, block) {}
    };

    template <class Storage>
    struct Persistent : Process
    {
        awl::io::PersistentObject<Data, Storage> p;
        Persistent(size_t block) : p(logger, awl::io::Header { "fmt", 1 }, block) {}
        Data& val() override { return *p; }
        void open() override { p.open("f"); if (!p.is_open()) throw awl::io::IoError("not opened"); }
        bool load() override { return p.load(); }
        void save(int id) override { *p = value(id); p.save(); }
    };

    const Kind* kind;

    std::unique_ptr<Process> make_process()
    {
        using namespace awl::io;
        const Kind& k = *kind;
        if (k.wrapper == 0)
        {
            if (k.optional) return std::make_unique<DirectH<HeaderedSerializable<Data>, OptionalStorage>>(k.mutex, k.block);
            return std::make_unique<DirectH<HeaderedSerializable<Data>, AtomicStorage>>(k.mutex, k.block);
        }
        if (k.wrapper == 1) return std::make_unique<DirectE<EuphoricallySerializable<Data>, AtomicStorage>>(k.mutex, k.block);
        if (k.optional) return std::make_unique<Persistent<OptionalStorage>>(k.block);
        return std::make_unique<Persistent<AtomicStorage>>(k.block);
    }

    using Image = std::pair<Bytes, Bytes>;     // master, backup

    std::string show(const Bytes& b)
    {
        std::string s = std::to_string(b.size()) + " bytes:";
        for (size_t i = 0; i < b.size() && i < 400; ++i) { char t[4]; snprintf(t, 4, "%02x", b[i]); s += t; }
        return s;
    }

    void set_disk(const Image& im)
    {
        w() = {};
        w().active = true;
        w().disk.files[master] = { im.first, {}, im.first };
        w().disk.files[backup] = { im.second, {}, im.second };
    }

    Image current()
    {
        Image im;
        im.first = w().disk.files[master].cur;
        im.second = w().disk.files[backup].cur;
        return im;
    }

    const char* idname(int id) { static const char* n[] = { "nothing", "value 1", "value 2", "value 3" }; return n[id]; }
    std::string maskname(int m)
    {
        std::string s;
        for (int i = 0; i <= values; ++i) if (m >> i & 1) s += std::string(s.empty() ? "" : " or ") + idname(i);
        return s;
    }

    // One Open + Load by a fresh process without faults; returns the value id, 0 for "nothing".
    int load_once(const char* when)
    {
        auto p = make_process();
        try
        {
            p->open();
            bool ok = p->load();
            int id = identify(p->val());
            if (id < 0) mc::fail("%s: Load %s a value that was never stored", when, ok ? "yields" : "fails but leaves");
            if (ok && id == 0) mc::fail("%s: Load reports success but yields a default value", when);
            if (!ok && id != 0) mc::fail("%s: Load reports failure but changed the value", when);
            return id;
        }
        catch (const std::exception& e)
        {
            mc::fail("%s: exception without any fault: %s", when, e.what());
        }
        catch (const awl::Exception&)
        {
            mc::fail("%s: awl exception without any fault", when);
        }
        return -1;
    }

    struct ImageHash
    {
        size_t operator()(const Image& i) const
        {
            uint64_t h = mc::hash_bytes(i.first.data(), i.first.size());
            return mc::mix(h, mc::hash_bytes(i.second.data(), i.second.size(), h) + i.second.size());
        }
    };
    std::unordered_map<Image, int, ImageHash> memo;

    void describe(const Image& im)
    {
        mc::trace("  master after the crash: %s", show(im.first).c_str());
        mc::trace("  backup after the crash: %s", show(im.second).c_str());
    }

    // What a fresh process finds in this disk image (and: finds again; and can then save and load).
    int recover(const Image& im)
    {
        auto it = memo.find(im);
        if (it != memo.end()) return it->second;
        auto saved = std::move(w());
        set_disk(im);
        size_t mark = mc::g_trace_len;
        mc::trace("  recovery on:");
        describe(im);
        int r = load_once("recovery");
        int r2 = load_once("second load after recovery");
        if (r2 != r) mc::fail("the first Load after the crash yields %s, the next one %s", idname(r), idname(r2));
        {
            auto p = make_process();
            p->open();
            p->load();
            int nv = r == 3 ? 1 : 3;
            p->save(nv);
            int r3 = load_once("load after a save after recovery");
            if (r3 != nv) mc::fail("after recovery a Save of %s is followed by a Load of %s", idname(nv), idname(r3));
            int r4 = p->load() ? identify(p->val()) : 0;
            if (r4 != nv) mc::fail("after recovery a Save of %s is followed by a Load of %s in the same process", idname(nv), idname(r4));
        }
        if (w().open_fds()) mc::fail("file descriptors leaked");
        mc::g_trace_len = mark;
        mc::g_trace[mark] = 0;
        w() = std::move(saved);
        memo.emplace(im, r);
        ++mc::cnt("recoveries");
        ++mc::g_progress;
        return r;
    }

    struct Snapshot { fakefs::Disk disk; int mask; std::string at; };

    // Collects the distinct disk states after each call while a process runs.
    struct Recorder
    {
        std::vector<Snapshot> snaps;
        int mask = 0;
        std::string at;
        std::string last;
        void start()
        {
            w().after = [this](fakefs::Call c) { take(fakefs::name(c)); };
        }
        void take(const char* call)
        {
            // Only states that differ from the previous one matter.
            std::string key = std::to_string(mask) + "|";
            for (auto n : { master, backup })
            {
                auto& f = w().disk.files[n];
                key += std::to_string(f.pending.size()) + ":" + std::to_string(f.durable.size()) + ":" + std::to_string(f.cur.size()) + ":" +
                    std::to_string(mc::hash_bytes(f.cur.data(), f.cur.size())) + ";";
            }
            if (key == last) return;
            last = key;
            snaps.push_back({ w().disk, mask, at + " after call " + std::to_string(w().calls) + " (" + call + ")" });
        }
        void stop() { w().after = nullptr; }
    };

    void images_of(const fakefs::Disk& d, bool bytes, std::set<Image>& out)
    {
        auto im = [&](const char* n)
        {
            std::set<Bytes> s;
            auto it = d.files.find(n);
            if (it == d.files.end()) s.insert(Bytes {});
            else if (!fakefs::crash_images(it->second, kind->sector, 20000, s, bytes)) mc::res().capped.push_back("crash images of one file limited to 20000");
            return s;
        };
        auto m = im(master), b = im(backup);
        for (auto& x : m) for (auto& y : b) out.insert({ x, y });
    }

    void check_snap(const Snapshot& s, bool bytes, std::set<std::pair<Image, int>>* next)
    {
        std::set<Image> ims;
        images_of(s.disk, bytes, ims);
        for (auto& im : ims)
        {
            ++mc::cnt("transitions");
            int r = recover(im);
            if (!(s.mask >> r & 1))
            {
                mc::trace("crash in %s", s.at.c_str());
                describe(im);
                mc::fail("a crash in %s leaves files from which Load yields %s instead of %s", s.at.c_str(), idname(r), maskname(s.mask).c_str());
            }
            if (next) next->insert({ im, s.mask });
        }
    }

    // A history of one process: ops 0 = load, 1..3 save that value. Open and Load come first.
    using History = std::vector<int>;

    std::string hname(const History& h)
    {
        std::string s = "open, load";
        for (int o : h) s += o ? ", save " + std::to_string(o) : ", load";
        return s;
    }

    void run_history(const History& h, Recorder& rec)
    {
        auto p = make_process();
        auto load = [&]
        {
            rec.at = "load";
            bool ok = p->load();
            int id = identify(p->val());
            if (id < 0 || ok != (id != 0)) mc::fail("Load yields a mixture");
            if (!(rec.mask >> id & 1)) mc::fail("Load yields %s instead of %s", idname(id), maskname(rec.mask).c_str());
            rec.mask = 1 << id;
            rec.take("returned");
        };
        rec.at = "open";
        p->open();
        load();
        for (int o : h)
        {
            if (o == 0) { p->val() = {}; load(); continue; }
            rec.at = "save " + std::to_string(o);
            rec.mask |= 1 << o;
            p->save(o);
            rec.mask = 1 << o;
            rec.take("returned");
        }
        rec.at = "close";
    }

    void crash_scenario(const Kind& k, int generations)
    {
        if (!mc::begin_scenario(std::string("crash: ") + k.name)) return;
        kind = &k;
        memo.clear();
        std::vector<History> hs;
        if (mc::cfg().thorough) { for (int a = 0; a <= 3; ++a) { hs.push_back({ a }); for (int b = 0; b <= 3; ++b) { hs.push_back({ a, b }); } } hs.push_back({ 2, 1, 2 }); hs.push_back({ 1, 2, 3 }); }
        else hs = { { 2, 1 }, { 1, 2 }, { 3 }, { 2, 3 }, { 3, 0, 2 } };
        using State = std::pair<Image, int>;
        std::set<State> seen;
        std::vector<State> frontier { { Image {}, 1 } };
        seen.insert(frontier[0]);
        for (int g = 1; g <= generations; ++g)
        {
            std::set<State> next;
            size_t n = 0;
            for (auto& st : frontier)
            {
                ++n;
                // Later generations are divided among the processes; the first is cheap.
                if (g > 1 && int(n % mc::cfg().shards) != mc::cfg().shard) continue;
                if (mc::over_budget()) { mc::res().capped.push_back(std::string(mc::g_scenario) + ": time budget reached in generation " + std::to_string(g)); return; }
                for (auto& h : hs)
                {
                    // From states after a crash the first save is what differs.
                    if (g > 1 && !mc::cfg().thorough && h != hs[0] && h != hs[2]) continue;
                    mc::trace_reset();
                    mc::trace("generation %d, files at start: master %zu bytes, backup %zu bytes, stored: %s", g, st.first.first.size(), st.first.second.size(), maskname(st.second).c_str());
                    if (g > 1) describe(st.first);
                    mc::trace("history: %s", hname(h).c_str());
                    set_disk(st.first);
                    Recorder rec;
                    rec.mask = st.second;
                    rec.start();
                    try { run_history(h, rec); }
                    catch (const awl::Exception& e) { mc::fail("exception without any fault"); }
                    rec.stop();
                    if (w().open_fds()) mc::fail("file descriptors leaked");
                    ++mc::cnt("executions");
                    mc::cnt("crash_points") += rec.snaps.size();
                    for (auto& s : rec.snaps) check_snap(s, g == 1, &next);
                    if (g == 1) mc::sample_trace();
                }
            }
            frontier.clear();
            for (auto& s : next) if (seen.insert(s).second) frontier.push_back(s);
        }
        mc::cnt("states") += seen.size();
        mc::outcome(k.name);
    }

    // ---- faults ----
    struct Fault { long call; int type; };      // type 1 error, 2 short, 3 every write/truncate/fsync from here on fails

    int fault_at(const std::vector<Fault>& fs, long n, fakefs::Call c)
    {
        using C = fakefs::Call;
        if (c == C::Close || c == C::Access) return 0;
        for (auto& f : fs)
        {
            if (f.type == 3) { if (n >= f.call && (c == C::Write || c == C::Truncate || c == C::Fsync)) return 1; }
            else if (f.type == 4) { if (n >= f.call) return 1; }
            else if (n == f.call) return f.type == 2 && c != C::Read && c != C::Write ? 0 : f.type;
        }
        return 0;
    }


    struct Start { Image im; int mask; const char* name; bool load_first = false; };

    void run_faulty(const Start& st, const History& h, const std::vector<Fault>& faults, bool crash, long* ncalls = nullptr)
    {
        mc::trace_reset();
        mc::trace("start: %s", st.name);
        mc::trace("history: %s", hname(h).c_str());
        for (auto& f : faults) mc::trace("  fault: call %ld %s", f.call, f.type == 1 ? "fails" : f.type == 2 ? "is short" : f.type == 3 ? "and all later writes fail" : "and all later calls fail");
        set_disk(st.im);
        Recorder rec;
        rec.mask = st.mask;
        bool fired = false;
        w().trace = true;
        w().fault = [&](long n, fakefs::Call c) { int f = fault_at(faults, n, c); if (f) fired = true; return f; };
        if (crash) rec.start();
        auto p = make_process();
        const bool optional = kind->optional;
        auto guarded = [&](const char* what, auto&& f) -> bool
        {
            bool before = fired;
            fired = false;
            bool ok = false;
            try { f(); ok = true; }
            catch (const awl::io::IoException&)
            {
                if (!fired) mc::fail("%s throws although nothing failed during it", what);
                mc::trace("  %s throws", what);
            }
            catch (const std::exception& e) { mc::fail("%s throws something that is not an I/O exception: %s", what, e.what()); }
            catch (...) { mc::fail("%s throws something that is not an I/O exception", what); }
            fired = fired || before;
            return ok;
        };
        // Known finding save-without-load-after-crash (see save_without_load): where the backup is the only valid
        // copy, a process has to load before it saves.
        bool loaded = !st.load_first;
        auto load = [&](bool faulty)
        {
            rec.at = "load";
            p->val() = {};
            bool ok = false;
            bool f0 = fired;
            fired = false;
            bool done = guarded("Load", [&] { ok = p->load(); });
            bool hit = fired;
            fired = fired || f0;
            if (!done) { if (identify(p->val()) < 0) mc::fail("a failed Load leaves a mixture"); return; }
            int id = identify(p->val());
            if (id < 0 || ok != (id != 0)) mc::fail("Load yields a mixture");
            mc::trace("  Load yields %s", idname(id));
            if (!(rec.mask >> id & 1)) mc::fail("after a fault Load yields %s instead of %s", idname(id), maskname(rec.mask).c_str());
            if (!hit) rec.mask = 1 << id;
            loaded = true;
            if (crash) rec.take("returned");
        };
        auto save = [&](int o)
        {
            if (!loaded) load(true);
            if (!loaded) return;
            rec.at = "save " + std::to_string(o);
            rec.mask |= 1 << o;
            bool f0 = fired;
            fired = false;
            bool done = guarded("Save", [&] { p->save(o); });
            bool hit = fired;
            fired = fired || f0;
            // OptionalStorage logs failures: an attempt with a failed call is not an acknowledged save.
            if (done && !(optional && hit)) { rec.mask = 1 << o; mc::trace("  Save %d returns", o); }
            if (crash) rec.take("returned");
        };
        rec.at = "open";
        bool opened = guarded("Open", [&] { p->open(); });
        if (opened)
        {
            load(true);
            for (int o : h) { if (o) save(o); else load(true); }
        }
        if (ncalls) *ncalls = w().calls;
        // The fault has passed.
        w().fault = nullptr;
        fired = false;
        Image end = current();
        int mask_end = rec.mask;
        auto disk_end = w().disk;
        if (!opened) { rec.at = "open"; guarded("Open after the fault", [&] { p->open(); }); load(false); }
        // In the same process: save at once (the files may be damaged), crash points included; then load.
        int nv = (mask_end & 2) ? 3 : 1;
        save(nv);
        if (rec.mask != 1 << nv) mc::fail("Save does not work after the fault has passed");
        load(false);
        rec.stop();
        p.reset();
        if (w().open_fds()) mc::fail("file descriptors leaked");
        int r = load_once("fresh process after the fault and a good save");
        if (r != nv) mc::fail("Save of %s after the fault is followed by a Load of %s", idname(nv), idname(r));
        // A fresh process instead.
        r = recover(end);
        if (!(mask_end >> r & 1)) { describe(end); mc::fail("after a fault a fresh process loads %s instead of %s", idname(r), maskname(mask_end).c_str()); }
        if (crash)
        {
            mc::cnt("crash_points") += rec.snaps.size();
            for (auto& s : rec.snaps) check_snap(s, false, nullptr);
        }
        ++mc::cnt("executions");
        if (mc::cnt("executions") % 1013 == 7) mc::sample_trace();
    }

    // Known finding: a fresh process that saves without loading first overwrites the backup a crashed Save left
    // as the only valid copy; a crash (or a fault) in that Save can lose everything.
    void save_without_load(const Kind& k)
    {
        if (!mc::begin_scenario(std::string("save without load: ") + k.name)) return;
        kind = &k;
        memo.clear();
        Image i1 { }, i2;
        set_disk({}); { auto p = make_process(); p->open(); p->load(); p->save(1); } i1 = current();
        // clean files: nothing may be lost
        for (int clean = 1; clean >= 0; --clean)
        {
            Image st = i1;
            int mask = 2;
            if (!clean)
            {
                set_disk({}); { auto p = make_process(); p->open(); p->load(); p->save(2); }
                st.second = current().first;
                st.first.resize(st.first.size() / 2);
                mask = 2 | 4;
            }
            set_disk(st);
            Recorder rec;
            rec.mask = mask;
            rec.start();
            auto p = make_process();
            mc::trace_reset();
            mc::trace("%s; a fresh process opens and saves value 3 without loading", clean ? "clean files" : "backup valid, master torn by a crash");
            p->open();
            rec.at = "save 3";
            rec.mask |= 8;
            p->save(3);
            rec.mask = 8;
            rec.take("returned");
            rec.stop();
            p.reset();
            for (auto& s : rec.snaps)
            {
                std::set<Image> ims;
                images_of(s.disk, false, ims);
                bool known = false;
                for (auto& im : ims)
                {
                    ++mc::cnt("transitions");
                    int r = recover(im);
                    if (s.mask >> r & 1) continue;
                    mc::trace("crash in %s", s.at.c_str());
                    describe(im);
                    std::string what = "crash in " + s.at + ": Load yields " + idname(r) + " instead of " + maskname(s.mask);
                    if (!clean && r == 0) { mc::fail_keyed("save-without-load-after-crash", what); known = true; break; }
                    mc::fail("%s", what.c_str());
                }
                if (known) break;
            }
            ++mc::cnt("executions");
        }
    }

    void fault_scenario(const Kind& k)
    {
        if (!mc::begin_scenario(std::string("faults: ") + k.name)) return;
        kind = &k;
        memo.clear();
        Bytes m1, m2;
        set_disk({}); { auto p = make_process(); p->open(); p->load(); p->save(1); } m1 = current().first;
        set_disk({}); { auto p = make_process(); p->open(); p->load(); p->save(2); } m2 = current().first;
        Bytes torn = m2;
        torn.resize(m2.size() / 2);
        Bytes mixed = m2;
        std::copy(m1.begin(), m1.begin() + std::min(m1.size(), m2.size()), mixed.begin());
        std::vector<Start> starts {
            { { {}, {} }, 1, "empty files" },
            { { m1, {} }, 2, "value 1 stored, backup empty" },
            { { torn, m2 }, 2 | 4, "crash while value 2 replaced value 1: master torn, backup valid", true },
            { { m1, torn }, 2 | 4, "crash while value 2 was written to the backup: backup torn, master valid" },
            { { m2, m2 }, 4, "crash before the backup was emptied" },
        };
        if (mc::cfg().thorough) starts.push_back({ { {}, torn }, 1 | 4, "crash during the very first save" });
        std::vector<History> hs { { 2 }, { 1, 2 }, { 3, 2 } };
        if (mc::cfg().thorough) { hs.push_back({ 2, 0 }); hs.push_back({ 0, 3 }); hs.push_back({ 2, 1, 3 }); hs.push_back({ 2, 3, 0, 1 }); }
        size_t n = 0;
        for (auto& st : starts)
        {
            for (auto& h : hs)
            {
                long total = 0;
                run_faulty(st, h, {}, false, &total);
                for (long c = 0; c < total; ++c)
                {
                    for (int t = 1; t <= 4; ++t)
                    {
                        if (int(++n % mc::cfg().shards) != mc::cfg().shard) continue;
                        if (mc::over_budget()) { mc::res().capped.push_back(std::string(mc::g_scenario) + ": time budget reached"); return; }
                        run_faulty(st, h, { { c, t } }, true);
                    }
                    if ((k.block >= 1024 && h.size() <= 2) || mc::cfg().thorough)
                    {
                        // two independent faults (the second may hit the error handling of the first)
                        if (k.block < 1024 && h.size() > 2) continue;
                        if (int(++n % mc::cfg().shards) != mc::cfg().shard) continue;
                        for (long c2 = c + 1; c2 < total + 4; ++c2)
                            for (int t = 1; t <= 2; ++t)
                                for (int t2 = 1; t2 <= 2; ++t2)
                                {
                                    if (mc::over_budget()) { mc::res().capped.push_back(std::string(mc::g_scenario) + ": time budget reached"); return; }
                                    run_faulty(st, h, { { c, t }, { c2, t2 } }, false);
                                }
                    }
                }
            }
        }
        mc::cnt("states") += memo.size();
        mc::outcome(k.name);
    }
}

int main(int argc, char** argv)
{
    bool faults = false;
    std::vector<char*> av;
    for (int i = 0; i < argc; ++i) if (!strcmp(argv[i], "--faults")) faults = true; else if (strcmp(argv[i], "--crash")) av.push_back(argv[i]);
    mc::init((int)av.size(), av.data());
    static const Kind kinds[] = {
        { "HeaderedSerializable, one block, direct", 0, 65536, false, false, 64, true },
        { "HeaderedSerializable, one block, snapshot under a mutex", 0, 65536, true, false, 64 },
        { "HeaderedSerializable, 40-byte blocks, direct", 0, 40, false, false, 64 },
        { "EuphoricallySerializable, 33-byte blocks, snapshot under a mutex", 1, 33, true, false, 48, true },
        { "EuphoricallySerializable, 64-byte blocks, direct", 1, 64, false, false, 64 },
        { "PersistentObject, one block", 2, 65536, false, false, 32 },
        { "OptionalObject, one block", 2, 65536, false, true, 64 },
        { "OptionalStorage, 64-byte blocks, snapshot under a mutex", 0, 64, true, true, 64 },
    };
    for (auto& k : kinds)
    {
        if (faults) fault_scenario(k);
        else
        {
            crash_scenario(k, mc::cfg().thorough ? 3 : k.deep ? 2 : 1);
            if (mc::cfg().shard == 0 && !k.optional) save_without_load(k);
        }
    }
    return mc::finish();
}
