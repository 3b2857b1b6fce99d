// A03: AtomicStorage::Save with a mutex against threads modifying the value, under every interleaving, on the
// in-memory file system; a crash of the process is tried after every file operation of every schedule.
#include "sched.hpp"
namespace { inline void fs_point(); }
#define FAKEFS_GUARD fs_point(); sched::Quiet fakefs_quiet
#include "fakefs.hpp"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Reflection.h"
#include "Awl/Logger.h"
#include <memory>
#include <mutex>
#include <thread>

using fakefs::Bytes;
using fakefs::w;

namespace
{
    struct Data
    {
        int32_t version = 0;
        std::string text;
        std::vector<int32_t> items;
        int32_t last = 0;
        bool operator == (const Data&) const = default;
        AWL_REFLECT(version, text, items, last)
    };
    Data value(int v)
    {
        Data d;
        d.version = v;
        d.text = std::string(3 + 20 * (v % 2), char('a' + v));
        for (int i = 0; i < v; ++i) d.items.push_back(v * 100 + i);
        d.last = v;
        return d;
    }
    // In place, step by step, so that a torn read shows.
    void modify(Data& d)
    {
        int v = d.version + 1;
        d.version = v;
        d.items.clear();
        for (int i = 0; i < v; ++i) d.items.push_back(v * 100 + i);
        d.text.assign(3 + 20 * (v % 2), char('a' + v));
        d.last = v;
    }

    struct NullLogger : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
    NullLogger logger;

    // The mutex of the value.  Knows its owner.
    struct Mutex
    {
        std::mutex m;
        int owner = -1;
        void lock() { m.lock(); sched::Quiet q; owner = sched::self(); }
        void unlock() { { sched::Quiet q; if (owner != sched::self()) mc::fail("Save unlocks a mutex that it does not hold"); owner = -1; } m.unlock(); }
    };

    struct Book
    {
        int version;            // of the value, changed at the end of a modification
        int saver = -1;         // thread in Save
        Mutex* mutex;
        int lo;                 // a later Load must yield at least this version
        int pending_lo;
        struct Image { Bytes master, backup; int lo, hi; };
        std::vector<Image> images;
        long nfs;
    };
    Book& book() { static Book* b = new Book; return *b; }
    const char* master = "f.dat";
    const char* backup = "f.bak";

    void snapshot()
    {
        auto& fs = w().disk.files;
        auto& b = book();
        Book::Image im { fs[master].cur, fs[backup].cur, b.lo, b.version };
        if (!b.images.empty() && b.images.back().master == im.master && b.images.back().backup == im.backup && b.images.back().lo == im.lo && b.images.back().hi == im.hi) return;
        b.images.push_back(std::move(im));
    }
    inline void fs_point()
    {
        if (!sched::running()) return;
        {
            sched::Quiet q;
            auto& b = book();
            ++b.nfs;
            if (b.mutex && b.mutex->owner == sched::self()) mc::fail("Save accesses a file while it holds the mutex of the value");
            snapshot();
        }
        sched::point();
    }

    template <class Storage>
    struct World
    {
        Data d;
        awl::io::EuphoricallySerializable<Data> s;
        Storage st;
        Mutex m;
        awl::MutexWrapper<Mutex> mw { m };
        std::mutex storage_mutex;
        World(size_t block) : s(d, block), st(logger)
        {
            {
                sched::Quiet q;
                w().disk = {};
                w().fds.clear();
                w().active = true;
                auto& b = book();
                b.version = 0; b.saver = -1; b.mutex = nullptr; b.lo = -1; b.images.clear(); b.nfs = 0;
            }
            d = value(0);
            st.Open(master, backup);
            st.Save(s, &mw);
            sched::Quiet q;
            book().lo = 0;
            book().mutex = &m;
        }
        ~World() { sched::Quiet q; snapshot(); book().mutex = nullptr; if (m.owner != -1) mc::fail("the mutex is still locked"); }
        void change()
        {
            m.lock();
            modify(d);
            { sched::Quiet q; ++book().version; }
            m.unlock();
        }
        void save()
        {
            int lo;
            { sched::Quiet q; lo = book().version; }
            st.Save(s, &mw);
            sched::Quiet q;
            if (m.owner == sched::self()) mc::fail("Save leaves the mutex locked");
            book().lo = std::max(book().lo, lo);
            snapshot();
        }
    };

    // Loads what a crash leaves.
    void after_block(size_t block)
    {
        static std::map<std::pair<std::pair<Bytes, Bytes>, size_t>, int> cache;
        w().active = true;
        std::string o = mc::g_scenario;
        for (auto& im : book().images)
        {
            if (im.lo < 0) continue;
            auto key = std::make_pair(std::make_pair(im.master, im.backup), block);
            auto i = cache.find(key);
            if (i == cache.end())
            {
                fakefs::Disk disk;
                disk.files[master].cur = disk.files[master].durable = im.master;
                disk.files[backup].cur = disk.files[backup].durable = im.backup;
                w().disk = disk;
                w().fds.clear();
                int v = -1;
                {
                    Data d;
                    awl::io::EuphoricallySerializable<Data> s(d, block);
                    awl::io::AtomicStorage st(logger);
                    st.Open(master, backup);
                    if (!st.Load(s)) v = -2;
                    else if (d.version >= 0 && d.version < 10 && d == value(d.version)) v = d.version;
                }
                ++mc::cnt("crash_images");
                i = cache.emplace(key, v).first;
            }
            int v = i->second;
            if (v == -2) mc::fail("nothing can be loaded after a crash during Save");
            if (v == -1) mc::fail("a mixture of values is stored");
            if (v < im.lo) mc::fail("version %d is stored, but version %d had been saved", v, im.lo);
            if (v > im.hi) mc::fail("version %d is stored, but the value is at version %d", v, im.hi);
            if (&im == &book().images.back()) o += " " + std::to_string(v);
        }
        book().images.clear();
        w().active = false;
        mc::outcome(o);
    }

    template <class Storage>
    void scenarios(const std::string& prefix, size_t block, sched::Options o, sched::Options o3)
    {
        auto after = [block] { after_block(block); };
        using W = World<Storage>;
        sched::explore(prefix + "two saves, two modifications", [block]
        {
            W x(block);
            std::thread t([&] { x.change(); x.change(); });
            x.save();
            x.save();
            t.join();
            x.save();
        }, after, o);
        sched::explore(prefix + "one save, two modifying threads", [block]
        {
            W x(block);
            std::thread t([&] { x.change(); x.change(); });
            std::thread u([&] { x.change(); });
            x.save();
            t.join(); u.join();
        }, after, o3);
        sched::explore(prefix + "two saving threads that exclude each other, one modifying thread", [block]
        {
            W x(block);
            auto saver = [&] { std::lock_guard<std::mutex> l(x.storage_mutex); x.save(); };
            std::thread t(saver);
            std::thread u([&] { x.change(); x.change(); });
            saver();
            t.join(); u.join();
        }, after, o3);
        sched::explore(prefix + "the value is read while it is saved", [block]
        {
            W x(block);
            x.change();
            std::thread t([&] { x.m.lock(); if (!(x.d == value(x.d.version))) mc::fail("the value changes during Save"); x.m.unlock(); x.change(); });
            x.save();
            t.join();
            x.save();
        }, after, o);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 5 : 3;
    sched::Options o3 = o;
    o3.preemptions = th ? 3 : 2;
    scenarios<awl::io::AtomicStorage>("AtomicStorage: ", 64, o, o3);
    scenarios<awl::io::OptionalStorage>("OptionalStorage: ", 1024, o, o3);

    // A Save that fails or cannot take the snapshot releases the mutex.
    for (int k = 0; k < 3; ++k)
        sched::explore("a Save that throws, " + std::to_string(k), [k]
        {
            World<awl::io::AtomicStorage> x(64);
            struct Plain : awl::io::Serializable<>
            {
                void Read(awl::io::SequentialInputStream&) override {}
                void Write(awl::io::SequentialOutputStream&) const override {}
            } plain;            // cannot be snapshotted
            struct Bad : awl::io::EuphoricallySerializable<Data>
            {
                using awl::io::EuphoricallySerializable<Data>::EuphoricallySerializable;
                std::vector<uint8_t> MakeShanshot() const override { throw 5; }
            } bad(x.d);
            std::thread t([&] { x.change(); });
            bool thrown = false;
            if (k == 2) { sched::Quiet q; long base = w().calls; w().fault = [base](long n, fakefs::Call c) { return c == fakefs::Call::Write && n > base ? 1 : 0; }; }
            try
            {
                if (k == 0) x.st.Save(plain, &x.mw);
                else if (k == 1) x.st.Save(bad, &x.mw);
                else x.st.Save(x.s, &x.mw);
            }
            catch (...) { thrown = true; }
            { sched::Quiet q; w().fault = nullptr; }
            if (!thrown) mc::fail("the failure is not reported");
            { sched::Quiet q; if (x.m.owner == sched::self()) mc::fail("a failed Save leaves the mutex locked"); }
            x.change();
            x.save();
            t.join();
        }, [] { after_block(64); }, [&] { auto y = o; y.preemptions = th ? 4 : 2; return y; }());
    return mc::finish();
}
