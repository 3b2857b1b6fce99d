// C07: object_pool and singletons; every history of owners, every reaction inside Finalize(), every failing allocation.
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/ObjectPool.h"
#include "Awl/SharedSingleton.h"
#include "Awl/StaticSingleton.h"
#include <memory>
#include <utility>

namespace
{
    constexpr int MAXOBJ = 16;
    struct Obj;
    struct World* w = nullptr;
    int ID(const Obj*);     // not stored in the object: states that differ in the numbering only are the same

    struct Other : awl::quick_link { using quick_link::quick_link; };

    struct Obj : awl::pooled_object, Other
    {
        uint32_t canary = 0xC0FFEE;
        Obj();
        ~Obj();
        void Finalize() override;
    };

    struct World : mc::MenuSys<World>
    {
        static constexpr int S = 3;
        bool shared_from_this_mode;
        int reaction = 0;                   // what the next Finalize() does
        int R, M;                           // reactions; objects beyond which add(new) is not tried
        struct St
        {
            alignas(8) unsigned char pool[sizeof(awl::object_pool<Obj>)];
            std::shared_ptr<Obj> s[S];
            std::weak_ptr<Obj> weak;
        } st;
        awl::object_pool<Obj>& pool() { return *reinterpret_cast<awl::object_pool<Obj>*>(st.pool); }
        // model
        Obj* obj[MAXOBJ] = {};              // live objects
        enum State { none, fresh, free_, used, finalizing } state[MAXOBJ] = {};
        int owners[MAXOBJ] = {};            // shared_ptrs in slots
        int finals[MAXOBJ] = {};            // finalisations of the current use
        int created = 0, destroyed = 0;
        bool throw_in_ctor = false;

        World(int r, int m) : R(r), M(m)
        {
            w = this;
            memset(st.pool, 0x5a, sizeof st.pool);
            new (st.pool) awl::object_pool<Obj>();
        }
        ~World()
        {
            mc::heap::Track t;
            reaction = 0;
            for (int i = 0; i < S; ++i) drop(i);
            st.weak.reset();
            check();
            pool().~object_pool();
            if (created != destroyed) mc::fail("%d objects created, %d destroyed after the pool is gone", created, destroyed);
            if (mc::heap::count()) mc::fail("%zu allocations leaked", mc::heap::count());
            w = nullptr;
        }
        int nfree() { int n = 0; for (auto s : state) n += s == free_; return n; }

        // Some owner of o has gone.
        void unown(Obj* o) { if (--owners[ID(&*o)] == 0 && state[ID(&*o)] == used) { state[ID(&*o)] = finalizing; finals[ID(&*o)] = 0; } }
        void settle()
        {
            for (int i = 0; i < MAXOBJ; ++i)
                if (state[i] == finalizing)
                {
                    if (finals[i] != 1) mc::fail("object %d was finalised %d times when its last owner released it", i, finals[i]);
                    state[i] = free_;
                }
        }
        void drop(int i)
        {
            if (!st.s[i]) return;
            Obj* o = st.s[i].get();
            unown(o);
            st.s[i].reset();
            settle();
        }
        void got(int i, std::shared_ptr<Obj>& p, int free_before, int created_before)
        {
            if (!p) mc::fail("make() returned a null pointer");
            Obj* o = p.get();
            if (o->canary != 0xC0FFEE) mc::fail("make() returned a destroyed object");
            State s = state[ID(&*o)];
            if (s == used) mc::fail("make() handed out object %d that somebody else holds", ID(&*o));
            if (s == finalizing) mc::fail("make() handed out object %d while it is being finalised", ID(&*o));
            if (free_before && created != created_before) mc::fail("make() created an object although %d are free", free_before);
            if (p.use_count() != 1) mc::fail("use_count() = %ld after make()", p.use_count());
            state[ID(&*o)] = used;
            owners[ID(&*o)] = 1;
            st.s[i] = std::move(p);
        }
        // i must be empty
        void make(int i)
        {
            int f = nfree(), c = created;
            auto p = pool().make();
            got(i, p, f, c);
        }
        void step(mc::Menu& op)
        {
            mc::heap::Track t;
            for (int i = 0; i < S; ++i)
            {
                if (!st.s[i])
                {
                    if (op("slot %d = make()", i)) { make(i); return; }
                    if (created - destroyed < M && op("slot %d = add(new)", i)) { Obj* o = new Obj(); auto p = pool().add(o); if (p.get() != o) mc::fail("add() returned another object"); got(i, p, 0, 0); return; }
                    if (op("slot %d = make(), constructor throws", i))
                    {
                        int f = nfree();
                        throw_in_ctor = true;
                        bool thrown = false;
                        try { make(i); } catch (const std::runtime_error&) { thrown = true; }
                        throw_in_ctor = false;
                        if (thrown != (f == 0)) mc::fail("make() %s although %d objects are free", thrown ? "constructed" : "did not construct", f);
                        return;
                    }
                    for (int k = 0; k < 2; ++k)
                        if (op("slot %d = make(), allocation %d fails", i, k))
                        {
                            const int f = nfree(), c = created;
                            int fin = 0;
                            for (auto& x : finals) { fin += x; x = 0; }
                            fin = 0;
                            bool thrown = false;
                            fault = true;
                            mc::heap::g_fail_at = k;
                            std::shared_ptr<Obj> p;
                            try { p = pool().make(); } catch (const std::bad_alloc&) { thrown = true; }
                            mc::heap::g_fail_at = -1;
                            fault = false;
                            if (p) got(i, p, f, c);
                            else
                            {
                                if (!thrown) mc::fail("make() returned null");
                                // whatever was taken or created is free again
                                for (int j = 0; j < MAXOBJ; ++j) { if (state[j] == fresh) state[j] = free_; fin += finals[j]; }
                                if (fin > 1) mc::fail("a failed make() finalised %d times", fin);
                            }
                            for (auto& x : finals) x = 0;
                            return;
                        }
                    for (int j = 0; j < S; ++j)
                        if (j != i && st.s[j] && op("slot %d = slot %d", i, j)) { st.s[i] = st.s[j]; ++owners[ID(&*st.s[i])]; return; }
                    if (op("slot %d = weak.lock()", i))
                    {
                        Obj* want = weak_of;
                        auto p = st.weak.lock();
                        if ((p != nullptr) != (want != nullptr)) mc::fail("a weak pointer to a %s object locks", want ? "held" : "released");
                        if (p) { if (p.get() != want) mc::fail("weak.lock()"); ++owners[ID(&*p)]; st.s[i] = std::move(p); }
                        return;
                    }
                }
                else
                {
                    for (int r = 0; r < R; ++r)
                        if (op("release slot %d%s", i, r == 0 ? "" : r == 1 ? ", finaliser makes and drops an object" : r == 2 ? ", finaliser releases slot 0" : r == 3 ? ", finaliser makes an object for slot 1" : ", finaliser clears the pool"))
                        {
                            reaction = r;
                            reacting = i;
                            drop(i);
                            reaction = 0;
                            fix_weak();
                            return;
                        }
                    if (op("weak = slot %d", i)) { st.weak = st.s[i]; weak_of = st.s[i].get(); return; }
                    for (int j = 0; j < S; ++j)
                        if (j != i && st.s[j] && op("slot %d = slot %d (assigned over)", i, j))
                        {
                            Obj* o = st.s[i].get();
                            ++owners[ID(&*st.s[j])];
                            unown(o);
                            st.s[i] = st.s[j];
                            settle();
                            fix_weak();
                            return;
                        }
                }
            }
            if (op("weak.reset()")) { st.weak.reset(); weak_of = nullptr; return; }
            if (op("clear()")) { clear(); return; }
        }
        void clear()
        {
            const int f = nfree(), d = destroyed;
            pool().clear();
            if (destroyed - d != f) mc::fail("clear() destroyed %d objects, %d were free", destroyed - d, f);
        }
        void fix_weak() { if (weak_of && (!alive(weak_of) || owners[ID(&*weak_of)] == 0)) weak_of = nullptr; }
        bool alive(Obj* o) { for (auto x : obj) if (x == o) return true; return false; }
        Obj* weak_of = nullptr;
        int reacting = -1;
        bool fault = false;

        void check()
        {
            fix_weak();
            int live = 0;
            for (int i = 0; i < MAXOBJ; ++i)
            {
                if (!obj[i]) continue;
                ++live;
                if (obj[i]->canary != 0xC0FFEE) mc::fail("object %d is damaged", i);
                int n = 0;
                for (auto& s : st.s) n += s.get() == obj[i];
                if (n != owners[i]) mc::fail("internal: owners of object %d", i);
                if ((state[i] == used) != (n > 0)) mc::fail("internal: state of object %d", i);
                if (state[i] == used) for (auto& s : st.s) if (s.get() == obj[i] && s.use_count() != n) mc::fail("use_count() of object %d", i);
                if (!static_cast<awl::pooled_object_link*>(obj[i])->included()) mc::fail("object %d is in no list of the pool", i);
            }
            if (live != created - destroyed) mc::fail("internal: live objects");
            if (st.weak.expired() != (weak_of == nullptr)) mc::fail("a weak pointer to a %s object is %s", weak_of ? "held" : "released", weak_of ? "expired" : "not expired");
        }
        uint64_t canon()
        {
            // A weak pointer to a released object refers to nothing that matters any more; otherwise it is one of the slots' object.
            uint64_t h = st.weak.use_count() ? 7 : 3;
            for (auto& s : st.s) h = mc::mix(h, s && s.get() == weak_of);
            auto stripped = std::move(st.weak);
            h = mc::mix(h, canon_graph());
            st.weak = std::move(stripped);
            return h;
        }
        uint64_t canon_graph()
        {
            // weak counts of the control blocks are left out: replace the slots by the identity of the objects
            std::array<const Obj*, S> o;
            for (int i = 0; i < S; ++i) o[i] = st.s[i].get();
            return mc::heap::graph_hash({ { st.pool, sizeof st.pool }, { o.data(), sizeof o } });
        }
    };

    Obj::Obj()
    {
        if (w->throw_in_ctor) throw std::runtime_error("constructor");
        int id = 0;
        while (id < MAXOBJ && w->obj[id]) ++id;
        if (id == MAXOBJ) mc::fail("too many objects: free ones are not reused");
        w->obj[id] = this;
        w->state[id] = World::fresh;
        w->owners[id] = 0;
        w->finals[id] = 0;
        ++w->created;
    }
    int ID(const Obj* o) { for (int i = 0; i < MAXOBJ; ++i) if (w->obj[i] == o) return i; mc::fail("a pointer to something that is not a live object"); }
    Obj::~Obj()
    {
        if (canary != 0xC0FFEE) mc::fail("an object is destroyed twice");
        const int id = ID(this);
        auto s = w->state[id];
        if (s == World::used) mc::fail("object %d is destroyed while it is held", id);
        if (s == World::finalizing) mc::fail("object %d is destroyed while it is being finalised", id);
        canary = 0xDEAD;
        w->obj[id] = nullptr;
        w->state[id] = World::none;
        ++w->destroyed;
    }
    void Obj::Finalize()
    {
        if (canary != 0xC0FFEE) mc::fail("a destroyed object is finalised");
        const int id = ID(this);
        if (!w->fault && w->state[id] != World::finalizing) mc::fail("object %d is finalised although it is %s", id, w->state[id] == World::used ? "held" : "free");
        if (w->fault && w->state[id] == World::used) mc::fail("object %d is finalised although it is held", id);
        ++w->finals[id];
        const int r = w->reaction;
        w->reaction = 0;
        if (r == 1)
        {
            int f = w->nfree(), c = w->created;
            auto p = w->pool().make();
            if (p.get() == this) mc::fail("make() handed out object %d while it is being finalised", id);
            if (w->state[ID(&*p)] == World::used || (f && w->created != c)) mc::fail("make() inside Finalize()");
            w->state[ID(&*p)] = World::used; w->owners[ID(&*p)] = 1;
            Obj* o = p.get();
            w->unown(o);
            p.reset();
            if (w->finals[ID(&*o)] != 1) mc::fail("object %d was finalised %d times", ID(&*o), w->finals[ID(&*o)]);
            w->state[ID(&*o)] = World::free_;
        }
        else if (r == 2 && w->st.s[0] && w->reacting != 0)
        {
            Obj* o = w->st.s[0].get();
            w->unown(o);
            w->st.s[0].reset();
            if (w->state[ID(&*o)] == World::finalizing) { if (w->finals[ID(&*o)] != 1) mc::fail("object %d was finalised %d times", ID(&*o), w->finals[ID(&*o)]); w->state[ID(&*o)] = World::free_; }
        }
        else if (r == 3 && !w->st.s[1] && w->reacting != 1) w->make(1);
        else if (r == 4) w->clear();
        if (canary != 0xC0FFEE) mc::fail("an object is destroyed during its own finalisation");
    }

    // ---- singletons: the state is static, so every history uses a type of its own ----
    int inst_created, inst_destroyed;
    bool inst_throw;
    template <int N> struct Inst
    {
        uint32_t canary = 0xC0FFEE;
        Inst() { if (inst_throw) throw std::runtime_error("constructor"); ++inst_created; }
        ~Inst() { if (canary != 0xC0FFEE) mc::fail("singleton destroyed twice"); canary = 0; ++inst_destroyed; }
    };
    using Get = std::shared_ptr<void> (*)();
    template <int N> std::shared_ptr<void> ondemand() { return awl::ondemand_singleton<Inst<2 * N>>(); }
    template <int N> std::shared_ptr<void> shared() { return awl::shared_singleton<Inst<2 * N + 1>>(); }
    constexpr int TYPES = 90;
    template <int... I> std::array<Get, TYPES> table(bool on, std::integer_sequence<int, I...>) { return on ? std::array<Get, TYPES>{ &ondemand<I>... } : std::array<Get, TYPES>{ &shared<I>... }; }

    struct Single : mc::MenuSys<Single>
    {
        bool on;
        Get get;
        std::shared_ptr<void> s[3];
        bool held[3] = {};
        int lives = 0;          // instances created so far (0, 1, many)
        int base_c, base_d;
        static inline int next[2];
        Single(bool o) : on(o)
        {
            static auto t1 = table(true, std::make_integer_sequence<int, TYPES>()), t2 = table(false, std::make_integer_sequence<int, TYPES>());
            if (next[o] == TYPES) mc::fail("internal: too few singleton types");
            get = (o ? t1 : t2)[next[o]++];
            base_c = inst_created; base_d = inst_destroyed;
        }
        bool any() { return held[0] || held[1] || held[2]; }
        void step(mc::Menu& op)
        {
            for (int i = 0; i < 3; ++i)
            {
                if (!held[i])
                {
                    if (op("holder %d gets the singleton", i) )
                    {
                        const bool want = any() || on || lives == 0;
                        if (!any() && want) ++lives;
                        s[i] = get();
                        if ((s[i] != nullptr) != want) mc::fail(want ? "no singleton" : "a destroyed singleton came back");
                        held[i] = want;
                        return;
                    }
                    if (!any() && (on || lives == 0) && op("holder %d gets the singleton, its constructor throws", i))
                    {
                        inst_throw = true;
                        bool thrown = false;
                        try { s[i] = get(); } catch (const std::runtime_error&) { thrown = true; }
                        inst_throw = false;
                        if (!thrown) mc::fail("no instance was constructed");
                        return;
                    }
                    for (int j = 0; j < 3; ++j) if (held[j] && op("holder %d copies holder %d", i, j)) { s[i] = s[j]; held[i] = true; return; }
                }
                else if (op("holder %d releases it", i)) { s[i].reset(); held[i] = false; return; }
            }
        }
        void check()
        {
            void* p = nullptr;
            for (int i = 0; i < 3; ++i)
            {
                if (!held[i]) continue;
                if (p && p != s[i].get()) mc::fail("two instances at the same time");
                p = s[i].get();
            }
            if (inst_created - base_c != lives) mc::fail("%d instances created, expected %d", inst_created - base_c, lives);
            if (inst_destroyed - base_d != lives - any()) mc::fail("%d of %d instances destroyed while %s", inst_destroyed - base_d, lives, any() ? "held" : "nobody holds one");
        }
        uint64_t canon() { return held[0] | held[1] << 1 | held[2] << 2 | (lives > 1 ? 2 : lives) << 3; }
    };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    if (mc::cfg().shard == 0)
    {
        if (mc::begin_scenario("object_pool")) mc::bfs([&] { return std::make_unique<World>(5, th ? 7 : 5); }, 100, 8000000);
    }
    else
    {
        if (mc::begin_scenario("ondemand_singleton")) mc::bfs([] { return std::make_unique<Single>(true); }, 40, 1000);
        if (mc::begin_scenario("shared_singleton")) mc::bfs([] { return std::make_unique<Single>(false); }, 40, 1000);
        if (mc::begin_scenario("static_singleton"))
        {
            const int c = inst_created;
            auto* a = &awl::static_singleton<Inst<-1>>();
            auto* b = &awl::static_singleton<Inst<-1>>();
            if (a != b || inst_created - c != 1) mc::fail("static_singleton() has more than one instance");
            mc::cnt("states") += 2; mc::cnt("transitions") += 2;
        }
    }
    return mc::finish();
}
