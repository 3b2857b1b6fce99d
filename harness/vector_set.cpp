// C01 / C02: awl::vector_set against a sorted std::vector, over every reachable concrete tree.
#include "heap.hpp"
#include "Awl/VectorSet.h"
#include <cmath>

namespace
{
    struct Elem
    {
        int key;
        uint32_t canary;
        static inline long live = 0;
        static inline int throw_at = -1;
        static void maybe_throw() { if (throw_at >= 0 && throw_at-- == 0) throw std::runtime_error("ctor"); }
        Elem(int k) : key(k), canary(0xC0FFEE) { maybe_throw(); ++live; }
        Elem(const Elem& o) : key(o.key), canary(0xC0FFEE) { if (o.canary != 0xC0FFEE) mc::fail("copy of a dead element"); maybe_throw(); ++live; }
        Elem(Elem&& o) : key(o.key), canary(0xC0FFEE) { if (o.canary != 0xC0FFEE) mc::fail("move of a dead element"); maybe_throw(); o.key = -77; ++live; }
        Elem& operator=(const Elem&) = default;
        ~Elem() { if (canary != 0xC0FFEE) mc::fail("element destroyed twice"); canary = 0xDEAD; --live; }
    };

    long g_cmp = 0;                     // comparisons
    const void* g_seen[64];             // elements compared with since the counter was reset
    int g_nseen = -1;
    void seen(const void* p)
    {
        if (g_nseen < 0) return;
        for (int i = 0; i < g_nseen; ++i) if (g_seen[i] == p) return;
        if (g_nseen < 64) g_seen[g_nseen++] = p;
    }

    struct Cmp
    {
        bool rev = false;
        static int k(const Elem& e) { if (e.canary != 0xC0FFEE) mc::fail("comparison of a dead element"); seen(&e); return e.key; }
        static int k(int i) { return i; }
        static int k(short i) { return i; }
        template <class A, class B> bool operator()(const A& a, const B& b) const { ++g_cmp; return rev ? k(b) < k(a) : k(a) < k(b); }
        using is_transparent = void;
    };

    // An allocator that notices memory that bypasses it.
    std::map<void*, size_t>& alloc_live() { static auto* m = [] { mc::heap::Untrack u; return new std::map<void*, size_t>; }(); return *m; }
    int g_alloc_fail = -1;
    template <class T> struct Alloc
    {
        using value_type = T;
        Alloc() = default;
        template <class U> Alloc(const Alloc<U>&) {}
        T* allocate(size_t n)
        {
            if (g_alloc_fail >= 0 && g_alloc_fail-- == 0) throw std::bad_alloc();
            T* p;
            { mc::heap::Track t; p = (T*)::operator new(n * sizeof(T)); }
            mc::heap::Untrack u;
            alloc_live()[p] = n;
            return p;
        }
        void deallocate(T* p, size_t n)
        {
            mc::heap::Untrack u;
            auto it = alloc_live().find(p);
            if (it == alloc_live().end() || it->second != n) mc::fail("deallocate of memory the allocator did not hand out");
            alloc_live().erase(it);
            ::operator delete(p);
        }
        bool operator==(const Alloc&) const { return true; }
        bool operator!=(const Alloc&) const { return false; }
    };

    using Set = awl::vector_set<Elem, Cmp, Alloc<Elem>>;

    struct Model
    {
        std::vector<int> v;
        bool rev = false;
        bool less(int a, int b) const { return rev ? b < a : a < b; }
        size_t lower(int k) const { size_t i = 0; while (i < v.size() && less(v[i], k)) ++i; return i; }
        size_t upper(int k) const { size_t i = 0; while (i < v.size() && !less(k, v[i])) ++i; return i; }
        bool has(int k) const { size_t i = lower(k); return i < v.size() && v[i] == k; }
        bool insert(int k) { if (has(k)) return false; v.insert(v.begin() + lower(k), k); return true; }
        bool erase(int k) { if (!has(k)) return false; v.erase(v.begin() + lower(k)); return true; }
    };

    std::string show(const std::vector<int>& v) { std::string s = "{"; for (int i : v) s += std::to_string(i) + " "; return s + "}"; }

    template <class S>
    void observe_iter(S& s, const Model& m)
    {
        std::vector<int> f, b;
        size_t guard = m.v.size() + 3;
        for (auto i = s.begin(); i != s.end() && f.size() < guard; ++i) f.push_back(i->key);
        for (auto i = s.rbegin(); i != s.rend() && b.size() < guard; ++i) b.push_back((*i).key);
        std::reverse(b.begin(), b.end());
        if (f != m.v) mc::fail("forward iteration gives %s, expected %s", show(f).c_str(), show(m.v).c_str());
        if (b != m.v) mc::fail("backward iteration gives (reversed) %s, expected %s", show(b).c_str(), show(m.v).c_str());
        // decrement from end
        std::vector<int> d;
        auto i = s.end();
        while (d.size() < m.v.size()) { --i; d.push_back(i->key); }
        std::reverse(d.begin(), d.end());
        if (d != m.v) mc::fail("decrementing from end() gives %s, expected %s", show(d).c_str(), show(m.v).c_str());
    }

    template <class S>
    void observe(S& s, const Model& m, int K)
    {
        if (mc::g_replaying) return;
        if (s.size() != m.v.size()) mc::fail("size() is %zu, expected %zu", s.size(), m.v.size());
        if (s.empty() != m.v.empty()) mc::fail("empty() is wrong for %s", show(m.v).c_str());
        observe_iter(s, m);
        for (int k = -1; k <= K; ++k)
        {
            auto at = [&](auto it) -> size_t { if (it == s.end()) return m.v.size(); size_t i = 0; for (auto j = s.begin(); j != s.end(); ++j, ++i) if (j == it) return i; return 9999; };
            const bool has = m.has(k);
            if (at(s.find(k)) != (has ? m.lower(k) : m.v.size())) mc::fail("find(%d) in %s", k, show(m.v).c_str());
            if (at(s.find((short)k)) != (has ? m.lower(k) : m.v.size())) mc::fail("find(short %d) in %s", k, show(m.v).c_str());
            if (s.contains(k) != has) mc::fail("contains(%d) in %s", k, show(m.v).c_str());
            if (at(s.lower_bound(k)) != m.lower(k)) mc::fail("lower_bound(%d) in %s gives position %zu", k, show(m.v).c_str(), at(s.lower_bound(k)));
            if (at(s.upper_bound(k)) != m.upper(k)) mc::fail("upper_bound(%d) in %s gives position %zu", k, show(m.v).c_str(), at(s.upper_bound(k)));
            auto [it, idx] = s.find2(k);
            if (at(it) != (has ? m.lower(k) : m.v.size())) mc::fail("find2(%d) iterator in %s", k, show(m.v).c_str());
            if (has && idx != m.lower(k)) mc::fail("find2(%d) index %zu in %s", k, idx, show(m.v).c_str());
            if (has)
            {
                if (s.index_of(k) != m.lower(k)) mc::fail("index_of(key %d) = %zu in %s", k, s.index_of(k), show(m.v).c_str());
                if (s.index_of(s.find(k)) != m.lower(k)) mc::fail("index_of(iterator to %d) = %zu in %s", k, s.index_of(s.find(k)), show(m.v).c_str());
            }
            else
            {
                bool thrown = false;
                try { s.index_of(k); } catch (const std::out_of_range&) { thrown = true; }
                if (!thrown) mc::fail("index_of(absent key %d) does not throw in %s", k, show(m.v).c_str());
            }
        }
        for (size_t i = 0; i < m.v.size(); ++i)
        {
            if (s[i].key != m.v[i]) mc::fail("[%zu] = %d in %s", i, s[i].key, show(m.v).c_str());
            if (s.at(i).key != m.v[i]) mc::fail("at(%zu) = %d in %s", i, s.at(i).key, show(m.v).c_str());
            if (s.find_by_index(i) == s.end() || s.find_by_index(i)->key != m.v[i]) mc::fail("find_by_index(%zu) in %s", i, show(m.v).c_str());
        }
        for (size_t i : { m.v.size(), m.v.size() + 1, (size_t)-1 })
        {
            bool thrown = false;
            try { s.at(i); } catch (const std::out_of_range&) { thrown = true; }
            if (!thrown) mc::fail("at(%zu) does not throw with %zu elements", i, m.v.size());
            if (s.find_by_index(i) != s.end()) mc::fail("find_by_index(%zu) is not end() with %zu elements", i, m.v.size());
        }
        if (!m.v.empty())
        {
            if (s.front().key != m.v.front()) mc::fail("front() = %d in %s", s.front().key, show(m.v).c_str());
            if (s.back().key != m.v.back()) mc::fail("back() = %d in %s", s.back().key, show(m.v).c_str());
        }
    }

    // The known finding of C02: erase() leaves the tree unbalanced when it removes a black node without children, or a
    // black node in place of a red one.  This is a tree with exactly that defect; a lookup that takes too long is the
    // known finding if and only if this tree needs as many levels for it.  A tree with all its erasures balanced
    // (the repair, which VectorSetInternal_Test forbids) is always within the bound.
    class Twin
    {
        struct N { int key, l, r, p; bool red; };
        std::vector<N> n { { 0, 0, 0, 0, false } };     // 0 is null
        int root = 0;

        void rotate(int x, bool left)
        {
            int y = left ? n[x].r : n[x].l;
            int b = left ? n[y].l : n[y].r;
            (left ? n[x].r : n[x].l) = b;
            if (b) n[b].p = x;
            n[y].p = n[x].p;
            if (!n[x].p) root = y;
            else if (x == n[n[x].p].l) n[n[x].p].l = y;
            else n[n[x].p].r = y;
            (left ? n[y].l : n[y].r) = x;
            n[x].p = y;
        }
        int find(int k) const { int x = root; while (x && n[x].key != k) x = k < n[x].key ? n[x].l : n[x].r; return x; }
    public:
        void insert(int k)
        {
            if (find(k)) return;
            int p = 0;
            for (int x = root; x; ) { p = x; x = k < n[x].key ? n[x].l : n[x].r; }
            int x = (int)n.size();
            n.push_back({ k, 0, 0, p, true });
            if (!p) root = x; else if (k < n[p].key) n[p].l = x; else n[p].r = x;
            while (x != root && n[n[x].p].red)
            {
                int q = n[x].p, g = n[q].p;
                bool left = q == n[g].l;
                int u = left ? n[g].r : n[g].l;
                if (u && n[u].red) { n[q].red = n[u].red = false; n[g].red = true; x = g; continue; }
                if (x == (left ? n[q].r : n[q].l)) { x = q; rotate(x, left); }
                n[n[x].p].red = false;
                n[n[n[x].p].p].red = true;
                rotate(n[n[x].p].p, !left);
            }
            n[root].red = false;
        }
        void erase(int k)
        {
            int z = find(k);
            if (!z) return;
            int y = z;
            if (n[z].l && n[z].r) { y = n[z].r; while (n[y].l) y = n[y].l; }
            int x = n[y].l ? n[y].l : n[y].r;
            if (x) n[x].p = n[y].p;
            if (!n[y].p) root = x;
            else if (y == n[n[y].p].l) n[n[y].p].l = x;
            else n[n[y].p].r = x;
            if (y != z)
            {
                n[y].l = n[z].l; n[y].r = n[z].r; n[y].p = n[z].p; n[y].red = n[z].red;
                if (n[y].l) n[n[y].l].p = y;
                if (n[y].r) n[n[y].r].p = y;
                if (!n[z].p) root = y;
                else if (z == n[n[z].p].l) n[n[z].p].l = y;
                else n[n[z].p].r = y;
            }
            if (n[y].red || !x) return;
            while (x != root && !n[x].red)
            {
                bool left = x == n[n[x].p].l;
                auto near_ = [&](int w) -> int& { return left ? n[w].l : n[w].r; };
                auto far_ = [&](int w) -> int& { return left ? n[w].r : n[w].l; };
                int w = far_(n[x].p);
                if (!w) { x = n[x].p; continue; }
                if (n[w].red)
                {
                    n[w].red = false;
                    n[n[x].p].red = true;
                    rotate(n[x].p, left);
                    w = far_(n[x].p);
                }
                if (!w) { x = n[x].p; continue; }
                if (!n[near_(w)].red && !n[far_(w)].red) { n[w].red = true; x = n[x].p; }
                else
                {
                    if (!n[far_(w)].red)
                    {
                        if (near_(w)) n[near_(w)].red = false;
                        n[w].red = true;
                        rotate(w, !left);
                        w = far_(n[x].p);
                    }
                    n[w].red = n[n[x].p].red;
                    n[n[x].p].red = false;
                    if (far_(w)) n[far_(w)].red = false;
                    rotate(n[x].p, left);
                    x = root;
                }
            }
            n[x].red = false;
        }
        // Nodes visited by a lookup.
        int levels(int k) const { int d = 0; for (int x = root; x; ) { ++d; if (n[x].key == k) break; x = k < n[x].key ? n[x].l : n[x].r; } return d; }
    };

    // Levels visited by a lookup; each visited level costs one or two comparisons.
    void check_balance(const Set& s, const Model& m, int K, const Twin& t)
    {
        const int bound = (int)std::floor(2 * std::log2(double(m.v.size() + 1)));
        for (int k = -1; k <= K; ++k)
        {
            g_cmp = 0;
            g_nseen = 0;
            s.contains(k);
            const int levels = g_nseen;
            g_nseen = -1;
            if (levels > bound || g_cmp > 2 * bound)
            {
                char b[300];
                snprintf(b, sizeof b, "looking up %d among %zu elements compares it with %d of them (%ld comparisons); a red-black tree needs at most %d", k, m.v.size(), levels, g_cmp, bound);
                int lv = t.levels(k);
                if (lv > bound && levels <= lv && g_cmp <= 2 * lv) { mc::fail_keyed("erase-of-childless-black-node", b); ++mc::cnt("lookups_of_the_known_finding"); }
                else mc::fail("%s", b);
            }
            else
            {
                auto& mx = mc::cnt("max_comparisons");
                mx = std::max<unsigned long long>(mx, g_cmp);
            }
        }
    }

    bool g_balance_only = false;

    struct Sys
    {
        int K;
        bool faults;
        alignas(Set) unsigned char buf[sizeof(Set)];
        Set* s;
        Model m;
        Twin twin;
        std::map<int, const Elem*> addr;

        Sys(int k, bool f) : K(k), faults(f)
        {
            memset(buf, 0, sizeof buf);
            Elem::live = 0;
            s = new (buf) Set();
        }
        ~Sys()
        {
            s->~Set();
            if (Elem::live != 0) mc::fail("%ld elements alive after the set was destroyed", Elem::live);
            if (!alloc_live().empty()) mc::fail("%zu allocations not returned after the set was destroyed", alloc_live().size());
        }

        int ops() { return g_balance_only ? 2 * K : 4 * K + 9 + (faults ? 4 * K : 0); }

        void replaced(const Set& t) { addr.clear(); for (auto& e : t) addr[e.key] = &e; }

        void do_insert(int kind, int k, bool faulty)
        {
            bool expect = !m.has(k);
            std::pair<Set::iterator, bool> r { s->end(), false };
            bool thrown = false;
            long before = Elem::live;
            size_t ab = alloc_live().size();
            {
                Elem tmp(k);
                if (faulty) { if (kind == 3) g_alloc_fail = 0; else Elem::throw_at = 0; }
                try
                {
                    if (kind == 0) r = s->insert(static_cast<const Elem&>(tmp));
                    else if (kind == 1) r = s->insert(std::move(tmp));
                    else if (kind == 2) r = s->emplace(k);
                    else r = s->insert(static_cast<const Elem&>(tmp));
                }
                catch (const std::exception&) { thrown = true; }
                Elem::throw_at = -1;
                g_alloc_fail = -1;
                if (kind == 1 && !expect && tmp.key != k) mc::fail("insert(&&) of an existing key %d consumed its argument", k);
            }
            if (thrown)
            {
                if (Elem::live != before) mc::fail("failed insertion leaked or lost elements");
                if (alloc_live().size() != ab) mc::fail("failed insertion of %d leaked %zd node(s)", k, (ssize_t)(alloc_live().size() - ab));
                return;
            }
            if (r.second != expect) mc::fail("insert(%d) reports %d, expected %d, in %s", k, r.second, expect, show(m.v).c_str());
            m.insert(k);
            if (r.first == s->end() || r.first->key != k) mc::fail("insert(%d) returns an iterator to something else", k);
            if (expect) addr[k] = &*r.first;
        }

        void apply(int op)
        {
            if (g_balance_only)
            {
                if (op < K) { mc::trace("insert %d", op); s->insert(Elem(op)); m.insert(op); twin.insert(op); }
                else { mc::trace("erase %d", op - K); s->erase(op - K); m.erase(op - K); twin.erase(op - K); }
                if (!mc::g_replaying) check_balance(*s, m, K, twin);
                return;
            }
            if (op < 3 * K)
            {
                int kind = op / K, k = op % K;
                mc::trace("%s %d", kind == 0 ? "insert(const&)" : kind == 1 ? "insert(&&)" : "emplace", k);
                do_insert(kind, k, false);
            }
            else if (op < 4 * K)
            {
                int k = op - 3 * K;
                bool has = m.has(k);
                if (has && k % 3 == 2)
                {
                    mc::trace("erase(reference to the element %d)", k);
                    if (s->erase(*s->find(k)) != 1) mc::fail("erase(%d) returns a wrong count", k);
                    m.erase(k);
                }
                else if (has && k % 3 == 1)
                {
                    mc::trace("erase(iterator to %d)", k);
                    s->erase(s->find(k));
                    m.erase(k);
                }
                else
                {
                    mc::trace("erase(key %d)", k);
                    if (s->erase(k) != (has ? 1u : 0u)) mc::fail("erase(%d) returns a wrong count", k);
                    m.erase(k);
                }
                addr.erase(k);
            }
            else if (op < 4 * K + 9)
            {
                switch (op - 4 * K)
                {
                case 0: mc::trace("clear"); s->clear(); m.v.clear(); addr.clear(); break;
                case 1:
                {
                    mc::trace("copy-construct, compare, mutate the copy, keep the original");
                    Set t(*s);
                    if (!(t == *s) || t != *s) mc::fail("a copy does not compare equal");
                    observe(t, m, K);
                    Model m2 = m;
                    for (int k = 0; k < K; ++k) { if (k % 2) { t.erase(k); m2.erase(k); } else { t.insert(Elem(k)); m2.insert(k); } }
                    observe(t, m2, K);
                    if ((t == *s) != (m2.v == m.v)) mc::fail("operator== is wrong for %s and %s", show(m.v).c_str(), show(m2.v).c_str());
                    break;
                }
                case 2:
                {
                    mc::trace("copy-assign from a copy of a reversed set built from the same elements");
                    Set t(Cmp { !m.rev });
                    for (int k : m.v) t.insert(Elem(k));
                    *s = t;
                    m.rev = !m.rev;
                    std::reverse(m.v.begin(), m.v.end());
                    observe(t, m, K);
                    replaced(*s);
                    break;
                }
                case 3:
                {
                    mc::trace("self copy-assignment, self move-assignment");
                    Set& r = *s;
                    *s = r;
                    observe(*s, m, K);
                    *s = std::move(r);
                    replaced(*s);
                    break;
                }
                case 4:
                {
                    mc::trace("move-construct away, reuse the source, move-assign back");
                    Set t(std::move(*s));
                    Model e; e.rev = s->value_comp().rev;
                    observe(*s, e, K);
                    s->insert(Elem(1)); e.insert(1);
                    observe(*s, e, K);
                    observe(t, m, K);
                    *s = std::move(t);
                    Model e2; e2.rev = t.value_comp().rev;
                    observe(t, e2, K);
                    t.insert(Elem(0)); e2.insert(0);
                    observe(t, e2, K);
                    break;
                }
                case 5:
                {
                    mc::trace("move-assign from a set holding 0 2 (other order)");
                    Set t(Cmp { !m.rev });
                    t.insert(Elem(0)); t.insert(Elem(2));
                    *s = std::move(t);
                    m.rev = !m.rev;
                    m.v.clear(); m.insert(0); m.insert(2);
                    replaced(*s);
                    break;
                }
                case 6:
                {
                    mc::trace("construct from an iterator range in reverse order, copy-assign");
                    std::vector<Elem> v;
                    for (auto i = m.v.rbegin(); i != m.v.rend(); ++i) { v.emplace_back(*i); v.emplace_back(*i); }
                    Set t(v.begin(), v.end(), Cmp { m.rev });
                    if (t != *s) mc::fail("set built from a range differs");
                    *s = t;
                    replaced(*s);
                    break;
                }
                case 7:
                {
                    mc::trace("initializer list 2 0 1 1");
                    *s = Set({ Elem(2), Elem(0), Elem(1), Elem(1) });
                    m.rev = false;
                    m.v = { 0, 1, 2 };
                    replaced(*s);
                    break;
                }
                case 8:
                {
                    mc::trace("erase the first element through begin(), the last through find_by_index(size-1)");
                    if (!m.v.empty()) { addr.erase(m.v.front()); s->erase(s->begin()); m.v.erase(m.v.begin()); }
                    if (!m.v.empty()) { addr.erase(m.v.back()); s->erase(s->find_by_index(m.v.size() - 1)); m.v.pop_back(); }
                    break;
                }
                }
            }
            else
            {
                int o = op - 4 * K - 9;
                int kind = o / K, k = o % K;
                mc::trace("failing %s %d", kind == 0 ? "insert(const&)" : kind == 1 ? "insert(&&)" : kind == 2 ? "emplace" : "insert (allocator throws)", k);
                do_insert(kind, k, true);
            }
            if (mc::g_replaying) return;
            observe(*s, m, K);
            observe(static_cast<const Set&>(*s), m, K);
            if (Elem::live != (long)m.v.size()) mc::fail("%ld live elements, %zu in the set", Elem::live, m.v.size());
            if (alloc_live().size() != m.v.size()) mc::fail("%zu live nodes for %zu elements", alloc_live().size(), m.v.size());
            for (auto& e : *s)
            {
                auto it = addr.find(e.key);
                if (it == addr.end() || it->second != &e) mc::fail("element %d has moved in memory (references and iterators to it are invalid)", e.key);
            }
            if (s->value_comp().rev != m.rev) mc::fail("comparator not carried over");
        }

        uint64_t canon()
        {
            return mc::heap::graph_hash({ { s, sizeof(Set) } });
        }
    };
}

// All permutations/patterns for the balance bound with more elements than the closed state spaces reach.
static std::vector<int> order(int kind, int n)
{
    std::vector<int> r;
    if (kind == 0) for (int i = 0; i < n; ++i) r.push_back(i);
    else if (kind == 1) for (int i = n - 1; i >= 0; --i) r.push_back(i);
    else if (kind == 2) { for (int i = 0, j = n - 1; i <= j; ++i, --j) { r.push_back(i); if (i != j) r.push_back(j); } }
    else if (kind == 3) { for (int i = 0; i < n; i += 2) r.push_back(i); for (int i = 1; i < n; i += 2) r.push_back(i); }
    else if (kind == 4) { r = order(2, n); std::reverse(r.begin(), r.end()); }
    else if (kind == 5) { int b = 1; while ((1 << b) < n) ++b; for (int i = 0; i < (1 << b); ++i) { int x = 0; for (int k = 0; k < b; ++k) if (i >> k & 1) x |= 1 << (b - 1 - k); if (x < n) r.push_back(x); } }
    else if (kind == 6) { for (int i = 0; i < n; ++i) r.push_back((i * 7 + 3) % n); std::set<int> u(r.begin(), r.end()); if ((int)u.size() != n) r = order(0, n); }
    else if (kind == 7) { for (int b = (n - 1) / 16; b >= 0; --b) for (int i = b * 16; i < n && i < b * 16 + 16; ++i) r.push_back(i); }
    else if (kind == 8) { for (int b = 0; b * 16 < n; ++b) for (int i = std::min(n, b * 16 + 16) - 1; i >= b * 16; --i) r.push_back(i); }
    return r;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    bool balance = false;
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--balance")) balance = true;
    if (!balance)
    {
        int K = th ? 7 : 6;
        if (mc::begin_scenario("closure over " + std::to_string(K) + " keys"))
            mc::bfs([&] { return std::make_unique<Sys>(K, false); }, 60, 3000000);
        int KF = th ? 4 : 3;
        if (mc::begin_scenario("closure over " + std::to_string(KF) + " keys with failing element constructors and allocations"))
            mc::bfs([&] { return std::make_unique<Sys>(KF, true); }, 60, 3000000);
        return mc::finish();
    }
    g_balance_only = true;
    {
        int K = th ? 9 : 7;
        if (mc::begin_scenario("balance: closure over " + std::to_string(K) + " keys"))
            mc::bfs([&] { return std::make_unique<Sys>(K, false); }, 80, 3000000);
    }
    if (mc::begin_scenario("balance: every (insertion order, deletion order, size) of a menu, checked after every step"))
    {
        int maxn = th ? 200 : 70;
        for (int io = 0; io < 7; ++io) for (int eo = 0; eo < 7; ++eo) for (int n = 4; n <= maxn; n += (n < 40 ? 1 : 13))
        {
            mc::trace_reset();
            mc::trace("insert %d keys in order %d, erase in order %d", n, io, eo);
            Set s;
            Model m;
            Twin t;
            for (int k : order(io, n)) { s.insert(Elem(k)); m.insert(k); t.insert(k); ++mc::cnt("transitions"); check_balance(s, m, n, t); }
            for (int k : order(eo, n)) { mc::trace("erase %d", k); s.erase(k); m.erase(k); t.erase(k); ++mc::cnt("transitions"); check_balance(s, m, n, t); if (s.size() != m.v.size()) mc::fail("size"); }
            ++mc::cnt("states");
            ++mc::cnt("executions");
        }
    }
    if (mc::begin_scenario("balance: growth in every order of a menu, every lookup after every insertion"))
    {
        const int n = th ? 1500 : 500;
        for (int io = 0; io < 9; ++io)
        {
            mc::trace_reset();
            mc::trace("insert %d keys in order %d", n, io);
            Set s;
            Model m;
            Twin t;
            for (int k : order(io, n)) { s.insert(Elem(k)); m.insert(k); t.insert(k); ++mc::cnt("transitions"); check_balance(s, m, n, t); }
            ++mc::cnt("states");
            ++mc::cnt("executions");
        }
    }
    if (mc::begin_scenario("balance: sliding windows (insert new extreme, erase by position), every width and position rule"))
    {
        int maxw = th ? 40 : 18, steps = th ? 400 : 150;
        for (int dir = 0; dir < 2; ++dir) for (int w = 2; w <= maxw; ++w) for (int rule = 0; rule < 5; ++rule)
        {
            mc::trace_reset();
            mc::trace("window %d dir %d rule %d", w, dir, rule);
            Set s;
            Model m;
            Twin t;
            for (int i = 0; i < steps; ++i)
            {
                int k = dir ? steps - i : i;
                s.insert(Elem(k)); m.insert(k); t.insert(k);
                if ((int)m.v.size() > w)
                {
                    size_t p = rule == 0 ? 0 : rule == 1 ? m.v.size() - 1 : rule == 2 ? m.v.size() / 2 : rule == 3 ? (i % m.v.size()) : m.v.size() / 3;
                    s.erase(s.find_by_index(p));
                    t.erase(m.v[p]);
                    m.v.erase(m.v.begin() + p);
                }
                check_balance(s, m, steps + 1, t);
                ++mc::cnt("transitions");
                if ((int)s.size() != (int)m.v.size()) mc::fail("size");
            }
            ++mc::cnt("states");
            ++mc::cnt("executions");
        }
    }
    return mc::finish();
}
