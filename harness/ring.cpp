// C03: awl::ring against a bounded std::deque, over every reachable concrete buffer state.
#include "heap.hpp"
#include "Awl/Ring.h"
#include <memory>
#include <utility>

namespace
{
    struct Elem
    {
        int v;
        uint32_t canary;
        static inline long live = 0;
        static inline int throw_at = -1;
        static inline long copies = 0;
        static void mt() { if (throw_at >= 0 && throw_at-- == 0) throw std::runtime_error("ctor"); }
        Elem(int x) : v(x), canary(0xC0FFEE) { ++live; }
        Elem(const Elem& o) : v(o.v), canary(0xC0FFEE) { if (o.canary != 0xC0FFEE) mc::fail("copy of a dead element"); mt(); ++copies; ++live; }
        Elem(Elem&& o) noexcept : v(o.v), canary(0xC0FFEE) { if (o.canary != 0xC0FFEE) mc::fail("move of a dead element"); o.v = -77; ++live; }
        Elem& operator=(const Elem& o) { if (canary != 0xC0FFEE || o.canary != 0xC0FFEE) mc::fail("assignment involving a dead element"); v = o.v; return *this; }
        ~Elem() { if (canary != 0xC0FFEE) mc::fail("element destroyed twice or never constructed"); canary = 0xDEAD; --live; }
        bool operator==(const Elem& o) const { return v == o.v; }
    };

    // Only what the ring itself allocates is tracked.
    template <class T> struct Alloc
    {
        using value_type = T;
        Alloc() = default;
        template <class U> Alloc(const Alloc<U>&) {}
        T* allocate(size_t n) { mc::heap::Track t; return (T*)::operator new(n * sizeof(T)); }
        void deallocate(T* p, size_t n)
        {
            auto it = mc::heap::live().find((uintptr_t)p);
            if (it == mc::heap::live().end() || it->second != n * sizeof(T)) mc::fail("deallocate() with a wrong pointer or size");
            ::operator delete(p);
        }
        bool operator==(const Alloc&) const { return true; }
    };

    using Ring = awl::ring<Elem, Alloc<Elem>>;
    using Model = std::deque<int>;

    std::string show(const Model& m) { std::string s = "["; for (int i : m) s += std::to_string(i) + " "; return s + "]"; }

    struct Sys
    {
        int K, CAP, cap;
        bool null = false;      // default-constructed / moved-from state
        alignas(Ring) unsigned char buf[sizeof(Ring)];
        Ring* r;
        Model m;

        Sys(int k, int maxcap, int c) : K(k), CAP(maxcap), cap(c)
        {
            memset(buf, 0x5a, sizeof buf);   // an uninitialized member would show
            Elem::live = 0;
            if (c == 0) { r = new (buf) Ring(); null = true; }
            else r = new (buf) Ring(c);
        }
        ~Sys()
        {
            r->~Ring();
            if (Elem::live != 0) mc::fail("%ld elements alive after the ring was destroyed", Elem::live);
            if (mc::heap::count()) mc::fail("%zu allocations leaked", mc::heap::count());
        }

        void push(bool front, int v) { if ((int)m.size() == cap) { if (front) m.pop_back(); else m.pop_front(); } if (front) m.push_front(v); else m.push_back(v); }

        template <class R>
        void observe(R& ring, const Model& m, int cap)
        {
            if (mc::g_replaying) return;
            if (ring.size() != m.size()) mc::fail("size() = %zu, expected %zu", (size_t)ring.size(), m.size());
            if (ring.empty() != m.empty()) mc::fail("empty() is wrong");
            if ((int)ring.capacity() != cap) mc::fail("capacity() = %zu, expected %d", (size_t)ring.capacity(), cap);
            if (ring.full() != ((int)m.size() == cap)) mc::fail("full() is wrong: size %zu capacity %d", m.size(), cap);
            std::vector<int> want(m.begin(), m.end()), f, b;
            for (auto& e : ring) { f.push_back(e.v); if (f.size() > m.size()) break; }
            if (f != want) mc::fail("forward iteration differs from %s", show(m).c_str());
            for (auto i = ring.rbegin(); i != ring.rend() && b.size() <= m.size(); ++i) b.push_back(i->v);
            std::reverse(b.begin(), b.end());
            if (b != want) mc::fail("reverse iteration differs from %s", show(m).c_str());
            if (ring.end() - ring.begin() != (ptrdiff_t)m.size()) mc::fail("end() - begin()");
            for (size_t i = 0; i < m.size(); ++i)
            {
                if (ring[i].v != m[i] || ring.at(i).v != m[i] || (ring.begin() + i)->v != m[i] || (*(ring.end() - (m.size() - i))).v != m[i]) mc::fail("element %zu differs from %s", i, show(m).c_str());
            }
            using It = decltype(ring.begin());
            for (size_t i = 0; i <= m.size(); ++i)
                for (size_t j = 0; j <= m.size(); ++j)
                {
                    const ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
                    const It a = ring.begin() + ptrdiff_t(i);
                    It p = a, q = a;
                    It& rp = (p += d);
                    It& rq = (q -= -d);
                    const It want_it = ring.end() - ptrdiff_t(m.size() - j);
                    if (&rp != &p || &rq != &q || p != want_it || q != want_it || !(p == want_it) || p - a != d) mc::fail("an iterator moved from %zu to %zu", i, j);
                    if ((a < p) != (i < j) || (a == p) != (i == j) || (a != p) != (i != j)) mc::fail("comparison of the iterators at %zu and %zu", i, j);
                    if (j < m.size() && (p->v != m[j] || (*q).v != m[j])) mc::fail("the iterator at %zu reads something else", j);
                    if (i < m.size())
                    {
                        It x = a, y = ring.begin() + ptrdiff_t(i + 1);
                        It old = x++, old2 = y--;
                        if (old != a || x - a != 1 || old2 - a != 1 || y != a) mc::fail("postfix ++ or -- of an iterator");
                        if (&++y != &y || y != x || &--y != &y || y != a) mc::fail("prefix ++ or -- of an iterator");
                        typename Ring::const_iterator c = ring.begin() + ptrdiff_t(i);
                        if (c->v != m[i] || c != std::as_const(ring).begin() + ptrdiff_t(i)) mc::fail("a const iterator made of an iterator at %zu", i);
                    }
                }
            for (size_t i : { m.size(), m.size() + 1, (size_t)cap, (size_t)-1 })
            {
                if (i < m.size()) continue;
                bool thrown = false;
                try { ring.at(i); } catch (const std::out_of_range&) { thrown = true; }
                if (!thrown) mc::fail("at(%zu) does not throw for a ring of %zu elements", i, m.size());
            }
            if (!m.empty() && (ring.front().v != m.front() || ring.back().v != m.back())) mc::fail("front()/back() differ from %s", show(m).c_str());
        }
        void live_check()
        {
            if (mc::g_replaying) return;
            if (Elem::live != (long)m.size()) mc::fail("%ld elements are alive, %zu are in the ring", Elem::live, m.size());
        }

        int ops()
        {
            if (null) return CAP + 3;
            return 4 * K + 2 + 1 + CAP + 6 + 4 + 2;
        }

        void apply(int op)
        {
            if (null)
            {
                if (op < CAP) { mc::trace("reserve(%d) on an empty-handed ring", op + 1); r->reserve(op + 1); cap = op + 1; null = false; m.clear(); }
                else if (op == CAP) { mc::trace("copy an empty-handed ring"); Ring c(*r); if (c.size() != 0) mc::fail("copy of an empty ring has size %zu", c.size()); *r = c; }
                else if (op == CAP + 1) { mc::trace("assign a copy of ring(2) {1}"); Ring c(2); c.push_back(Elem(1)); *r = c; null = false; cap = 2; m = { 1 }; }
                else { mc::trace("move-assign ring(3) {1 0}"); Ring c(3); c.push_back(Elem(1)); c.push_back(Elem(0)); *r = std::move(c); null = false; cap = 3; m = { 1, 0 }; }
                if (null)
                {
                    if (r->size() != 0 || !r->empty() || r->capacity() != 0) mc::fail("an empty-handed ring reports size %zu, capacity %zu", (size_t)r->size(), (size_t)r->capacity());
                    if (r->begin() != r->end()) mc::fail("an empty-handed ring is iterable");
                    bool thrown = false;
                    try { r->at(0); } catch (const std::out_of_range&) { thrown = true; }
                    if (!thrown) mc::fail("at(0) does not throw on an empty-handed ring");
                    return;
                }
            }
            else if (op < 4 * K)
            {
                int kind = op / K, v = op % K;
                mc::trace("%s %d", kind == 0 ? "push_back(const&)" : kind == 1 ? "push_back(&&)" : kind == 2 ? "push_front(const&)" : "push_front(&&)", v);
                Elem e(v);
                const Elem& ce = e;
                const long c0 = Elem::copies;
                if (kind == 0) r->push_back(ce); else if (kind == 1) r->push_back(std::move(e)); else if (kind == 2) r->push_front(ce); else r->push_front(std::move(e));
                if (Elem::copies - c0 != (kind % 2 ? 0 : 1)) mc::fail("%ld copies were made by a push", Elem::copies - c0);
                push(kind >= 2, v);
            }
            else switch (int o = op - 4 * K; o)
            {
            case 0: mc::trace("pop_front"); if (!m.empty()) { r->pop_front(); m.pop_front(); } break;
            case 1: mc::trace("pop_back"); if (!m.empty()) { r->pop_back(); m.pop_back(); } break;
            case 2: mc::trace("clear"); r->clear(); m.clear(); break;
            case 3:
            {
                mc::trace("copy, mutate the copy, assign it back to a full ring");
                Ring c(*r);
                observe(c, m, cap);
                if (!(c == *r)) mc::fail("a copy does not compare equal");
                Model m2 = m; int sv = cap;
                std::swap(m, m2);
                c.push_back(Elem(1)); push(false, 1);
                c.push_front(Elem(0)); push(true, 0);
                observe(c, m, sv);
                std::swap(m, m2);
                observe(*r, m, cap);
                if ((c == *r) != (m == m2)) mc::fail("operator== is wrong for %s and %s", show(m).c_str(), show(m2).c_str());
                *r = c;
                m = m2;
                observe(c, m, cap);
                break;
            }
            case 4: { mc::trace("self copy-assignment"); Ring& s = *r; *r = s; break; }
            case 5:
            {
                mc::trace("move-construct away and move-assign back");
                Ring c(std::move(*r));
                observe(c, m, cap);
                *r = std::move(c);
                break;
            }
            case 6:
            {
                mc::trace("move away; the source stays usable");
                Ring c(std::move(*r));
                observe(c, m, cap);
                if (r->size() != 0 || r->begin() != r->end()) mc::fail("a moved-from ring still reports %zu elements", (size_t)r->size());
                null = true; m.clear(); cap = 0;
                break;
            }
            case 7:
            {
                mc::trace("move-assign over from ring(2) {1}");
                Ring c(2); c.push_back(Elem(1));
                *r = std::move(c);
                if (c.size() != 0) mc::fail("a moved-from ring still reports %zu elements", (size_t)c.size());
                m = { 1 }; cap = 2;
                break;
            }
            case 8:
            {
                mc::trace("std::sort and std::reverse through iterators, then write through operator[]");
                std::reverse(r->begin(), r->end());
                std::reverse(m.begin(), m.end());
                if (!m.empty()) { (*r)[m.size() / 2] = Elem(1); m[m.size() / 2] = 1; }
                break;
            }
            case 9:
            {
                if (m.empty()) break;
                mc::trace("push_back(front()) - the argument lives in the ring");
                int v = m.front();
                r->push_back(static_cast<const Elem&>(r->front()));
                push(false, v);
                break;
            }
            case 10:
            {
                if (m.empty()) break;
                mc::trace("push_front(back()) - the argument lives in the ring");
                int v = m.back();
                r->push_front(static_cast<const Elem&>(r->back()));
                push(true, v);
                break;
            }
            case 11:
            case 12:
            {
                mc::trace("%s with a throwing element copy", o == 11 ? "push_back" : "push_front");
                Elem e(1);
                bool thrown = false;
                Elem::throw_at = 0;
                try { if (o == 11) r->push_back(static_cast<const Elem&>(e)); else r->push_front(static_cast<const Elem&>(e)); } catch (const std::runtime_error&) { thrown = true; }
                Elem::throw_at = -1;
                if (!thrown) { push(o == 12, 1); break; }
                // the size must still match the constructed elements, whatever was displaced
                { Model now; for (auto& x : *r) now.push_back(x.v); if (now != m && !(m.size() == (size_t)cap && now.size() + 1 == m.size())) mc::fail("a failed push left the ring broken"); m = now; }
                break;
            }
            default:
            {
                int c = o - 12;
                if (c < 1 || c > CAP) break;
                mc::trace("reserve(%d)", c);
                r->reserve(c);
                cap = c;
                while ((int)m.size() > cap) m.pop_front();
                break;
            }
            }
            if (!null) { observe(*r, m, cap); observe(static_cast<const Ring&>(*r), m, cap); }
            live_check();
            if (mc::heap::count() != (null ? 0u : 1u)) mc::fail("%zu live allocations", mc::heap::count());
        }

        uint64_t canon()
        {
            // Dead slots and stale members have no future: hash the model, the capacity and the position of the
            // first element in the buffer, which is all the live concrete state there is.
            uint64_t h = mc::mix(null, cap);
            for (int v : m) h = mc::mix(h, v + 3);
            h = mc::mix(h, m.size());
            if (!null && !m.empty())
            {
                auto it = mc::heap::live().begin();
                h = mc::mix(h, (uintptr_t)&r->front() - it->first);
                h = mc::mix(h, (uintptr_t)&r->back() - it->first);
            }
            else if (!null) h = mc::mix(h, mc::heap::graph_hash({ { r, sizeof(Ring) } }));
            return h;
        }
    };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    int CAP = th ? 6 : 4, K = 2;
    for (int c = 0; c <= CAP; ++c)
        if (mc::begin_scenario("closure from capacity " + std::to_string(c)))
            mc::bfs([&] { return std::make_unique<Sys>(K, CAP, c); }, 80, 3000000);
    return mc::finish();
}
