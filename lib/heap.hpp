// Tracked operator new: include in exactly one translation unit of a harness.
#pragma once
#include "mc.hpp"

namespace mc::heap
{
    struct Block { size_t size; bool tracked; };
    // Malloc-based containers must not recurse into operator new.
    template <class T> struct MAlloc
    {
        using value_type = T;
        MAlloc() = default;
        template <class U> MAlloc(const MAlloc<U>&) {}
        T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
        void deallocate(T* p, size_t) { free(p); }
        template <class U> bool operator==(const MAlloc<U>&) const { return true; }
        template <class U> bool operator!=(const MAlloc<U>&) const { return false; }
    };
    using Map = std::map<uintptr_t, size_t, std::less<uintptr_t>, MAlloc<std::pair<const uintptr_t, size_t>>>;
    inline Map& live() { static Map* m = new (malloc(sizeof(Map))) Map; return *m; }
    inline int g_on = 0;
    inline long g_fail_at = -1;      // fail the n-th tracked allocation from now (0 = next)
    inline long g_allocs = 0;

    // Clears the stack below, so that padding copied from there is the same in equal histories.
    __attribute__((noinline, no_sanitize("address"))) inline void scrub_stack()
    {
        alignas(8) volatile char b[6144];
        for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t*)(b + i) = 0;
    }
    struct Track   // scope in which allocations are tracked (i.e. belong to the code under test)
    {
        int saved;
        Track() : saved(g_on) { g_on = 1; scrub_stack(); }
        ~Track() { g_on = saved; }
    };
    struct Untrack
    {
        int saved;
        Untrack() : saved(g_on) { g_on = 0; }
        ~Untrack() { g_on = saved; }
    };

    inline size_t count() { return live().size(); }

    // Hash of the memory graph reachable from the given roots, up to renaming of tracked heap blocks.
    inline uint64_t graph_hash(std::initializer_list<std::pair<const void*, size_t>> roots, size_t* unreachable = nullptr)
    {
        Untrack u;
        struct Reg { uintptr_t base; size_t size; };
        std::vector<Reg, MAlloc<Reg>> order;
        std::map<uintptr_t, size_t, std::less<uintptr_t>, MAlloc<std::pair<const uintptr_t, size_t>>> id;
        for (auto& r : roots) { id[(uintptr_t)r.first] = order.size(); order.push_back({ (uintptr_t)r.first, r.second }); }
        const size_t nroots = order.size();
        uint64_t h = 17;
        for (size_t i = 0; i < order.size(); ++i)
        {
            Reg r = order[i];
            h = mix(h, r.size);
            size_t words = r.size / 8;
            for (size_t w = 0; w < words; ++w)
            {
                uint64_t v;
                memcpy(&v, (const void*)(r.base + w * 8), 8);
                uint64_t enc = v;
                if (v > 0x1000)
                {
                    bool done = false;
                    for (size_t k = 0; k < nroots; ++k)
                        if (v >= order[k].base && v < order[k].base + order[k].size) { enc = mix(0xabcdef, mix(k, v - order[k].base)); done = true; break; }
                    if (!done)
                    {
                        auto it = live().upper_bound(v);
                        if (it != live().begin())
                        {
                            --it;
                            if (v >= it->first && v < it->first + it->second + (it->second == 0))
                            {
                                auto f = id.find(it->first);
                                size_t k;
                                if (f == id.end()) { k = order.size(); id[it->first] = k; order.push_back({ it->first, it->second }); }
                                else k = f->second;
                                enc = mix(0xabcdef, mix(k, v - it->first));
                                done = true;
                            }
                        }
                        // A pointer to nothing that lives: left over in padding or in a dead object.
                        if (!done && ((v >= 0x500000000000 && v < 0x530000000000) || (v >= 0x7f0000000000 && v < 0x800000000000))) enc = 0xdeadbeef;
                    }
                }
                h = mix(h, enc);
            }
            if (r.size & 7) h = mix(h, hash_bytes((const void*)(r.base + words * 8), r.size & 7));
        }
        if (unreachable) *unreachable = live().size() - (order.size() - nroots);
        return h;
    }

    inline void* do_alloc(size_t n)
    {
        if (g_on)
        {
            ++g_allocs;
            if (g_fail_at >= 0 && g_fail_at-- == 0) throw std::bad_alloc();
        }
        void* p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        memset(p, 0, n);    // padding must not make equal states differ
        if (g_on) live()[(uintptr_t)p] = n;
        return p;
    }
    inline void do_free(void* p) noexcept
    {
        if (!p) return;
        if (!live().empty()) live().erase((uintptr_t)p);
        free(p);
    }
}

void* operator new(size_t n) { return mc::heap::do_alloc(n); }
void* operator new[](size_t n) { return mc::heap::do_alloc(n); }
void operator delete(void* p) noexcept { mc::heap::do_free(p); }
void operator delete[](void* p) noexcept { mc::heap::do_free(p); }
void operator delete(void* p, size_t) noexcept { mc::heap::do_free(p); }
void operator delete[](void* p, size_t) noexcept { mc::heap::do_free(p); }
