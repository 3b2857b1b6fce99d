// Systems whose operations depend on the state: step(Menu&) lists them in a fixed order and performs the selected one.
#pragma once
#include "mc.hpp"

namespace mc
{
    struct Menu
    {
        int target = -1;    // -1: only count
        int k = 0;
        bool taken = false;
        // True for the selected operation; the caller performs it and returns.
        bool operator()(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
        {
            if (taken) return false;
            if (k++ != target) return false;
            taken = true;
            char b[256];
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(b, sizeof b, fmt, ap);
            va_end(ap);
            trace("%s", b);
            return true;
        }
    };

    // Derived: void step(Menu&); void check() - compares everything observable with the model.
    template <class Derived>
    struct MenuSys
    {
        int ops() { Menu m; static_cast<Derived*>(this)->step(m); return m.k; }
        // The last n operations: added to a canonical form that is made of the model alone, it keeps states apart
        // whose hidden parts may differ because of what was done just before.
        int last_ops[8] = { -1, -1, -1, -1, -1, -1, -1, -1 };
        uint64_t recent(int n) const { uint64_t h = 1; for (int i = 0; i < n; ++i) h = mix(h, last_ops[i] + 2); return h; }
        void apply(int op)
        {
            for (int i = 7; i > 0; --i) last_ops[i] = last_ops[i - 1];
            last_ops[0] = op;
            Menu m;
            m.target = op;
            static_cast<Derived*>(this)->step(m);
            if (!m.taken) fail("internal: operation %d does not exist", op);
            if (!g_replaying) static_cast<Derived*>(this)->check();
        }
    };
}
