// X03: static chains and factories: every history of registrations and lookups on the real chain.
#include "heap.hpp"
#include "Awl/StaticFactory.h"
#include <memory>
#include <new>
#include <utility>

namespace
{
    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

    struct Item { int id; std::string text; Item(int i, std::string t) : id(i), text(std::move(t)) {} };

    // The chain lives for the whole program; every history starts from a fresh one.
    template <class T> void restart()
    {
        auto& c = awl::static_singleton<awl::StaticChain<T>>();
        using C = std::remove_reference_t<decltype(c)>;
        c.~C(); ::new (static_cast<void*>(&c)) C();
        if (awl::static_chain<T>().begin() != awl::static_chain<T>().end()) mc::fail("a new chain is not empty");
    }

    const std::vector<std::string> names = { "a", "b", "ab", "A", "", "a b" };
    const std::vector<std::string> probes = { "a", "b", "ab", "A", "", "a b", "B", "abc", "a ", "c" };

    void compare(const std::vector<std::unique_ptr<awl::StaticLink<Item>>>& links, const std::vector<std::string>& reg, const std::vector<int>& ids)
    {
        const auto& chain = awl::static_chain<Item>();
        std::set<const awl::StaticLink<Item>*> seen;
        for (const awl::StaticLink<Item>* l : chain)
        {
            if (!seen.insert(l).second || seen.size() > links.size()) mc::fail("a link is visited twice");
            bool known = false;
            for (size_t i = 0; i < links.size(); ++i) if (links[i].get() == l) { known = true; if (l->name() != reg[i] || l->value().id != ids[i] || l->value().text != reg[i] + "!") mc::fail("link %zu has another name or value", i); }
            if (!known) mc::fail("a link nobody registered");
        }
        if (seen.size() != links.size()) mc::fail("%zu links instead of %zu", seen.size(), links.size());
        for (const std::string& p : probes)
        {
            const bool there = std::find(reg.begin(), reg.end(), p) != reg.end();
            auto i = chain.find(p.c_str()); auto j = chain.find(p);
            if ((i != chain.end()) != there || (j != chain.end()) != there) mc::fail("find('%s') is wrong", p.c_str());
            if (there)
            {
                if (i->name() != p || j->name() != p || !seen.count(*i)) mc::fail("find('%s') gives '%s'", p.c_str(), i->name());
                if (std::count(reg.begin(), reg.end(), p) == 1 && i->value().id != ids[std::find(reg.begin(), reg.end(), p) - reg.begin()]) mc::fail("find('%s') gives another link", p.c_str());
            }
        }
    }

    void chains(int depth)
    {
        if (!mc::begin_scenario("chains")) return;
        std::vector<size_t> hist;
        std::function<void()> rec = [&]
        {
            mc::trace_reset();
            restart<Item>();
            std::vector<std::unique_ptr<awl::StaticLink<Item>>> links; std::vector<std::string> reg; std::vector<int> ids;
            compare(links, reg, ids);
            for (size_t k : hist)
            {
                mc::trace("register '%s'", names[k].c_str());
                links.push_back(std::make_unique<awl::StaticLink<Item>>(names[k].c_str(), int(10 + links.size()), names[k] + "!"));
                reg.push_back(names[k]); ids.push_back(10 + int(ids.size()));
                compare(links, reg, ids);
                // A registered value can be changed in place.
                auto i = awl::static_chain<Item>().find(names[k]);
                for (size_t n = 0; n < links.size(); ++n) if (links[n].get() == *i) { i->value().id += 100; ids[n] += 100; }
                compare(links, reg, ids);
                tick("histories");
            }
            restart<Item>();
            if (int(hist.size()) < depth) for (size_t k = 0; k < names.size(); ++k) { hist.push_back(k); rec(); hist.pop_back(); }
        };
        rec();
    }

    // ---------------------------------------------------------------- factories
    int g_calls[4]; std::string g_args;
    struct Moved { int v = 0; int* copies = nullptr; Moved() = default; Moved(int a, int* c) : v(a), copies(c) {} Moved(Moved&& o) noexcept : v(std::exchange(o.v, -1)), copies(o.copies) {} Moved(const Moved& o) : v(o.v), copies(o.copies) { if (copies) ++*copies; } };

    std::string f0(int a, std::string b) { ++g_calls[0]; g_args = std::to_string(a) + b; return "f0"; }
    std::string f1(int a, std::string b) { ++g_calls[1]; g_args = std::to_string(a) + b; return "f1"; }
    std::string f2(int a, std::string b) { ++g_calls[2]; g_args = std::to_string(a) + b; return "f2"; }
    std::string thrower(int, std::string) { ++g_calls[3]; throw std::runtime_error("from the function"); }

    using Func = awl::FactoryFuncPtr<std::string, int, std::string>;
    const Func funcs[] = { &f0, &f1, &f2, &thrower };

    void factories(int depth)
    {
        if (!mc::begin_scenario("factories")) return;
        const std::vector<std::string> fnames = { "a", "b", "ab", "A" };
        std::vector<std::pair<size_t, size_t>> hist;     // name, function
        std::function<void()> rec = [&]
        {
            mc::trace_reset();
            restart<Func>();
            std::vector<std::unique_ptr<awl::StaticLink<Func>>> links;
            for (auto& h : hist) { mc::trace("register '%s' function %zu", fnames[h.first].c_str(), h.second); links.push_back(std::make_unique<awl::StaticLink<Func>>(fnames[h.first].c_str(), funcs[h.second])); }
            for (const std::string& p : probes)
            {
                std::set<size_t> allowed;
                for (auto& h : hist) if (fnames[h.first] == p) allowed.insert(h.second);
                for (auto& c : g_calls) c = 0;
                g_args.clear();
                int outcome = -1; std::string result;
                try { result = awl::create<std::string>(p.c_str(), 7, std::string("x")); outcome = 0; }
                catch (const awl::FactoryException& e) { outcome = 1; if (awl::String(e.What()).find(p) == awl::String::npos) mc::fail("the exception does not name '%s'", p.c_str()); }
                catch (const std::runtime_error& e) { outcome = 2; if (std::string(e.what()) != "from the function") mc::fail("another exception"); }
                const int calls = g_calls[0] + g_calls[1] + g_calls[2] + g_calls[3];
                if (allowed.empty()) { if (outcome != 1 || calls) mc::fail("'%s' is not registered and was created", p.c_str()); }
                else
                {
                    if (calls != 1 || outcome == 1) mc::fail("'%s': %d functions were called", p.c_str(), calls);
                    size_t which = 0; while (!g_calls[which]) ++which;
                    if (!allowed.count(which) || outcome != (which == 3 ? 2 : 0) || (which != 3 && (result != "f" + std::to_string(which) || g_args != "7x"))) mc::fail("'%s' calls function %zu", p.c_str(), which);
                }
                tick("creations");
            }
            restart<Func>();
            if (int(hist.size()) < depth) for (size_t k = 0; k < fnames.size(); ++k) for (size_t f = 0; f < 4; ++f) { hist.push_back({ k, f }); rec(); hist.pop_back(); }
        };
        rec();
    }

    // ---------------------------------------------------------------- the macros
    struct Shape { virtual ~Shape() = default; virtual int sides() const = 0; };
    template <int N> struct Poly : Shape { int sides() const override { return N; } };
    using ShapePtr = std::unique_ptr<Shape>;
    AWL_FACTORY(ShapePtr, Triangle) { return std::make_unique<Poly<3>>(); }
    AWL_FACTORY(ShapePtr, Square) { return std::make_unique<Poly<4>>(); }
    AWL_FACTORY(ShapePtr, Squares) { return std::make_unique<Poly<5>>(); }
    [[maybe_unused]] AWT_DISABLED_FACTORY(ShapePtr, Circle) { return std::make_unique<Poly<0>>(); }
    ShapePtr prism(int n) { if (n == 6) return std::make_unique<Poly<6>>(); return std::make_unique<Poly<7>>(); }
    ShapePtr other(int) { return nullptr; }
    AWL_REGISTER_FACTORY(prism, Prism)
    AWL_REGISTER_FACTORY(other, Nothing)
    int by_reference(int& n, Moved&& m) { n += m.v; const Moved taken(std::move(m)); return taken.v; }
    AWL_REGISTER_FACTORY(by_reference, ByReference)

    void macros()
    {
        if (!mc::begin_scenario("macros")) return;
        auto missing = [](const char* n) { try { (void)awl::create<ShapePtr>(n); return false; } catch (const awl::FactoryException&) { return true; } };
        if (awl::create<ShapePtr>("Triangle")->sides() != 3 || awl::create<ShapePtr>("Square")->sides() != 4 || awl::create<ShapePtr>("Squares")->sides() != 5) mc::fail("the registered shapes");
        for (const char* n : { "Circle", "triangle", "Prism", "", "Squ", "Triangle_FactoryFunc" }) { if (!missing(n)) mc::fail("'%s' was created", n); tick("creations"); }
        if (awl::create<ShapePtr>("Prism", 6)->sides() != 6 || awl::create<ShapePtr>("Prism", 8)->sides() != 7 || awl::create<ShapePtr>("Nothing", 6)) mc::fail("the registered functions with an argument");
        try { (void)awl::create<ShapePtr>("Triangle", 6); mc::fail("a function of another type was found"); } catch (const awl::FactoryException&) {}
        size_t n = 0; for (auto* l : awl::static_chain<awl::FactoryFuncPtr<ShapePtr>>()) { (void)l; ++n; }
        if (n != 3) mc::fail("%zu registered shapes", n);
        using Ref = awl::FactoryFuncPtr<int, int&, Moved&&>;
        auto i = awl::static_chain<Ref>().find("ByReference");
        if (i == awl::static_chain<Ref>().end()) mc::fail("the function with references");
        tick("creations");
        // The results are new at every call.
        auto a = awl::create<ShapePtr>("Square"), b = awl::create<ShapePtr>("Square");
        if (a == b) mc::fail("the same object twice");
    }

    Moved pass(Moved m) { return m; }
    void forwarding()
    {
        if (!mc::begin_scenario("forwarding")) return;
        using F = awl::FactoryFuncPtr<Moved, Moved>;
        restart<F>();
        auto link = std::make_unique<awl::StaticLink<F>>("pass", &pass);
        for (int v = 0; v < 5; ++v) { int copies = 0; const Moved r = awl::create<Moved>("pass", Moved(v, &copies)); if (r.v != v || copies) mc::fail("the argument %d arrives as %d after %d copies", v, r.v, copies); tick("creations"); }
        restart<F>();
        using G = awl::FactoryFuncPtr<int, int&>;
        restart<G>();
        auto link2 = std::make_unique<awl::StaticLink<G>>("inc", [](int& n) { return n++; });
        int n = 5; if (awl::create<int>("inc", n) != 5 || n != 6) mc::fail("an argument by reference");
        restart<G>();
        tick("creations");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    macros();
    forwarding();
    chains(th ? 6 : 4);
    factories(th ? 4 : 3);
    return mc::finish();
}
