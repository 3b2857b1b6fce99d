// S05: every history of modifying, snapshotting, writing and reading back through every kind of serializable wrapper;
// measured lengths and buffered bytes against the direct ones for every type and buffer size.
#include "rwtypes.hpp"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include <sstream>

#ifndef PART
#define PART 0
#endif

namespace
{
    using namespace awl::io;
    using gen::G;
    using Bytes = std::vector<uint8_t>;
    unsigned long long& n_exec() { static auto& n = mc::cnt("executions"); return n; }
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    unsigned long long& n_states() { static auto& n = mc::cnt("states"); return n; }
    int g_no = 0;
    bool mine() { return g_no++ % mc::cfg().shards == mc::cfg().shard; }

    struct FlakyOut : SequentialOutputStream
    {
        Bytes b; int left;
        FlakyOut(int f = -1) : left(f) {}
        void Write(const uint8_t* p, size_t n) override { if (left >= 0 && left-- == 0) throw IoError(_T("no")); b.insert(b.end(), p, p + n); }
    };

    template <class S> using Eu = EuphoricallySerializable<S>;
    template <class S> using He = HeaderedSerializable<S>;

    // A wrapper with snapshots around one object. Histories: all sequences of operations up to the depth.
    template <class S> struct World
    {
        S value {};
        std::unique_ptr<Serializable<>> ser;
        Snapshotable<SequentialOutputStream>* snap = nullptr;
        std::vector<std::pair<Snapshot, int>> shots;        // and the number of the value
        int current = 0;
        const std::vector<Bytes>& expected;                 // stored form of each value
        World(int kind, size_t block, const std::vector<Bytes>& e) : expected(e)
        {
            G<S>::put(value, 0);
            if (kind == 0) { auto p = std::make_unique<Eu<S>>(value, block); snap = p.get(); ser = std::move(p); }
            else { auto p = std::make_unique<He<S>>(Header{ kind == 1 ? "fmt" : "", size_t(kind) }, value, block); snap = p.get(); ser = std::move(p); }
        }
    };

    template <class S> void histories(const char* name, const std::vector<int>& vals, int depth)
    {
        const int nv = vals.size();
        for (int kind = 0; kind < 3; ++kind) for (size_t block : { size_t(9), size_t(10), size_t(24), size_t(4096) }) if (mine())
        {
            mc::begin_scenario(std::string("snapshots ") + name);
            // The direct form of every value, from fresh wrappers.
            std::vector<Bytes> want;
            for (int v : vals)
            {
                World<S> w(kind, block, want);
                G<S>::put(w.value, v);
                FlakyOut o; w.ser->Write(o);
                want.push_back(o.b);
                // Independent of the wrapper: header and tolerant form through a hash stream.
                Bytes h; { VectorOutputStream u(h); HashOutputStream<awl::crypto::Crc64> ho(u, block); if (kind) Write(ho, Header{ kind == 1 ? "fmt" : "", size_t(kind) }, LimitedContext{ 64 }); WriteV(ho, w.value); }
                if (h != o.b) mc::fail("the wrapper does not write the header and the version-tolerant form in blocks");
            }
            // ops: 0..nv-1 set value; nv take a snapshot; nv+1.. write snapshot (last, first); write directly; read back value k; write snapshot that fails and again
            const int ops = nv + 1 + 2 + 1 + nv + 2;
            std::vector<int> h(depth, 0);
            std::function<void(int)> go = [&](int d)
            {
                if (d < depth) { for (int o = 0; o < ops; ++o) { h[d] = o; ++n_states(); go(d + 1); } return; }
                mc::trace_reset();
                mc::g_progress = mc::g_progress + 1;
                World<S> w(kind, block, want);
                mc::trace("%s in %s, blocks of %zu", name, kind ? "HeaderedSerializable" : "EuphoricallySerializable", block);
                ++n_exec();
                for (int i = 0; i < depth; ++i)
                {
                    int o = h[i];
                    ++n_trans();
                    auto text = [&](int k) { S x {}; G<S>::put(x, vals[k]); return G<S>::show(x); };
                    auto write_shot = [&](size_t k, int fail_at)
                    {
                        FlakyOut out(fail_at);
                        bool thrown = false;
                        try { w.snap->WriteSnapshot(out, w.shots[k].first); } catch (const IoError&) { thrown = true; }
                        const Bytes& e = want[w.shots[k].second];
                        const size_t blocks = (e.size() + block - 1) / block;
                        if (thrown != (fail_at >= 0 && fail_at < (int)blocks)) mc::fail(thrown ? "WriteSnapshot failed" : "WriteSnapshot did not report the failure");
                        if (!thrown && out.b != e) mc::fail("the snapshot of value #%d was written as other bytes than the value", w.shots[k].second);
                        if (thrown && (out.b.size() != fail_at * block || !std::equal(out.b.begin(), out.b.end(), e.begin()))) mc::fail("before the failure WriteSnapshot wrote other bytes than the value has");
                    };
                    if (o < nv) { mc::trace("value = #%d %s", o, text(o).c_str()); G<S>::put(w.value, vals[o]); w.current = o; continue; }
                    o -= nv;
                    if (o == 0) { mc::trace("take a snapshot"); w.shots.emplace_back(w.snap->MakeShanshot(), w.current); }
                    else if (o <= 2) { if (w.shots.empty()) continue; const size_t k = o == 1 ? w.shots.size() - 1 : 0; mc::trace("write snapshot %zu", k); write_shot(k, -1); }
                    else if (o == 3) { mc::trace("write directly"); FlakyOut out; w.ser->Write(out); if (out.b != want[w.current]) mc::fail("direct writing of value #%d gave other bytes than before", w.current); }
                    else if (o < 4 + nv) { const int k = o - 4; mc::trace("read value #%d back", k); VectorInputStream in(want[k]); w.ser->Read(in); w.current = k; }
                    else { if (w.shots.empty()) continue; const int f = o - 4 - nv; mc::trace("write the last snapshot, call %d of the stream fails", f); write_shot(w.shots.size() - 1, f); }
                    S x {}; G<S>::put(x, vals[w.current]);
                    if (G<S>::show(x) != G<S>::show(w.value)) mc::fail("the value changed to %s", G<S>::show(w.value).c_str());
                }
                for (size_t k = 0; k < w.shots.size(); ++k)
                {
                    FlakyOut out; w.snap->WriteSnapshot(out, w.shots[k].first);
                    if (out.b != want[w.shots[k].second]) mc::fail("at the end snapshot %zu is not value #%d any more", k, w.shots[k].second);
                }
            };
            go(0);
            mc::sample_trace(2);
        }
    }

    // Every type: measured = written, buffered = direct for every buffer size, snapshots and wrappers of a single object.
    template <class T> constexpr bool is_ring = requires(T& t) { t.push_back(*t.begin()); t.push_front(*t.begin()); t.full(); };
    template <class T> std::string type_name() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); s = s.substr(a + 4); return s.substr(0, s.find(';')).substr(0, 90); }
    template <class T> void each()
    {
        if (!mine()) return;
        const std::string n = type_name<T>();
        mc::begin_scenario("bytes of " + n);
        for (int i = 0; i < G<T>::count(); ++i)
        {
            mc::trace_reset();
            T t = T(); G<T>::put(t, i);
            mc::trace("%s value #%d = %s", n.c_str(), i, G<T>::show(t).c_str());
            ++n_states(); ++n_exec();
            Bytes b; { VectorOutputStream o(b); Write(o, t); }
            MeasureStream m; Write(m, t);
            if (m.GetLength() != b.size()) mc::fail("measured %zu, written %zu", m.GetLength(), b.size());
            { MeasureStream m2; Write(static_cast<SequentialOutputStream&>(m2), t); Write(static_cast<SequentialOutputStream&>(m2), t); if (m2.GetLength() != 2 * b.size()) mc::fail("two objects measured %zu instead of %zu", m2.GetLength(), 2 * b.size()); }
            for (size_t block = 1; block <= b.size() + 2; block = block < 20 ? block + 1 : block * 2) for (int twice = 0; twice < 2; ++twice)
            {
                ++n_trans();
                FlakyOut u;
                { BufferedOutputStream o(u, block); Write(o, t); if (twice) Write(o, t); }
                Bytes want = b; if (twice) want.insert(want.end(), b.begin(), b.end());
                if (u.b != want) mc::fail("through a buffer of %zu other bytes were written", block);
                VectorInputStream in(u.b);
                BufferedInputStream bi(in, block);
                for (int k = 0; k <= twice; ++k)
                {
                    T r = T();
                    if constexpr (is_ring<T>) G<T>::put(r, 0);
                    Read(bi, r);
                    if (G<T>::show(r) != G<T>::show(t)) mc::fail("through a buffer of %zu %s was read", block, G<T>::show(r).c_str());
                }
                if (!bi.End()) mc::fail("the buffered stream is not at its end");
            }
        }
        mc::cnt("types")++;
    }
    template <class S> void each_v()
    {
        if (!mine()) return;
        const std::string n = type_name<S>();
        mc::begin_scenario("snapshot of " + n);
        using V = awl::mp::variant_from_struct<S>;
        for (int i = 0; i < G<S>::count(); ++i)
        {
            mc::trace_reset();
            S t = S(); G<S>::put(t, i);
            mc::trace("%s value #%d = %s", n.c_str(), i, G<S>::show(t).c_str());
            ++n_states(); ++n_exec();
            Bytes b; { VectorOutputStream o(b); WriteV(o, t); }
            auto same = [&](const Bytes& x, const char* how) { ++n_trans(); if (x != b) mc::fail("%s: other bytes than WriteV", how); };
            { MeasureStream m; WriteV(m, t); if (m.GetLength() != b.size()) mc::fail("measured %zu, written %zu", m.GetLength(), b.size()); }
            { Bytes x; VectorOutputStream o(x); Writer<V, SequentialOutputStream> w; w.WriteNewPrototypes(static_cast<SequentialOutputStream&>(o)); w.WriteV(o, t); same(x, "Writer"); }
            { Bytes x; { VectorOutputStream u(x); BufferedOutputStream o(u, 7); WriteV(o, t); } same(x, "buffered"); }
            Eu<S> e(t, 16);
            const Snapshot s = e.MakeShanshot();
            same(s, "snapshot");
            if (s.capacity() < s.size()) mc::fail("snapshot");
            const Header h { "fmt", 2 };
            He<S> he(h, t, 16);
            same(he.MakeShanshot(), "snapshot of an object with a header");
            Bytes direct, via;
            { VectorOutputStream o(direct); e.Write(o); }
            S u = S(); G<S>::put(u, i == 0 ? 1 : 0);
            { VectorOutputStream o(via); e.WriteSnapshot(o, s); }
            if (direct != via) mc::fail("the snapshot was written as other bytes than the object");
            // A snapshot may be written through the wrapper of another object.
            { Eu<S> other(u, 16); Bytes x; VectorOutputStream o(x); other.WriteSnapshot(o, s); if (x != direct) mc::fail("the snapshot depends on the object it is written through"); }
            { Bytes hd, hv; { VectorOutputStream o(hd); he.Write(o); } { VectorOutputStream o(hv); he.WriteSnapshot(o, s); } if (hd != hv) mc::fail("the snapshot was written as other bytes than the object with a header"); }
            { VectorInputStream in(via); Eu<S> r(u, 16); r.Read(in); if (G<S>::show(u) != G<S>::show(t)) mc::fail("the snapshot was read as %s", G<S>::show(u).c_str()); }
        }
        mc::cnt("types")++;
    }
    template <class... Ts> void run(ty::List<Ts...>) { (each<Ts>(), ...); }
    template <class... Ts> void run_v(ty::List<Ts...>) { (each_v<ty::W<Ts>>(), ...); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool deep = mc::cfg().thorough;
    if (deep) gen::g_len = 3;
#if PART == 0
    histories<ty::Point>("Point", { 0, 3 }, deep ? 6 : 4);
    histories<ty::Deep>("Deep", { 0, 5, 40 }, deep ? 4 : 3);
#elif PART == 1
    run(ty::A1{}); run(ty::A2{}); run(ty::B1{}); run(ty::B2{});
#elif PART == 2
    run_v(ty::A1{}); run_v(ty::B1{});
#elif PART == 3
    run_v(ty::C1{});
#elif PART == 4
    run_v(ty::D1{});
#else
    run(ty::C1{}); run(ty::C2{}); run(ty::D1{}); run(ty::P1{});
#endif
    return mc::finish();
}
