// C18: multi-geometry sampler: histories of registrations and draws with scripted samplers and strategies.
#include "dfs.hh"
#include "geo.hh"
#include <frackit/geometry/geometry.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/geometryutilities/assign.hh>
using namespace Frackit; using namespace ref;
using D = Disk<double>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>;
// an entity encodes the registration it was drawn from and the number of the draw (in the coordinates of its center)
static int calls[16]; static int lastCalled;
template<class G> static G make(int tag, int n);
template<> D make<D>(int t, int n) { return D(pt({(R)t, (R)n, 0}), dir({1, 0, 0}), dir({0, 1, 0}), 2.0, 1.0); }
template<> Q make<Q>(int t, int n) { V c{(R)t, (R)n, 0}; return Q(pt(c + V{-1, -1, 0}), pt(c + V{1, -1, 0}), pt(c + V{-1, 1, 0}), pt(c + V{1, 1, 0})); }
template<> Po make<Po>(int t, int n) { V c{(R)t, (R)n, 0}; return Po(std::vector<FP>{pt(c + V{-1, -1, 0}), pt(c + V{1, -1, 0}), pt(c + V{1, 1, 0}), pt(c + V{-1, 1, 0})}); }
template<class G> struct Scripted : GeometrySampler<G> { int tag; Scripted(int t) : tag(t) {} G operator() () override { lastCalled = tag; return make<G>(tag, calls[tag]++); } };
struct Reverse : SamplingStrategy { int cur = -1; Id getNextId() override { if (idList_.empty()) throw std::runtime_error("empty"); if (cur < 0 || cur >= (int)idList_.size()) cur = idList_.size() - 1; return idList_[cur--]; } };
struct Script : SamplingStrategy { std::vector<int> s; std::size_t i = 0; Script(std::vector<int> x) : s(x) {} Id getNextId() override { return Id(s[i++ % s.size()]); } };
using M = MultiGeometrySampler<D, Q, Po>;
static int MODE = 0; // 0 default strategy, 1 sequential passed in, 2 reverse, 3 scripted, 4 set after default construction
struct World
{
    std::shared_ptr<M> m; std::vector<std::pair<int, int>> regs; int nreg = 0; std::string log; // (id, tag)
    int last = -1; std::size_t sizeAtDraw = 0; int draws[16] = {0}; int revCur = -1; std::size_t scr = 0;
    static const std::vector<int>& script() { static const std::vector<int> s{2, 1, 1, 7, 2}; return s; }
    static const std::vector<int>& ids() { static const std::vector<int> i{1, 2, 7, 0}; return i; }
    static int numOps() { return 3 + 3 + 3 + 1 + 1; } // add (type x id 1,2,7), add with id 0, draw
    static std::string describe(const std::string& p) { std::string r; for (char c : p) { int op = vf::Histories<World>::opOf(c); r += op == 10 ? "draw " : op == 9 ? "addDisk(0) " : vf::cat("add", op / 3 == 0 ? "Disk" : op / 3 == 1 ? "Quad" : "Poly", "(", ids()[op % 3], ") "); } return r; }
    World() { reset(); }
    void reset() { switch (MODE) { case 0: m = std::make_shared<M>(); break; case 1: m = std::make_shared<M>(SequentialSamplingStrategy()); break; case 2: m = std::make_shared<M>(Reverse()); break; case 3: m = std::make_shared<M>(Script(script())); break; default: m = std::make_shared<M>(); m->setSamplingStrategy(Reverse()); } }
    //! samplers and strategies are shared between copies of a multi sampler: each history runs on its own object
    World(const World& o) : World() { auto l = o.log; for (char c : l) exec(c - 'a', false); log = l; }
    World(World&& o) = default;
    bool apply(int op) { bool r = exec(op, true); log.push_back(char('a' + op)); return r; }
    bool exec(int op, bool judge)
    {
        auto ck = [&](bool c, const char* w, auto msg) { if (judge) vf::check(c, w, msg); };
        if (op < 10)
        {
            int id = op == 9 ? 0 : ids()[op % 3], type = op == 9 ? 0 : op / 3; bool dup = false, threw = false; for (auto& r : regs) if (r.first == id) dup = true; int tag = nreg++ % 16; calls[tag] = draws[tag] = 0;
            try { if (type == 0) m->addGeometrySampler(Scripted<D>(tag), Id(id)); else if (type == 1) m->addGeometrySampler(Scripted<Q>(tag), Id(id)); else m->addGeometrySampler(Scripted<Po>(tag), Id(id)); } catch (...) { threw = true; }
            ck(threw == dup, "registration", [&] { return dup ? "duplicate id accepted" : "new id rejected"; }); if (!threw && !dup) { regs.push_back({id, tag}); types[tag] = type; } return true;
        }
        // draw: candidates for the expected id
        std::vector<int> cand; const int n = regs.size();
        if (MODE == 3) cand = {script()[scr++ % script().size()]};
        else if (n) { if (MODE == 2 || MODE == 4) { if (revCur < 0 || revCur >= n) revCur = n - 1; cand = {regs[revCur--].first}; } else { int a = last < 0 ? 0 : (last + 1) % n, b = last < 0 ? 0 : (last + 1) % (int)sizeAtDraw; cand = {regs[a].first, regs[b].first}; } }
        bool known = false; for (int c : cand) for (auto& r : regs) if (r.first == c) known = true;
        Id id(99); std::shared_ptr<Geometry> g; bool threw = false; for (auto& r : regs) calls[r.second] = draws[r.second]; lastCalled = -1;
        try { g = (*m)(id); } catch (...) { threw = true; }
        if (!known) { ck(threw, "draw without sampler", [&] { return "no error"; }); return true; }
        if (threw || !g) { ck(false, "draw", [&] { return "exception or null"; }); return true; }
        bool okId = false; for (int c : cand) if ((int)id.get() == c) okId = true; ck(okId, "strategy order", [&] { return vf::cat("id ", id.get(), " instead of ", cand[0]); });
        int pos = -1; for (int i = 0; i < n; ++i) if (regs[i].first == (int)id.get()) pos = i; if (pos < 0) { ck(false, "unknown id", [&] { return vf::cat(id.get()); }); return true; }
        const int tag = regs[pos].second, num = draws[tag]++; last = pos; sizeAtDraw = n;
        static const char* names[3] = {"Disk", "Quadrilateral_3d", "Polygon_3d"}; ck(g->name() == names[types[tag]], "kind", [&] { return g->name(); });
        FP c; D d; Q q; if (types[tag] == 0) { if (auto* x = dynamic_cast<D*>(g.get())) c = x->center(); } else if (types[tag] == 1) { if (auto* x = dynamic_cast<Q*>(g.get())) c = x->center(); } else if (auto* x = dynamic_cast<Po*>(g.get())) c = x->center();
        ck(lastCalled == tag && std::abs(c.x() - tag) < 1e-9 && std::abs(c.y() - num) < 1e-9, "entity of the sampler of that id, drawn once", [&] { return vf::cat("id ", id.get(), " registered as #", tag, ", sampler #", lastCalled, ", entity encodes #", c.x(), " draw ", c.y(), " expected draw ", num); });
        return true;
    }
    int types[16] = {0};
    void observe() { vf::outcome(vf::cat("samplers ", regs.size())); }
    std::string canon() { return log; }
};
int main(int argc, char** argv)
{
    vf::init(argc, argv); vf::caseTimeout = 600;
    for (MODE = 0; MODE < 5; ++MODE) { vf::Histories<World> h{vf::cat("strategy", MODE), vf::thorough ? 6 : 5}; World w; h.run(w); }
    // long draw sequences for every number of samplers and every assignment of kinds
    MODE = 0;
    for (int n = 1; n <= 5; ++n) for (int k = 0, N = int(std::pow(3, n) + 0.5); k < N; ++k) if (vf::begin(vf::cat("cycle", n, "/", k))) vf::guarded("cycle", [&]
    {
        M m; std::vector<int> t; int r = k; for (int i = 0; i < n; ++i, r /= 3) { calls[i] = 0; t.push_back(r % 3); Id id(10 * (n - i)); if (r % 3 == 0) m.addGeometrySampler(Scripted<D>(i), id); else if (r % 3 == 1) m.addGeometrySampler(Scripted<Q>(i), id); else m.addGeometrySampler(Scripted<Po>(i), id); }
        for (int d = 0; d < 4 * n + 1; ++d) { Id id(99); auto g = m(id); vf::step(); vf::check((int)id.get() == 10 * (n - d % n) && lastCalled == d % n && calls[d % n] == d / n + 1, "cyclic order", [&] { return vf::cat("draw ", d, " of ", n, " samplers: id ", id.get(), " sampler #", lastCalled); }); }
    });
    // use through the interface of the single samplers
    if (vf::begin("interface")) { Scripted<D> s(3); GeometrySampler<D>& b = s; calls[3] = 5; auto d = b(); vf::check(std::abs(d.center().x() - 3) < 1e-12 && std::abs(d.center().y() - 5) < 1e-12, "interface", "wrong entity"); }
    return vf::finish();
}
