// C19: multi-geometry entity sets: all histories of typed / type-erased insertions.
#include "dfs.hh"
#include "geo.hh"
#include <map>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
using namespace Frackit; using namespace ref;
using D = Disk<double>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>;
static D mkD(int n) { return D(pt({(R)n, 0.5L, 0}), dir({1, 0, 0}), dir({0, 1, 0}), 2.0, 1.0); }
static Q mkQ(int n) { V c{(R)n, 0.5L, 0}; return Q(pt(c + V{-1, -1, 0}), pt(c + V{1, -1, 0}), pt(c + V{-1, 1, 0}), pt(c + V{1, 1, 0})); }
static Po mkP(int n) { V c{(R)n, 0.5L, 0}; return Po(std::vector<FP>{pt(c + V{-1, -1, 0}), pt(c + V{1, -1, 0}), pt(c + V{1, 1, 0}), pt(c + V{-1, 1, 0})}); }
template<class G> static int kindOf() { return std::is_same_v<G, D> ? 0 : std::is_same_v<G, Q> ? 1 : 2; }
template<class G> static int num(const G& g) { return (int)std::lround(g.center().x()); }
using Rec = std::vector<std::pair<int, int>>; // (kind, number)
//! records what is exported, whichever of the builders' insertion functions is used
struct MockBuilder
{
    std::map<long, Rec> got; // -1: without sub-domain
    template<class G> void addEntity(const G& g) { got[-1].push_back({kindOf<G>(), num(g)}); }
    template<class G> void addEntities(const std::vector<G>& v) { for (auto& g : v) addEntity(g); }
    template<class G> void addSubDomainEntity(const G& g, const Id& id) { got[id.get()].push_back({kindOf<G>(), num(g)}); }
    template<class G> void addSubDomainEntities(const std::vector<G>& v, const Id& id) { for (auto& g : v) addSubDomainEntity(g, id); }
};
static bool POLY = false;
template<class S> struct WorldT
{
    S s; std::map<int, Rec> model; int n = 0;
    static const std::vector<int>& ids() { static const std::vector<int> i{1, 2, 5}; return i; }
    static int numOps() { return POLY ? 12 : 13; } // kind x id (typed), D/Q x id (erased)
    static std::string describe(const std::string& p) { std::string r; for (char c : p) { int op = vf::Histories<WorldT>::opOf(c); r += op == 12 ? "copy " : vf::cat(op >= 6 ? POLY ? "poly" : "erased" : "", (POLY && op >= 6) ? "" : op / 3 % 2 ? "Q" : "D", ids()[op % 3], " "); } return r; }
    bool apply(int op)
    {
        if (op == 12) { S t(s); S u; u.addEntity(mkD(77), Id(1)); u = t; t.addEntity(mkQ(78), Id(33)); s = u; return true; }
        const int id = ids()[op % 3], x = ++n; int kind = op / 3 % 2; bool erased = op >= 6;
        if constexpr (std::is_same_v<S, MultiGeometryEntitySet<D, Q, Po>>) if (op >= 6) { if (op >= 9) return false; kind = 2; erased = false; }
        bool mism = !model[id].empty() && model[id][0].first != kind, threw = false; if (model[id].empty()) mism = false;
        try { if (erased) { std::shared_ptr<Geometry> p; if (kind == 0) p = std::make_shared<D>(mkD(x)); else p = std::make_shared<Q>(mkQ(x)); if constexpr (!std::is_same_v<S, MultiGeometryEntitySet<D, Q, Po>>) s.addEntity(p, Id(id)); }
              else if (kind == 0) s.addEntity(mkD(x), Id(id)); else if (kind == 1) s.addEntity(mkQ(x), Id(id)); else if constexpr (std::is_same_v<S, MultiGeometryEntitySet<D, Q, Po>>) s.addEntity(mkP(x), Id(id)); } catch (const std::exception&) { threw = true; }
        vf::check(threw == mism, "insertion", [&] { return mism ? "entity of another type accepted for the id" : "insertion failed"; });
        if (!mism && !threw) model[id].push_back({kind, x}); if (model[id].empty()) model.erase(id); return true;
    }
    static std::string str(const Rec& r) { std::string o; for (auto& [k, x] : r) o += vf::cat("DQP"[k], x, " "); return o; }
    void observe()
    {
        const S& c = s; std::size_t total = 0;
        for (int id : {1, 2, 5, 9}) { auto it = model.find(id); Rec e = it == model.end() ? Rec{} : it->second; total += e.size(); vf::check(c.numEntities(Id(id)) == e.size(), "numEntities(id)", [&] { return vf::cat("id ", id, ": ", c.numEntities(Id(id)), " instead of ", e.size()); });
            Rec g; int applied = 0; bool r = c.applyOnSet(Id(id), [&](const auto& v) { ++applied; for (auto& x : v) g.push_back({kindOf<std::decay_t<decltype(x)>>(), num(x)}); }); vf::check(r == !e.empty() && applied == (e.empty() ? 0 : 1) && g == e, "applyOnSet", [&] { return vf::cat("id ", id, ": ", str(g), "instead of ", str(e), "(applied ", applied, ")"); }); }
        vf::check(c.numEntities() == total, "numEntities()", [&] { return vf::cat(c.numEntities(), " instead of ", total); });
        // export: each entity exactly once with its type; order within an id is kept
        auto same = [](Rec a, Rec b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; };
        auto ordered = [&](const Rec& g) { for (auto& [id, e] : model) { std::size_t k = 0; for (auto& x : g) if (k < e.size() && x == e[k]) ++k; bool in = false; for (auto& x : g) if (x == e[0]) in = true; if (in && k != e.size()) return false; } return true; };
        Rec all; for (auto& [id, e] : model) all.insert(all.end(), e.begin(), e.end());
        { MockBuilder b; c.exportEntitySets(b); vf::check(same(b.got[-1], all) && b.got.size() == 1 && ordered(b.got[-1]), "export", [&] { return str(b.got[-1]); }); }
        { MockBuilder b; c.exportEntitySets(b, Id(3)); vf::check(same(b.got[3], all) && b.got.size() == 1 && ordered(b.got[3]), "export to sub-domain", [&] { return str(b.got[3]); }); }
        for (int m = 0; m < 8; ++m) { MockBuilder b; Id i0(m & 1 ? 1 : 100), i1(m & 2 ? 2 : 101), i2(m & 4 ? 5 : 102); c.exportEntitySets({i0, i1, i2}, b, Id(4)); Rec e; for (auto& [id, r] : model) if ((id == 1 && m & 1) || (id == 2 && m & 2) || (id == 5 && m & 4)) e.insert(e.end(), r.begin(), r.end()); b.got[4]; vf::check(same(b.got[4], e) && b.got.size() == 1 && ordered(b.got[4]), "export of selected ids", [&] { return vf::cat("ids mask ", m, ": ", str(b.got[4]), "instead of ", str(e)); }); }
        vf::outcome(vf::cat("sets ", model.size()));
    }
    std::string canon() { std::string r; for (auto& [i, v] : model) r += vf::cat(i, ":", str(v)); return r; }
};
int main(int argc, char** argv)
{
    vf::init(argc, argv); vf::caseTimeout = 600;
    { using W = WorldT<MultiGeometryEntitySet<D, Q>>; vf::Histories<W> h{"disk-quad", vf::thorough ? 6 : 5}; h.run(W()); }
    { using W = WorldT<MultiGeometryEntitySet<Q, D>>; vf::Histories<W> h{"quad-disk", vf::thorough ? 6 : 5}; h.run(W()); }
    POLY = true; { using W = WorldT<MultiGeometryEntitySet<D, Q, Po>>; vf::Histories<W> h{"three", vf::thorough ? 6 : 5}; h.run(W()); }
    return vf::finish();
}
