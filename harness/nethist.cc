// C24: every history of builder operations; the built network depends only on what is currently set.
#include "net.hh"
#include "dfs.hh"
#include <frackit/geometry/segment.hh>
using namespace net;
struct Silence { std::streambuf* o; std::ostringstream s; Silence() : o(std::cout.rdbuf(s.rdbuf())) {} ~Silence() { std::cout.rdbuf(o); } };
static const Rect E0{2, 1, 0, 3, 0, 3}, E1{0, 1, 0, 3, 0, 3}, E2{1, 1, 0, 2, 1, 3};
static const Box3 B1{{0, 0, 0}, {2, 3, 3}}, B5{{1, 0, 0}, {3, 3, 2}}, B5b{{1, 1, 0}, {3, 3, 3}};
static Pose I;
static const char* NAMES[] = {"add(E0,0)", "add(E1,5)", "confining(B5,5)", "build", "clear", "union(false)", "subdomain(B5b,5)", "add(E2,1)", "confining(B1,1)", "union(true)", "eps", "badEntity", "badDomain"};
enum { ADD0, ADD1, DOM5, BUILD, CLEAR, UOFF, DOM5B, ADD2, DOM1, UON, EPS, BADE, BADD, NOPS };
template<class Builder, bool contained> struct World
{
    std::vector<int> ops; Scene s; static int count; bool dup = false;
    static int numOps() { return count; }
    static std::string describe(const std::string& p) { std::string r; for (char c : p) r += std::string(NAMES[vf::Histories<World>::opOf(c)]) + "; "; return r; }
    bool has(int id) const { for (auto& d : s.doms) if (d.id == id) return true; return false; }
    bool any() const { return !s.nets.empty(); }
    bool apply(int op)
    {
        if (!ops.empty() && op == ops.back() && (op == BUILD || op == CLEAR || op == UOFF || op == UON || op == EPS || op == BADE || op == BADD)) return false; // a repetition without effect (build twice: observe)
        if ((op == BADE && !any()) || (op == BADD && !any() && s.doms.empty())) return false;
        ops.push_back(op);
        switch (op) { case ADD0: s.of(0).rects.push_back(E0); break; case ADD1: s.of(5).rects.push_back(E1); break; case ADD2: s.of(1).rects.push_back(E2); break;
            case DOM5: if (!has(5)) s.doms.push_back({5, B5, true}); break; case DOM5B: if (!has(5)) s.doms.push_back({5, B5b, false}); break; case DOM1: if (!has(1)) s.doms.push_back({1, B1, true}); break;
            case CLEAR: s.doms.clear(); s.nets.clear(); break; case UOFF: s.confineUnion = false; break; case UON: s.confineUnion = true; break; }
        return true;
    }
    static std::string h() { return describe(vf::curKey.substr(vf::curKey.find(':') + 1)); }
    void judge(const std::string& when, const EntityNetwork& n, const Scene& sc) { const auto x = expected(sc, false); const auto r = abstractNet(n, I); auto rep = x.judged ? compareFragments(r, x, false) : std::optional<Report>(); if (!rep) rep = compareIndices(r, x, false, sc.nets.size() == 1); if (!rep) rep = conforming(r, I); say(when, rep); }
    void judge(const std::string& when, const ContainedEntityNetwork& n, const Scene& sc)
    {
        const auto x = expected(sc, true); std::vector<int> ids; for (auto& k : sc.nets) ids.push_back(k.id); const auto r = abstractNet(n, ids, I);
        auto rep = compareDomains(r, x); if (!rep && x.judged) rep = compareFragments(r, x, true); if (!rep) rep = compareIndices(r, x, true, false); if (!rep) rep = conforming(r, I); say(when, rep);
    }
    void say(const std::string& when, const std::optional<Report>& r) { if (r) res.push_back({when + r->what, r->msg}); else ++good; }
    std::vector<Report> res; int good = 0;
    void observe()
    {
        { Silence q; replay(); }
        for (int i = 0; i < good; ++i) vf::check(true, "", ""); for (auto& r : res) vf::check(false, r.what, [&] { return h() + "-> " + r.msg; });
        vf::outcome(vf::cat(contained ? "contained " : "", s.doms.size(), " domains ", s.nets.size(), " networks"));
    }
    void replay()
    {
        res.clear(); good = 0; Builder b; World w; bool built = false; auto bad = [&](const std::string& a, const std::string& m) { res.push_back({a, m}); };
        auto mustThrow = [&](bool e, const std::string& what, auto&& f) { bool t = false; try { f(); } catch (...) { t = true; } if (t != e) bad(what, t ? "throws" : "does not throw"); else ++good; };
        try
        {
            for (int op : ops)
            {
                const bool h5 = w.has(5), h1 = w.has(1); w.apply(op);
                switch (op) {
                    case ADD0: if constexpr (contained) b.addSubDomainEntity(quadOf(E0, I), Id(0)); else b.addEntity(quadOf(E0, I)); break;
                    case ADD1: b.addSubDomainEntity(polyOf(E1, I), Id(5)); break; case ADD2: b.addSubDomainEntities(std::vector<TopoDS_Face>{faceOf(E2, I)}, Id(1)); break;
                    case DOM5: mustThrow(h5, "duplicate sub-domain id", [&] { b.addConfiningSubDomain(boxOf(B5, I), Id(5)); }); break; case DOM5B: mustThrow(h5, "duplicate sub-domain id", [&] { b.addSubDomain(solidOf(B5b, I), Id(5)); }); break;
                    case DOM1: mustThrow(h1, "duplicate sub-domain id", [&] { b.addConfiningSubDomain(boxOf(B1, I), Id(1)); }); break;
                    case BUILD: { const auto& n = b.build(); built = true; judge("intermediate build: ", n, w.s); if (&b.network() != &n) bad("network()", "not the built network"); break; }
                    case CLEAR: b.clear(); built = false; break; case UOFF: b.setConfineToSubDomainUnion(false); break; case UON: b.setConfineToSubDomainUnion(true); break; case EPS: b.setEpsilon(1e-6); break;
                    case BADE: mustThrow(true, "entity of other dimension", [&] { b.addSubDomainEntity(Segment<double, 3>(FP(0., 0., 0.), FP(1., 0., 0.)), Id(5)); }); break;
                    case BADD: mustThrow(true, "sub-domain of other dimension", [&] { b.addSubDomain(quadOf(E0, I), Id(77)); }); break; }
                if (b.isBuilt() != built) bad("isBuilt", vf::cat("isBuilt is ", b.isBuilt())); mustThrow(!built, "network()", [&] { b.network(); });
            }
            judge("", b.build(), s); if (!b.isBuilt()) bad("isBuilt", "false after build");
            if (ops.size() <= 3) judge("second build: ", b.build(), s);
        }
        catch (const Bad& e) { bad("shape", e.what); } catch (const std::exception& e) { bad("exception", e.what()); } catch (...) { bad("exception", "OCC exception"); }
    }
};
template<class B, bool c> int World<B, c>::count = NOPS;
using WE = World<EntityNetworkBuilder<double>, false>; using WC = World<ContainedEntityNetworkBuilder<double>, true>;
//---------------------------------------------------------------- default tolerance: never that of former contents
static Quadrilateral<double, 3> rect2(double x0, double y0, double x1, double y1) { return Quadrilateral<double, 3>(FP(x0, y0, 0.), FP(x1, y0, 0.), FP(x0, y1, 0.), FP(x1, y1, 0.)); }
template<class N> static std::string canon(const N& n) { std::multiset<std::string> r; for (const auto& f : n.entityFragments()) { GProp_GProps g; BRepGProp::SurfaceProperties(f, g); int e = 0; for (TopExp_Explorer x(f, TopAbs_EDGE); x.More(); x.Next()) ++e; r.insert(vf::cat("[", float(g.Mass()), "@", float(g.CentreOfMass().X()), ",", float(g.CentreOfMass().Y()), " ", e, "e #", n.entityFragmentsIndexMap().Find(f), "]")); } std::string s; for (auto& x : r) s += x; TopTools_IndexedMapOfShape E; for (const auto& f : n.entityFragments()) TopExp::MapShapes(f, TopAbs_EDGE, E); return s + vf::cat(E.Extent()); }
struct EpsWorld
{
    std::vector<int> ops; std::vector<int> cur; bool dom = false; int eps = 0;
    static int numOps() { return 7; } static std::string describe(const std::string& p) { static const char* N[] = {"addBig; ", "addSmall; ", "addGap; ", "build; ", "clear; ", "subdomain; ", "eps; "}; std::string r; for (char c : p) r += N[c - 'a']; return r; }
    bool apply(int op) { if (op == 4 && (ops.empty() || ops.back() == 4)) return false; if (op == 3 && (ops.empty() || ops.back() == 3)) return false; if (op == 5 && dom) return false; ops.push_back(op); if (op < 3) cur.push_back(op); if (op == 4) { cur.clear(); dom = false; if (eps) return false; } if (op == 5) dom = true; if (op == 6) eps = 1; return true; }
    static void add(EntityNetworkBuilder<double>& b, int op) { if (op == 0) b.addEntity(rect2(1000, 0, 2000, 1000)); if (op == 1) b.addEntity(rect2(0, 0, 1, 1)); if (op == 2) b.addEntity(rect2(1.00002, 0, 2, 1)); if (op == 5) b.addSubDomain(Box<double>(-1, -1, -1, 3000, 3000, 1), Id(9)); if (op == 6) b.setEpsilon(2e-4); }
    void observe()
    {
        std::string got, exp, err; vf::guarded("tolerance", [&] { Silence q; EntityNetworkBuilder<double> b, f; for (int op : ops) { if (op == 3) b.build(); else if (op == 4) b.clear(); else add(b, op); } got = canon(b.build()); for (int op : cur) add(f, op); if (dom) add(f, 5); if (eps) add(f, 6); exp = canon(f.build()); });
        vf::check(got == exp, "tolerance", [&] { return describe(vf::curKey.substr(vf::curKey.find(':') + 1)) + "-> " + got + " but a fresh builder gives " + exp; }); vf::outcome(vf::cat("tolerance: ", cur.size(), " entities"));
    }
};
int main(int argc, char** argv)
{
    vf::init(argc, argv); I.name = "I";
    { WE::count = NOPS; vf::Histories<WE> h{"net", vf::thorough ? 5 : 4}; h.run(WE()); }
    { WC::count = NOPS; vf::Histories<WC> h{"contained", vf::thorough ? 5 : 4}; h.run(WC()); }
    { WE::count = 6; vf::Histories<WE> h{"netdeep", vf::thorough ? 7 : 5}; h.run(WE()); }
    { WC::count = 6; vf::Histories<WC> h{"containeddeep", vf::thorough ? 7 : 5}; h.run(WC()); }
    { vf::Histories<EpsWorld> h{"eps", vf::thorough ? 6 : 5}; h.run(EpsWorld()); }
    return vf::finish();
}
