// C25: networks of disks, quadrilaterals and polygons contained in boxes, cylinders and spheres: measures and conformity.
#include "contref.hh"
#include <frackit/entitynetwork/networkbuilder.hh>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
#include <BRepAlgoAPI_Common.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepCheck_Analyzer.hxx>
#include <TopExp.hxx>
#include <frackit/precision/defaultepsilon.hh>
struct Silence { std::streambuf* o; std::ostringstream s; Silence() : o(std::cout.rdbuf(s.rdbuf())) {} ~Silence() { std::cout.rdbuf(o); } };
static R area(const TopoDS_Shape& s) { R m = 0; for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) { GProp_GProps g; BRepGProp::SurfaceProperties(x.Current(), g, 1e-6); m += g.Mass(); } return m; }
static R volume(const TopoDS_Shape& s) { GProp_GProps g; BRepGProp::VolumeProperties(s, g); return std::abs(g.Mass()); }
static R volRef(const Ent& d) { return d.k == 'B' ? d.a * d.b * d.c : d.k == 'C' ? PI * d.a * d.a * d.c : 4 * PI / 3 * d.a * d.a * d.a; }
static R fullArea(const Ent& e) { return e.k == 'D' ? PI * e.a * e.b : polyArea(e.S.ring); }
struct Item { Ent e; Frame F; };
static void run(const Ent& d, const std::vector<Item>& E, bool conf, const Pose& P, const std::string& key)
{
    if (!vf::begin(key)) return; vf::step(); Frame F0; const int n = E.size(); std::vector<R> in; bool stable = true, split = true; Ent huge{'D', "", 3, 3};
    huge.S = disk2(3, 3); R sect = 0; const V mid = d.k == 'B' ? V{d.a / 2, d.b / 2, d.c / 2} : d.k == 'C' ? V{0, 0, d.c / 2} : V{0, 0, 0};
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!isect2(E[i].e.S, E[i].F, E[j].e.S, E[j].F).judged) { vf::skip(); vf::outcome("near degenerate (not judged)"); return; }
    for (auto& x : E) { R m = containedRef(x.e, x.F, d); in.push_back(m); for (V v : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{-1, 0, 0}, V{0, -1, 0}, V{0, 0, -1}}) { Frame G = x.F; G.t = G.t + v * 1e-4L; if (std::abs(containedRef(x.e, G, d) - m) > 1e-2L * (1 + fullArea(x.e))) stable = false; }
        if (m > 0 && m < 1e-3L * fullArea(x.e)) stable = false; Frame H = x.F; H.t = mid - H.cz * (mid - H.t).dot(H.cz); sect = containedRef(huge, H, d); }
    if (!stable) { vf::skip(); vf::outcome("discontinuous (not judged)"); return; }
    int solids = -1; if (n == 1) { R gap = sect - in[0]; if (in[0] == 0) solids = 1; else if (gap > 1e-2L * sect) solids = 1; else if (gap < 1e-5L * sect && sect > 0.05L) solids = 2; }
    const R s1 = P.s, s2 = s1 * s1, s3 = s2 * s1, tol = 1e-3L; std::vector<std::pair<std::string, std::string>> bad; auto fail = [&](const std::string& w, const std::string& m) { bad.push_back({w, m}); };
    auto sums = [&](const std::string& w, const TopTools_ListOfShape& l, const TopTools_DataMapOfShapeInteger& m, bool confined) {
        std::vector<R> sum(n + 1); for (const auto& s : l) { int i = 0; if (s.ShapeType() != TopAbs_FACE || !m.Find(s, i) || i < 1 || i > n) { fail(w + "fragment", vf::cat("type ", int(s.ShapeType()), " index ", i)); continue; } if (!BRepCheck_Analyzer(s).IsValid()) fail(w + "fragment", "invalid"); sum[i] += area(s); }
        for (int i = 0; i < n; ++i) { R e = (confined ? in[i] : fullArea(E[i].e)) * s2; if (std::abs(sum[i + 1] - e) > tol * (fullArea(E[i].e) * 0.1L + in[i]) * s2) fail(w + "area", vf::cat("entity ", i + 1, ": fragments have area ", double(sum[i + 1]), ", expected ", double(e))); } };
    auto fill = [&](auto& b) { withEnt(d, F0, P, [&](const auto& g) { using G = std::decay_t<decltype(g)>; if constexpr (DimensionalityTraits<G>::geometryDimension() == 3) { if (conf) b.addConfiningSubDomain(g, Id(3)); else b.addSubDomain(g, Id(3)); } }); if (!conf) b.setConfineToSubDomainUnion(false);
        for (auto& x : E) withEnt(x.e, x.F, P, [&](const auto& g) { using G = std::decay_t<decltype(g)>; if constexpr (std::is_same_v<G, Disk<double>> || std::is_same_v<G, Quadrilateral<double, 3>> || std::is_same_v<G, Polygon<double, 3>>) b.addSubDomainEntity(g, Id(3)); }); };
    try
    {
        Silence q; { EntityNetworkBuilder<double> b; fill(b); const auto& net = b.build(); sums("network ", net.entityFragments(), net.entityFragmentsIndexMap(), conf); }
        ContainedEntityNetworkBuilder<double> b; fill(b); const auto& net = b.build(); sums("contained ", net.subDomainEntityFragments(Id(3)), net.subDomainEntityFragmentsIndexMap(Id(3)), conf);
        R v = 0; int c = 0; TopTools_IndexedMapOfShape faces; for (const auto& s : net.subDomainFragments(Id(3))) { if (s.ShapeType() != TopAbs_SOLID || !BRepCheck_Analyzer(s).IsValid()) fail("domain fragment", vf::cat("type ", int(s.ShapeType()), " or invalid")); v += volume(s); ++c; TopExp::MapShapes(s, TopAbs_FACE, faces); }
        if (std::abs(v - volRef(d) * s3) > tol * volRef(d) * s3) fail("domain volume", vf::cat("fragments have volume ", double(v), " of ", double(volRef(d) * s3)));
        if (solids > 0 && c != solids) fail("domain fragments", vf::cat(c, " solids, expected ", solids, " (section ", double(sect), " entity ", double(in[0]), ")"));
        R inside = 0, want = 0; for (R x : in) want += x * s2; for (const auto& s : net.subDomainEntityFragments(Id(3))) if (faces.Contains(s)) inside += area(s);
        if (std::abs(inside - want) > tol * (want + s2 * 0.1L)) fail("embedding", vf::cat("faces of area ", double(inside), " of ", double(want), " bound the domain fragments"));
    }
    catch (const std::exception& e) { fail("exception", e.what()); } catch (...) { fail("exception", "OCC exception"); }
    if (!bad.empty())
    {   bool kernel = false; try { const auto D = kernelShape(d, F0, P); TopTools_ListOfShape all, dom; dom.Append(D); all.Append(D); R eps = defaultEpsilon(D); for (size_t i = 0; i < E.size(); ++i) { TopTools_ListOfShape a; a.Append(kernelShape(E[i].e, E[i].F, P)); all.Append(a.First()); BRepAlgoAPI_Common x; x.SetRunParallel(false); x.SetArguments(a); x.SetTools(dom); x.SetFuzzyValue(double(eps)); x.Build(); if (std::abs(area(x.Shape()) - in[i] * s2) > tol * (fullArea(E[i].e) * 0.1L + in[i]) * s2) kernel = true; }
            BRepAlgoAPI_BuilderAlgo g; g.SetRunParallel(false); g.SetArguments(all); g.SetFuzzyValue(double(eps)); g.Build(); R v = 0; int c = 0; for (TopExp_Explorer x(g.Shape(), TopAbs_SOLID); x.More(); x.Next()) { v += volume(x.Current()); ++c; } if (std::abs(v - volRef(d) * s3) > tol * volRef(d) * s3 || (solids > 0 && c != solids)) kernel = true; } catch (...) { kernel = true; }
        vf::check(false, (kernel ? "kernel " : "") + bad[0].first, bad[0].second); return;
    }
    vf::check(true, "", ""); vf::outcome(vf::cat(d.name, n == 1 ? " one entity, " : " two entities, ", solids > 0 ? vf::cat(solids, " solids") : "solids not counted"));
}
int main(int argc, char** argv)
{
    vf::init(argc, argv); const auto SS = stdShapes(), BS = bigShapes(); const auto L = latticeRotations(), O = obliqueRotations(); Pose I; I.name = "I";
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-1L, 1e2L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<Ent> D{{'B', "box", 2, 1, 3}, {'C', "cyl", 1, 1, 3}, {'S', "ball", 1.5L, 1.5L}}; std::vector<Ent> E; for (auto& s : SS) { E.push_back({s.kind, s.name, s.a, s.b, 0, 0, s}); if (s.kind == 'D') E.back().S = disk2(s.a, s.b); } for (auto& s : BS) { E.push_back({s.kind, s.name, s.a, s.b, 0, 0, s}); if (s.kind == 'D') E.back().S = disk2(s.a, s.b); }
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; std::vector<V> off; for (R x : {-1.3L, 0.1L, 0.4L, 1.0L, 5.0L}) for (R y : {-1.1L, 0.05L, 0.4L}) for (R z : {-1.2L, 0.02L, 0.7L, 2.8L}) off.push_back({x, y, z});
    int cnt = 0; for (auto& d : D) for (auto& e : E) for (auto& q : R0) for (auto& o : off) for (int conf = 0; conf < 2; ++conf) { ++cnt; if (cnt % (vf::thorough ? 3 : 13)) continue; const Pose& P = cnt / 13 % 3 || d.k == 'B' ? I : T[cnt / 13 % T.size()]; run(d, {{e, Frame(q, o)}}, conf, P, vf::cat(d.name, "/", e.name, "/", q.name, "/", str(o), conf ? "/conf" : "", "@", P.name)); }
    for (auto& d : D) for (auto& e : E) for (auto& f : E) for (auto& q : R0) for (auto& r : R0) for (size_t i = 0; i < off.size(); ++i) { if (q.name == r.name) continue; ++cnt; if (cnt % (vf::thorough ? 101 : 1009)) continue; V o = off[i], o2 = off[(i * 7 + cnt / 1009) % off.size()]; run(d, {{e, Frame(q, o)}, {f, Frame(r, o2)}}, cnt / 1009 % 2, I, vf::cat(d.name, "/", e.name, "/", f.name, "/", q.name, "/", r.name, "/", str(o), "/", str(o2))); }
    return vf::finish();
}
