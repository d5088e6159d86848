// C22: networks of disks, quadrilaterals and polygons in general position against planar arrangements.
#include "ents.hh"
#include <set>
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepCheck_Analyzer.hxx>
#include <TopExp.hxx>
struct Placed { Shape2 S; Frame F; int kind = 0; };
struct Chord { V a, b; };
//! number of faces the convex shape is split into; -1: too close to degenerate
static int faces(const Placed& e, const std::vector<Chord>& chords)
{
    const R sz = e.S.size(), lo = 1e-9L * sz, hi = 1e-3L * sz; std::vector<V> vs; bool ok = true;
    auto add = [&](const V& p) { for (size_t i = 0; i < vs.size(); ++i) { R d = (vs[i] - p).len(); if (d < lo) return int(i); if (d < hi) ok = false; } vs.push_back(p); return int(vs.size()) - 1; };
    std::vector<std::vector<int>> on(chords.size());
    for (size_t i = 0; i < chords.size(); ++i) { on[i].push_back(add(chords[i].a)); on[i].push_back(add(chords[i].b)); if ((chords[i].a - chords[i].b).len() < hi) ok = false; if (distB2(e.S, e.F, (chords[i].a + chords[i].b) * 0.5L) < hi) ok = false; }
    for (size_t i = 0; i < chords.size(); ++i) for (size_t j = i + 1; j < chords.size(); ++j)
    {
        V p = chords[i].a, r = chords[i].b - p, q = chords[j].a, s = chords[j].b - q, n = e.F.cz; R d = r.cross(s).dot(n);
        if (std::abs(d) < 1e-3L * r.len() * s.len()) { R g = std::abs((q - p).cross(r).dot(n)) / r.len(); if (g < hi) ok = false; continue; }
        R t = (q - p).cross(s).dot(n) / d, u = (q - p).cross(r).dot(n) / d; auto near = [&](R x, R l) { return std::min(std::abs(x), std::abs(1 - x)) * l; };
        if (near(t, r.len()) > lo && near(t, r.len()) < hi && u > -0.01L && u < 1.01L) ok = false; if (near(u, s.len()) > lo && near(u, s.len()) < hi && t > -0.01L && t < 1.01L) ok = false;
        if (t > -1e-9L && t < 1 + 1e-9L && u > -1e-9L && u < 1 + 1e-9L) { int v = add(p + r * t); on[i].push_back(v); on[j].push_back(v); }
    }
    std::set<std::pair<int, int>> E; for (size_t i = 0; i < chords.size(); ++i) { auto& v = on[i]; V d = chords[i].b - chords[i].a; std::sort(v.begin(), v.end(), [&](int a, int b) { return (vs[a] - chords[i].a).dot(d) < (vs[b] - chords[i].a).dot(d); }); v.erase(std::unique(v.begin(), v.end()), v.end()); for (size_t k = 0; k + 1 < v.size(); ++k) E.insert({std::min(v[k], v[k + 1]), std::max(v[k], v[k + 1])}); }
    std::vector<int> par(vs.size() + 1); for (size_t i = 0; i < par.size(); ++i) par[i] = i; std::function<int(int)> root = [&](int i) { return par[i] == i ? i : par[i] = root(par[i]); };
    int nb = 0; for (size_t i = 0; i < vs.size(); ++i) { R d = distB2(e.S, e.F, vs[i]); if (d < lo) { ++nb; par[root(i)] = root(vs.size()); } else if (d < hi) ok = false; }
    for (auto& x : E) par[root(x.first)] = root(x.second); int C = 0; for (size_t i = 0; i < par.size(); ++i) C += root(i) == int(i);
    const int Ecnt = int(E.size()) + (nb ? nb : 1), Vcnt = int(vs.size()) + (nb ? 0 : 1); return ok ? Ecnt - Vcnt + C : -1;
}
template<class B> static void add(B& b, const Placed& e, const Pose& T) { withShape(e.S, e.F, T, {}, [&](const auto& g) { if (e.kind % 2) b.addEntity(OCCUtilities::getShape(g)); else b.addEntity(g); }); }
static R area(const TopoDS_Shape& s) { R m = 0; for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) { GProp_GProps g; BRepGProp::SurfaceProperties(x.Current(), g, 1e-6); m += g.Mass(); } return m; }
static bool onEdge(const TopoDS_Edge& e, const V& p, R tol) { BRepAdaptor_Curve c(e); if (c.GetType() != GeomAbs_Line) return false; auto a = c.Value(c.FirstParameter()), b = c.Value(c.LastParameter()); return distSeg(p, {a.X(), a.Y(), a.Z()}, {b.X(), b.Y(), b.Z()}) < tol; }
static void run(const std::vector<Placed>& E, const Pose& T, const std::string& key)
{
    if (!vf::begin(key)) return; vf::step(); const int n = E.size(); std::vector<std::vector<Chord>> chords(n); std::vector<std::tuple<int, int, Chord>> shared; bool pts = false;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { PRes r = isect2(E[i].S, E[i].F, E[j].S, E[j].F); if (!r.judged) { vf::skip(); vf::outcome("near degenerate (not judged)"); return; } if (r.k == 'p') pts = true; if (r.k == 's') { chords[i].push_back({r.a, r.b}); chords[j].push_back({r.a, r.b}); shared.push_back({i, j, {r.a, r.b}}); } }
    std::vector<int> F; for (int i = 0; i < n; ++i) { F.push_back(faces(E[i], chords[i])); if (F.back() < 0) { vf::skip(); vf::outcome("near degenerate (not judged)"); return; } }
    std::vector<std::pair<std::string, std::string>> bad; auto fail = [&](const std::string& w, const std::string& m) { bad.push_back({w, m}); };
    try
    {
        EntityNetworkBuilder<double> b; for (auto& e : E) add(b, e, T); const auto& net = b.build(); std::vector<std::vector<TopoDS_Face>> fr(n);
        for (const auto& s : net.entityFragments()) { int idx = -1; if (s.ShapeType() != TopAbs_FACE || !net.entityFragmentsIndexMap().Find(s, idx) || idx < 1 || idx > n) { fail("fragment", vf::cat("type ", int(s.ShapeType()), " index ", idx)); continue; } if (!BRepCheck_Analyzer(s).IsValid()) fail("fragment", "invalid"); fr[idx - 1].push_back(TopoDS::Face(s)); }
        for (int i = 0; i < n; ++i)
        {
            const R full = (E[i].S.kind == 'D' ? PI * E[i].S.a * E[i].S.b : polyArea(E[i].S.ring)) * T.s * T.s; R sum = 0; for (auto& f : fr[i]) sum += area(f);
            if (std::abs(sum - full) > 1e-4L * full) fail("area", vf::cat("fragments of entity ", i + 1, " have area ", double(sum), " of ", double(full)));
            if (int(fr[i].size()) != F[i]) fail("count", vf::cat("entity ", i + 1, " has ", fr[i].size(), " fragments, expected ", F[i]));
            for (auto& f : fr[i]) for (TopExp_Explorer x(f, TopAbs_VERTEX); x.More(); x.Next()) { auto p = BRep_Tool::Pnt(TopoDS::Vertex(x.Current())); R d = dist2(E[i].S, E[i].F, T.inv({p.X(), p.Y(), p.Z()})); if (d > 1e-4L * E[i].S.size()) { fail("index", vf::cat("fragment of entity ", i + 1, " has a vertex off the entity by ", double(d))); break; } }
        }
        for (auto& [i, j, c] : shared) for (R t : {0.13L, 0.5L, 0.87L})
        {
            const V p = T.map(c.a + (c.b - c.a) * t); const R tol = 1e-4L * (E[i].S.size() + E[j].S.size()) * T.s; std::vector<TopoDS_Edge> A, B; for (int w = 0; w < 2; ++w) for (auto& f : fr[w ? j : i]) for (TopExp_Explorer x(f, TopAbs_EDGE); x.More(); x.Next()) { auto e = TopoDS::Edge(x.Current()); if (onEdge(e, p, tol)) (w ? B : A).push_back(e); }
            bool same = false; for (auto& a : A) for (auto& b2 : B) same = same || a.IsSame(b2); if (!same) { fail("not conforming", vf::cat("entities ", i + 1, ", ", j + 1, ": ", A.size(), "/", B.size(), " edges on their intersection at ", str(p))); break; }
        }
    }
    catch (const std::exception& e) { fail("exception", e.what()); } catch (...) { fail("exception", "OCC exception"); }
    if (!bad.empty())
    {   // does the kernel's general fuse algorithm, called directly on independently built operands, fail as well?
        bool kernel = false; try { TopTools_ListOfShape l; std::vector<TopoDS_Shape> sh; R eps = 1e300L; for (auto& e : E) { Ent q{e.S.kind, e.S.name, e.S.a, e.S.b, 0, 0, e.S}; sh.push_back(kernelShape(q, e.F, T)); l.Append(sh.back()); eps = std::min(eps, (R)defaultEpsilon(sh.back())); }
            BRepAlgoAPI_BuilderAlgo a; a.SetRunParallel(false); a.SetArguments(l); a.SetFuzzyValue(double(eps)); a.Build(); for (int i = 0; i < n; ++i) { int c = a.Modified(sh[i]).Extent(); R sum = 0; for (const auto& s : a.Modified(sh[i])) sum += area(s); if (c == 0) { c = 1; sum = area(sh[i]); } if (c != F[i] || std::abs(sum - area(sh[i])) > 1e-4L * sum) kernel = true; } } catch (...) { kernel = true; }
        vf::check(false, (kernel ? "kernel " : "") + bad[0].first, bad[0].second); return;
    }
    int tot = 0; for (int f : F) tot += f; vf::check(true, "", ""); vf::outcome(vf::cat(n, " entities ", tot, " fragments", pts ? " (point contact)" : ""));
}
int main(int argc, char** argv)
{
    vf::init(argc, argv); const auto SS = stdShapes(); const auto rots = tiltedRotations(); const auto L = latticeRotations(), O = obliqueRotations(); Frame F0; Pose I; I.name = "I";
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<V> off; for (R x : {-1.5L, -0.5L, 0.0L, 1.0L, 4.0L}) for (R y : {-1.0L, 0.0L, 0.3L}) for (R z : {-0.6L, 0.0L, 1.0L}) off.push_back({x, y, z});
    int cnt = 0; for (auto& a : SS) for (auto& b : SS) for (auto& r : rots) for (auto& o : off) { ++cnt; if (cnt % (vf::thorough ? 1 : 3)) continue; const Pose& P = cnt / 3 % 3 ? I : T[cnt / 3 % T.size()]; run({{a, F0, cnt}, {b, Frame(r, o), cnt / 2}}, P, vf::cat(a.name, "/", b.name, "/", r.name, "/", str(o), "@", P.name)); }
    for (auto& a : SS) for (auto& b : SS) for (auto& c : SS) for (auto& r : rots) for (auto& q : rots) for (size_t i = 0; i < off.size(); i += 2)
    {
        ++cnt; if (cnt % (vf::thorough ? 13 : 61)) continue; V o = off[i], o2 = off[(i * 7 + cnt / 61) % off.size()]; const Pose& P = cnt / 61 % 3 ? I : T[cnt / 61 % T.size()];
        run({{a, F0, cnt}, {b, Frame(r, o), cnt / 2}, {c, Frame(q, o2), cnt / 4}}, P, vf::cat(a.name, "/", b.name, "/", c.name, "/", r.name, "/", q.name, "/", str(o), "/", str(o2), "@", P.name));
    }
    return vf::finish();
}
