// C27: set operations on shapes against set algebra on the cells of an integer lattice (solids = unit cubes, faces = unit
// squares, edges = unit segments), plus inclusion-exclusion with curved solids.
#include "net.hh"
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <BRepTools.hxx>
#include <BRepAlgoAPI_Cut.hxx>
#include <BRepAlgoAPI_Common.hxx>
#include <BRepAlgoAPI_Fuse.hxx>
using namespace net;
using Segs = std::set<Edge>;
struct Seg3 { int d, x, y, z, n; };
struct Obj { int dim; std::string name; Cubes c; Cells f; Segs e; Box3 b{}; Rect r{}; Seg3 s{}; };
static Obj obj(const Box3& b) { Obj o{3, name(b)}; o.c = cubes(b); o.b = b; return o; }
static Obj obj(const Rect& r) { Obj o{2, name(r)}; o.f = cells(r); o.r = r; return o; }
static Obj obj(const Seg3& s) { Obj o{1, vf::cat("seg", "xyz"[s.d], s.x, s.y, s.z, "+", s.n)}; o.s = s; for (int i = 0; i < s.n; ++i) { Edge e{s.d, s.x, s.y, s.z}; e[1 + s.d] += i; o.e.insert(e); } return o; }
static TopoDS_Shape make(const Obj& o, const Pose& P)
{
    if (o.dim == 3) return solidOf(o.b, P); if (o.dim == 2) return faceOf(o.r, P);
    V a{(R)o.s.x, (R)o.s.y, (R)o.s.z}, b = a; (o.s.d == 0 ? b.x : o.s.d == 1 ? b.y : b.z) += o.s.n; return OCCUtilities::makeEdge(pt(P.map(a)), pt(P.map(b)));
}
//! closure of an object: unit cells of dimension dim in it
static bool inClosure(const Obj& o, const Sq& q) { if (o.dim == 3) { auto s = sides(q); return o.c.count(s[0]) || o.c.count(s[1]); } return o.dim == 2 && o.f.count(q); }
static bool inClosureE(const Obj& o, const Edge& e)
{
    if (o.dim == 1) return o.e.count(e); const int d = e[0], du = (d + 1) % 3, dv = (d + 2) % 3; 
    if (o.dim == 2) { for (auto& q : o.f) for (auto& g : edges(q)) if (g == e) return true; return false; }
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { Cube c{e[1], e[2], e[3]}; c[du] -= i; c[dv] -= j; if (o.c.count(c)) return true; } return false;
}
struct Cell { int dim; Cubes c; Cells f; Segs e; bool operator==(const Cell& o) const { return c == o.c && f == o.f && e == o.e; } };
static size_t total(const Cell& c) { return c.c.size() + c.f.size() + c.e.size(); }
template<class T> static void addAll(std::set<T>& a, const std::set<T>& b) { for (auto& x : b) if (!a.insert(x).second) throw Bad{"parts of the result overlap"}; }
//! cells of a result that should consist of shapes of one dimension
static Cell cellsOfResult(const TopoDS_Shape& s, int dim, const Pose& P)
{
    Cell r{dim}; if (s.IsNull()) return r; if (!BRepCheck_Analyzer(s).IsValid()) throw Bad{"invalid result"};
    TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, dim == 3 ? TopAbs_SOLID : dim == 2 ? TopAbs_FACE : TopAbs_EDGE, m);
    if (dim < 3 && TopExp_Explorer(s, TopAbs_SOLID).More()) throw Bad{"unexpected solid"}; if (dim < 2 && TopExp_Explorer(s, TopAbs_FACE).More()) throw Bad{"unexpected face"};
    for (int i = 1; i <= m.Extent(); ++i) if (dim == 3) addAll(r.c, cubesOf(TopoDS::Solid(m(i)), P)); else if (dim == 2) addAll(r.f, cellsOf(TopoDS::Face(m(i)), P)); else { for (auto& q : realEdges(m(i), P)) { Segs t; int d = q.dir(); int lo = std::min(q.a[d], q.b[d]), hi = std::max(q.a[d], q.b[d]); for (int k = lo; k < hi; ++k) { Edge g{d, q.a[0], q.a[1], q.a[2]}; g[1 + d] = k; t.insert(g); } addAll(r.e, t); } }
    // nothing but sub-shapes of the shapes of this dimension
    if (dim == 3 && TopExp_Explorer(s, TopAbs_FACE, TopAbs_SOLID).More()) throw Bad{"stray face in the result"}; if (TopExp_Explorer(s, TopAbs_EDGE, dim == 1 ? TopAbs_WIRE : TopAbs_FACE).More() && dim > 1) throw Bad{"stray edge in the result"};
    return r;
}
static std::string show(const Cell& c) { return vf::cat(c.c.size(), " cubes ", c.f.size(), " squares ", c.e.size(), " segments"); }
static bool same(const Cell& a, const Cell& b) { return a.c == b.c && a.f == b.f && a.e == b.e; }
static Cell cellsOf(const Obj& o) { return Cell{o.dim, o.c, o.f, o.e}; }
static Cell common(const Obj& a, const Obj& b)
{
    const Obj &l = a.dim <= b.dim ? a : b, &h = a.dim <= b.dim ? b : a; Cell r{l.dim}; if (l.dim == 3) { for (auto& c : l.c) if (h.c.count(c)) r.c.insert(c); } else if (l.dim == 2) { for (auto& q : l.f) if (inClosure(h, q)) r.f.insert(q); } else for (auto& e : l.e) if (inClosureE(h, e)) r.e.insert(e); return r;
}
static Cell minus(const Obj& a, const Obj& b) { Cell r{a.dim}; for (auto& c : a.c) if (!b.c.count(c)) r.c.insert(c); for (auto& q : a.f) if (!inClosure(b, q)) r.f.insert(q); for (auto& e : a.e) if (!inClosureE(b, e)) r.e.insert(e); return r; }
static Cell join(const std::vector<Obj>& v) { Cell r{v[0].dim}; for (auto& o : v) { r.c.insert(o.c.begin(), o.c.end()); r.f.insert(o.f.begin(), o.f.end()); r.e.insert(o.e.begin(), o.e.end()); } return r; }
template<class F> void op(const std::string& what, F&& f)
{
    vf::step(); std::string err; bool ok = false; try { f(); ok = true; } catch (const Bad& e) { err = e.what; } catch (const std::exception& e) { err = std::string("exception: ") + e.what(); } catch (...) { err = "OCC exception"; } vf::check(ok, what, err);
}
static void expect(const TopoDS_Shape& s, const Cell& x, const Pose& P) { Cell g = cellsOfResult(s, x.dim, P); if (!same(g, x)) throw Bad{vf::cat("result has ", show(g), ", expected ", show(x))}; }
static std::string fingerprint(const TopoDS_Shape& s) { std::string r; for (int t = TopAbs_COMPOUND; t < TopAbs_SHAPE; ++t) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, TopAbs_ShapeEnum(t), m); r += vf::cat(m.Extent(), ","); if (t == TopAbs_VERTEX) for (int i = 1; i <= m.Extent(); ++i) { auto p = BRep_Tool::Pnt(TopoDS::Vertex(m(i))); r += vf::cat(p.X(), " ", p.Y(), " ", p.Z(), ";"); } } return r + vf::cat(int(s.Orientation())); }
template<class L> static bool complete(const std::vector<L>& v, const TopoDS_Shape& s, TopAbs_ShapeEnum t)
{ TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, t, m); TopTools_IndexedMapOfShape g; for (auto& x : v) { if (x.IsNull() || x.ShapeType() != t || !m.Contains(x)) return false; g.Add(x); } return g.Extent() == m.Extent(); }
static void extraction(const TopoDS_Shape& s)
{
    op("extraction of sub-shapes", [&] { if (s.IsNull()) return; if (!complete(OCCUtilities::getVertices(s), s, TopAbs_VERTEX)) throw Bad{"vertices"}; if (!complete(OCCUtilities::getEdges(s), s, TopAbs_EDGE)) throw Bad{"edges"}; if (!complete(OCCUtilities::getWires(s), s, TopAbs_WIRE)) throw Bad{"wires"}; if (!complete(OCCUtilities::getFaces(s), s, TopAbs_FACE)) throw Bad{"faces"}; if (!complete(OCCUtilities::getShells(s), s, TopAbs_SHELL)) throw Bad{"shells"}; if (!complete(OCCUtilities::getSolids(s), s, TopAbs_SOLID)) throw Bad{"solids"}; });
}
static void fragments(const std::vector<Obj>& O, const TopoDS_Shape& s, const Pose& P)
{
    if (!BRepCheck_Analyzer(s).IsValid()) throw Bad{"invalid result"};
    Cells walls; std::vector<Cells> F; Cubes all; for (auto& o : O) { if (o.dim == 3) { auto b = boundary(o.c); walls.insert(b.begin(), b.end()); F.push_back(b); all.insert(o.c.begin(), o.c.end()); } else if (o.dim == 2) { walls.insert(o.f.begin(), o.f.end()); F.push_back(o.f); } }
    std::multiset<Cubes> want, got; for (auto& c : components(all, walls)) want.insert(c); TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, TopAbs_SOLID, m); for (int i = 1; i <= m.Extent(); ++i) got.insert(cubesOf(TopoDS::Solid(m(i)), P)); if (want != got) throw Bad{vf::cat(got.size(), " solids, expected ", want.size())};
    std::set<Cells> fw; std::vector<Cells> parts; for (size_t i = 0; i < O.size(); ++i) if (O[i].dim == 2) { std::vector<Tool> T; for (size_t j = 0; j < O.size(); ++j) if (j != i && O[j].dim > 1) T.emplace_back(O[j].dim == 3 ? boundary(O[j].c) : O[j].f); for (auto& c : components(O[i].f, T)) fw.insert(c); }
    TopTools_IndexedMapOfShape f; TopExp::MapShapes(s, TopAbs_FACE, f); Cells seen; std::set<Cells> fg; for (int i = 1; i <= f.Extent(); ++i) { auto c = cellsOf(TopoDS::Face(f(i)), P); addAll(seen, c); fg.insert(c); }
    bool curves = false; for (auto& o : O) curves = curves || o.dim == 1; if (!curves) { for (auto& c : fw) if (!fg.count(c)) throw Bad{vf::cat("no face ", net::show(c))}; }
    if (seen != walls) throw Bad{vf::cat("faces cover ", seen.size(), " squares, expected ", walls.size())};
    Segs E, ew; for (auto& o : O) if (o.dim == 1) ew.insert(o.e.begin(), o.e.end()); for (auto& q : edgesOf(walls)) (void)q; TopTools_IndexedMapOfShape em; TopExp::MapShapes(s, TopAbs_EDGE, em);
    std::vector<RealEdge> re; for (int i = 1; i <= em.Extent(); ++i) for (auto& q : realEdges(em(i), P)) re.push_back(q);
    for (auto& g : ew) { int n = 0; for (auto& q : re) n += q.covers(g); if (n != 1) throw Bad{vf::cat("segment is covered by ", n, " edges")}; }
    // overlap edges of all pairs of faces
    for (int i = 1; i <= f.Extent(); ++i) for (int j = i + 1; j <= f.Extent(); ++j)
    {
        const auto A = cellsOf(TopoDS::Face(f(i)), P), B = cellsOf(TopoDS::Face(f(j)), P); auto ov = OCCUtilities::getOverlapEdges(TopoDS::Face(f(i)), TopoDS::Face(f(j))); TopTools_IndexedMapOfShape a, b, o; TopExp::MapShapes(f(i), TopAbs_EDGE, a); TopExp::MapShapes(f(j), TopAbs_EDGE, b);
        for (auto& e : ov) { if (!a.Contains(e) || !b.Contains(e)) throw Bad{"overlap edge is not an edge of both faces"}; o.Add(e); }
        Segs sa = edgesOf(A), sb = edgesOf(B), x; for (auto& g : sa) if (sb.count(g)) { bool onA = false, onB = false; for (auto& q : realEdges(f(i), P)) onA = onA || q.covers(g); for (auto& q : realEdges(f(j), P)) onB = onB || q.covers(g); if (onA && onB) x.insert(g); }
        Segs y; for (int k = 1; k <= o.Extent(); ++k) for (auto& q : realEdges(o(k), P)) for (auto& g : x) if (q.covers(g)) y.insert(g); if (x != y) throw Bad{vf::cat("overlap edges cover ", y.size(), " of ", x.size(), " common segments")};
    }
}
static R volume(const TopoDS_Shape& s) { R v = 0; TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, TopAbs_SOLID, m); for (int i = 1; i <= m.Extent(); ++i) { GProp_GProps g; BRepGProp::VolumeProperties(m(i), g, 1e-8); v += std::abs(g.Mass()); } return v; }
int main(int argc, char** argv)
{
    vf::init(argc, argv); int cnt = 0; using namespace OCCUtilities;
    Pose I; I.name = "I"; auto L = latticeRotations(); auto O = obliqueRotations(); std::vector<Pose> T{I}; { auto q = combine({L[5], L[9], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<Obj> S, F, E; const Box3 A{{0, 0, 0}, {2, 2, 2}};
    for (int x0 = -1; x0 < 3; ++x0) for (int x1 = x0 + 1; x1 <= 3; ++x1) for (int y0 = -1; y0 < 3; ++y0) for (int y1 = y0 + 1; y1 <= 3; ++y1) for (int z0 = 0; z0 < 2; ++z0) for (int z1 = z0 + 1; z1 <= 2; ++z1) S.push_back(obj(Box3{{x0, y0, z0}, {x1, y1, z1}}));
    for (int a = 0; a < 3; ++a) for (int c = -1; c <= 3; ++c) for (int u0 = -1; u0 < 3; ++u0) for (int u1 = u0 + 1; u1 <= 3; ++u1) for (int v0 = 0; v0 < 2; ++v0) for (int v1 = v0 + 1; v1 <= 2; ++v1) F.push_back(obj(Rect{a, c, u0, u1, v0, v1}));
    for (int d = 0; d < 3; ++d) for (int l = -1; l < 3; ++l) for (int n = 1; n <= 4 && l + n <= 3; ++n) for (int u = -1; u <= 2; ++u) for (int v = 0; v <= 2; ++v) { auto p = at(d, l, u, v); E.push_back(obj(Seg3{d, p[0], p[1], p[2], n})); }
    const std::vector<Obj> first{obj(A), obj(Box3{{0, 0, 0}, {3, 1, 2}}), obj(Rect{2, 1, 0, 2, 0, 2}), obj(Rect{0, 1, 0, 3, 0, 1}), obj(Seg3{0, 0, 1, 1, 2}), obj(Seg3{2, 1, 1, 0, 3})};
    auto pair = [&](const Obj& a, const Obj& b, const Pose& P, const std::string& key) {
        if (!vf::begin(key)) return; const TopoDS_Shape x = make(a, P), y = make(b, P); const std::string fx = fingerprint(x), fy = fingerprint(y); const Cell c = common(a, b);
        for (double eps : {1e-7, 1e-5}) { const double e = eps * double(P.s);
            op("intersect", [&] { expect(intersect(x, y, e), c, P); }); op("intersect swapped", [&] { expect(intersect(y, x, e), c, P); });
            if (a.dim <= b.dim) op("cut", [&] { auto s = cut(x, y, e); expect(s, minus(a, b), P); if (eps == 1e-7) extraction(s); });
            if (b.dim <= a.dim) op("cut swapped", [&] { expect(cut(y, x, e), minus(b, a), P); });
            if (a.dim == b.dim) { op("fuse", [&] { auto s = fuse(std::vector<TopoDS_Shape>{x, y}, e); expect(s, join({a, b}), P); if (eps == 1e-7) extraction(s); }); op("fuse swapped", [&] { expect(fuse(std::vector<TopoDS_Shape>{y, x}, e), join({a, b}), P); }); }
            op("fragment", [&] { auto s = fragment(std::vector<TopoDS_Shape>{x, y}, e); fragments({a, b}, s, P); if (eps == 1e-7) extraction(s); }); op("fragment swapped", [&] { fragments({b, a}, fragment(std::vector<TopoDS_Shape>{y, x}, e), P); });
        }
        vf::check(fingerprint(x) == fx && fingerprint(y) == fy, "operands are modified", "vertices of an operand changed");
        vf::outcome(vf::cat(a.dim, "d/", b.dim, "d common ", total(c) ? (same(c, cellsOf(a)) || same(c, cellsOf(b)) ? "whole operand" : "part") : "empty"));
    };
    for (size_t i = 0; i < first.size(); ++i) for (auto* V_ : {&S, &F, &E}) for (auto& b : *V_)
    {
        ++cnt; const int stride = vf::thorough ? 1 : V_ == &S ? 2 : V_ == &F ? 3 : 3; if (cnt % stride) continue;
        pair(first[i], b, I, vf::cat(first[i].name, "/", b.name)); if (cnt % (vf::thorough ? 5 : 60) == 0) { const Pose& P = T[cnt / 5 % T.size()]; pair(first[i], b, P, vf::cat(first[i].name, "/", b.name, "@", P.name)); }
    }
    // several operands, all orders; chains of operations
    std::vector<std::vector<Obj>> fam{{obj(A), obj(Box3{{1, 1, 0}, {3, 3, 2}}), obj(Box3{{2, 0, 0}, {3, 1, 2}}), obj(Box3{{0, 0, 0}, {1, 1, 1}}), obj(Box3{{-1, 0, 1}, {3, 2, 2}})}, {obj(Rect{2, 1, 0, 2, 0, 2}), obj(Rect{2, 1, 1, 3, 0, 2}), obj(Rect{0, 1, 0, 2, 0, 2}), obj(Rect{1, 1, 0, 2, 1, 3}), obj(Rect{2, 1, 2, 3, -1, 2})}, {obj(A), obj(Rect{2, 1, 0, 2, 0, 2}), obj(Rect{2, 2, 1, 3, 0, 2}), obj(Box3{{1, 1, 0}, {3, 3, 2}}), obj(Rect{0, 1, -1, 3, 0, 2})}, {obj(Seg3{0, 0, 1, 1, 2}), obj(Seg3{0, 1, 1, 1, 2}), obj(Seg3{1, 1, 0, 1, 2}), obj(Seg3{2, 1, 1, 0, 2}), obj(Seg3{0, 0, 0, 1, 3})}};
    for (size_t f = 0; f < fam.size(); ++f) for (int m = 1; m < 32; ++m) { std::vector<int> ix; for (int i = 0; i < 5; ++i) if (m >> i & 1) ix.push_back(i); if (ix.size() < 3 || (ix.size() > 4 && !vf::thorough)) continue;
        do { const Pose& P = T[(m + f) % 4 == 0 ? m % T.size() : 0]; std::string k = vf::cat("set", f, "/"); for (int i : ix) k += vf::cat(i); if (!vf::begin(k + "@" + P.name)) continue; std::vector<Obj> o; std::vector<TopoDS_Shape> s; std::string fp, fq; for (int i : ix) { o.push_back(fam[f][i]); s.push_back(make(o.back(), P)); fp += fingerprint(s.back()); } const double e = 1e-7 * double(P.s);
            if (f != 2) op("fuse of several", [&] { expect(fuse(s, e), join(o), P); }); op("fragment of several", [&] { fragments(o, fragment(s, e), P); });
            if (f == 0 || f == 1) op("chain", [&] { // ((a u b) - c) and its complement in a u b
                Obj u = o[0]; Cell j = join({o[0], o[1]}); u.c = j.c; u.f = j.f; auto us = fuse(std::vector<TopoDS_Shape>{s[0], s[1]}, e); expect(cut(us, s[2], e), minus(u, o[2]), P); expect(intersect(us, s[2], e), common(u, o[2]), P); expect(intersect(s[2], us, e), common(u, o[2]), P); });
            for (auto& x : s) fq += fingerprint(x); vf::check(fp == fq, "operands are modified", "vertices of an operand changed");
        } while (std::next_permutation(ix.begin(), ix.end())); }
    // translation, reading
    for (size_t i = 0; i < first.size(); ++i) for (int dx = -2; dx <= 2; ++dx) for (int dy = -2; dy <= 2; ++dy) for (int dz = -2; dz <= 2; ++dz) for (size_t t = 0; t < T.size(); t += 3)
    {
        const Pose& P = T[t]; if (!vf::begin(vf::cat("translate/", first[i].name, "/", dx, dy, dz, "@", P.name))) continue; const auto x = make(first[i], P); const auto fx = fingerprint(x); V v = P.map({(R)dx, (R)dy, (R)dz}) - P.map({0, 0, 0}); 
        op("translate", [&] { Cell w{first[i].dim}; for (auto c : first[i].c) w.c.insert({c[0] + dx, c[1] + dy, c[2] + dz}); for (auto q : first[i].f) { int d[3] = {dx, dy, dz}; w.f.insert({q[0], q[1] + d[q[0]], q[2] + d[(q[0] + 1) % 3], q[3] + d[(q[0] + 2) % 3]}); } for (auto e : first[i].e) w.e.insert({e[0], e[1] + dx, e[2] + dy, e[3] + dz}); auto s = translate(x, Vector<double, 3>(double(v.x), double(v.y), double(v.z))); if (s.ShapeType() != x.ShapeType()) throw Bad{"kind of shape"}; expect(s, w, P); extraction(s); auto s2 = translate(s, Vector<double, 3>(double(-v.x), double(-v.y), double(-v.z))); expect(s2, cellsOf(first[i]), P); 
            BRepTools::Write(s, "shape.brep"); expect(readShape("shape.brep"), w, P); });
        vf::check(fingerprint(x) == fx, "operands are modified", "translate");
    }
    // curved solids: octants and inclusion-exclusion
    for (int k = 0; k < 2; ++k) for (int x0 = -1; x0 < 2; ++x0) for (int x1 = x0 + 1; x1 < 3; ++x1) for (int y0 = -1; y0 < 2; ++y0) for (int y1 = y0 + 1; y1 < 3; ++y1) for (int z0 = -1; z0 < 2; ++z0) for (int z1 = z0 + 1; z1 < 3; ++z1) for (R w : {2.0L, 0.7L})
    {
        auto cd = [&](int i) -> R { return i == -1 ? -w : i == 0 ? 0 : i == 1 ? w : 2 * w; }; if (!vf::begin(vf::cat(k ? "cyl/" : "ball/", x0, x1, y0, y1, z0, z1, "/", double(w)))) continue;
        const TopoDS_Shape b = BRepPrimAPI_MakeBox(gp_Pnt(cd(x0), cd(y0), cd(z0)), gp_Pnt(cd(x1), cd(y1), cd(z1))).Solid(); TopoDS_Shape c = k ? TopoDS_Shape(getShape(Cylinder<double>(1.3, 1.5))) : TopoDS_Shape(getShape(Sphere<double>(Point<double, 3>(0, 0, 0), 1.3)));
        const R vc = k ? PI * 1.69L * 1.5L : 4 * PI / 3 * 1.3L * 1.69L, vb = (cd(x1) - cd(x0)) * (cd(y1) - cd(y0)) * (cd(z1) - cd(z0)); R e = -1; 
        auto frac = [&](int a, int b2) -> R { R lo = a <= -1 ? -1 : a == 0 ? 0 : 1, hi = b2 >= 1 ? 1 : b2 == 0 ? 0 : -1; return std::max((R)0, hi - lo) / 2; };
        if (w == 2) { e = vc * frac(x0, x1) * frac(y0, y1); if (k == 0) e *= frac(z0, z1); else e *= z1 <= 0 || cd(z0) >= 1.5L ? 0 : 1; }
        const double eps = 1e-7; R vi = 0; op("curved", [&] {
            vi = volume(intersect(c, b, eps)); auto near = [&](R a, R r, const char* n) { if (std::abs(a - r) > 1e-4L * vc) throw Bad{vf::cat(n, ": volume ", double(a), ", expected ", double(r))}; };
            if (e >= 0) near(vi, e, "intersect"); near(volume(intersect(b, c, eps)), vi, "intersect swapped"); near(volume(cut(c, b, eps)), vc - vi, "cut"); near(volume(cut(b, c, eps)), vb - vi, "cut swapped"); near(volume(fuse(std::vector<TopoDS_Shape>{b, c}, eps)), vb + vc - vi, "fuse"); near(volume(fuse(std::vector<TopoDS_Shape>{c, b}, eps)), vb + vc - vi, "fuse swapped"); auto f = fragment(std::vector<TopoDS_Shape>{c, b}, eps); near(volume(f), vb + vc - vi, "fragment"); extraction(f); });
        vf::outcome(vf::cat("curved ", vi > 1e-6L ? "overlap" : "disjoint"));
    }
    return vf::finish();
}
