// C09: intersections under all presentations of the operands (argument order, equivalent data, copies, similarity moves).
#include "cylsect.hh"
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/intersection/intersect.hh>
using namespace Frackit; using namespace ref;
using S3 = Segment<double, 3>; using L3 = Line<double, 3>; using P3 = Plane<double, 3>;
//! one part of a result in local coordinates: kind, points in canonical order, measure
struct Item { char k; std::vector<V> p; R m = 0; };
using Parts = std::vector<Item>;
static bool lessV(const V& a, const V& b) { return std::tie(a.x, a.y, a.z) < std::tie(b.x, b.y, b.z); }
static std::string show(const Parts& P) { std::string r; for (auto& i : P) { r += i.k; for (auto& p : i.p) r += str(p); r += vf::cat(double(i.m), " "); } return r; }
static bool sameItem(const Item& a, const Item& b, R tol)
{
    if (a.k != b.k || std::abs(a.m - b.m) > tol * 4) return false; auto near = [&](int i, int j) { return (a.p[i] - b.p[j]).len() <= tol; };
    switch (a.k) { case 'e': case '?': return true; case 'l': case 'a': return near(0, 0) && a.p[1].cross(b.p[1]).len() < 1e-6L; case 's': return (near(0, 0) && near(1, 1)) || (near(0, 1) && near(1, 0)); case 'c': return ((near(0, 0) && near(1, 1)) || (near(0, 1) && near(1, 0))) && near(2, 2); case 'o': return near(0, 0) && a.p[1].cross(b.p[1]).len() < 1e-6L && std::abs(a.p[2].x - b.p[2].x) <= tol; }
    return near(0, 0);
}
static bool sameParts(const Parts& a, const Parts& b, R tol)
{ if (a.size() != b.size()) return false; std::vector<char> u(b.size()); for (auto& x : a) { bool f = false; for (size_t j = 0; j < b.size() && !f; ++j) if (!u[j] && sameItem(x, b[j], tol)) { u[j] = 1; f = true; } if (!f) return false; } return true; }
//! lengths/centroids of edges and areas/centroids of faces are accumulated: seams may divide them
struct Collect { const Pose& T; Parts r; R len = 0, area = 0; V le, ar;
    V un(const FP& p) const { return T.inv(from(p)); } 
    template<class G> void add(const G& x) {
        if constexpr (std::is_same_v<G, FP>) r.push_back({'p', {un(x)}}); else if constexpr (std::is_same_v<G, S3>) r.push_back({'s', {un(x.source()), un(x.target())}});
        else if constexpr (std::is_same_v<G, L3>) { V p = un(x.supportingPoint()), d = T.invRot(fromDir(x.direction())); r.push_back({'l', {p - d * (p.dot(d) / d.n2()), d}}); }
        else if constexpr (std::is_same_v<G, P3>) { V p = un(x.supportingPoint()), d = T.invRot(fromDir(x.normal())); r.push_back({'a', {d * p.dot(d), d}}); }
        else if constexpr (std::is_same_v<G, EllipseArc<double, 3>>) r.push_back({'c', {un(x.getPoint(0)), un(x.getPoint(1)), un(x.getPoint(0.5))}});
        else if constexpr (std::is_same_v<G, Ellipse<double, 3>>) r.push_back({'o', {un(x.center()), T.invRot(fromDir(x.normal())), {(R)x.majorAxisLength() / T.s, 0, 0}}, (R)x.minorAxisLength() / T.s});
        else if constexpr (std::is_same_v<G, TopoDS_Edge>) { BRepAdaptor_Curve c(x); const int N = 4000; const double h = (c.LastParameter() - c.FirstParameter()) / N; for (int i = 0; i < N; ++i) { gp_Pnt p; gp_Vec d; c.D1(c.FirstParameter() + (i + 0.5) * h, p, d); R w = d.Magnitude() * h / T.s; len += w; le = le + un(FP(p.X(), p.Y(), p.Z())) * w; } }
        else if constexpr (std::is_same_v<G, TopoDS_Face>) { GProp_GProps g; BRepGProp::SurfaceProperties(x, g, 1e-7); auto c = g.CentreOfMass(); R w = g.Mass() / T.s / T.s; area += w; ar = ar + un(FP(c.X(), c.Y(), c.Z())) * w; }
        else if constexpr (std::is_same_v<G, EmptyIntersection<3>>) r.push_back({'e'}); else r.push_back({'?'}); }
    Parts done() { if (len > 0) r.push_back({'E', {le * (1 / len)}, len}); if (area > 0) r.push_back({'F', {ar * (1 / area)}, area}); return r; } };
template<class... G> static Parts parts(const std::variant<G...>& v, const Pose& T) { Collect c{T}; std::visit([&](const auto& g) { c.add(g); }, v); return c.done(); }
template<class Var> static Parts parts(const std::vector<Var>& v, const Pose& T) { Collect c{T}; for (auto& x : v) std::visit([&](const auto& g) { c.add(g); }, x); return c.done(); }
template<class G> static Parts parts(const G& g, const Pose& T) { Collect c{T}; c.add(g); return c.done(); }
//! compare a presentation with the base result
struct Judge { std::string fam; Parts base; bool have = false; R tol; std::string bad;
    template<class F> void operator()(const std::string& what, const Pose& T, F&& f) {
        vf::step(); Parts p; try { p = parts(f(), T); } catch (const std::exception& e) { p = {{'x'}}; } catch (...) { p = {{'x'}}; }
        if (!have) { base = p; have = true; std::string k; for (auto& i : p) k += i.k; vf::outcome(fam + " " + k); return; }
        const bool ok = p.size() == base.size() && !p.empty() && p[0].k == 'x' ? base[0].k == 'x' : sameParts(base, p, tol + 4e-7L / T.s + 1e-11L * T.t.len());
        vf::check(ok, fam + " " + what, [&] { return vf::cat("got ", show(p), " instead of ", show(base)); }); } };
struct Named { std::string n; };
//! all pairs of presentations; A/B: functions (index, pose, callback) with nA/nB presentations, index 0 = base
template<class FA, class FB> static void all(Judge& J, int nA, FA&& A, int nB, FB&& B, const std::vector<Pose>& poses, bool product, double eps)
{
    Pose I; auto call = [&](int i, int j, const Pose& T, const std::string& w, int how) { A(i, T, [&](const auto& a) { B(j, T, [&](const auto& b) { 
        if (how == 0) J(w, T, [&] { return intersect(a, b); }); else if (how == 1) J(w + " swapped", T, [&] { return intersect(b, a); }); else if (how == 2) J(w + " copies", T, [&] { auto c = a; auto d = b; return intersect(c, d); }); else J(w + " eps", T, [&] { return intersect(a, b, eps * double(T.s)); }); }); }); };
    call(0, 0, I, "base", 0); if (!J.have) return; for (int how = 1; how < 4; ++how) call(0, 0, I, "", how);
    for (int i = 0; i < nA; ++i) for (int j = 0; j < nB; ++j) { if (i + j == 0 || (!product && i && j && (i * 7 + j * 3) % 5)) continue; call(i, j, I, vf::cat("relabelled"), 0); if ((i + j) % 3 == 1) call(i, j, I, "relabelled", 1); }
    for (size_t t = 0; t < poses.size(); ++t) { call(0, 0, poses[t], "moved", 0); call(0, 0, poses[t], "moved", 1); call(int(t) % nA, int(t) / 2 % nB, poses[t], "moved relabelled", 0); }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv); const auto L = latticeRotations(), O = obliqueRotations(); Pose I; I.name = "I"; int cnt = 0;
    std::vector<Pose> lat = combine({L[7], L[13]}, {{10, -7, 3}}, {1.0L}), all_ = combine({L[0], L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L});
    // linear geometries
    std::vector<V> pts; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = -1; z < 2; ++z) pts.push_back({(R)x, (R)y, (R)z});
    auto mkSeg = [&](V a, V b) { return [=](int i, const Pose& T, auto&& f) { f(i ? S3(pt(T.map(b)), pt(T.map(a))) : S3(pt(T.map(a)), pt(T.map(b)))); }; };
    auto mkLine = [&](V a, V d) { return [=](int i, const Pose& T, auto&& f) { const R sh[] = {0, 1, -2.5L, 7}; V q = a + d * sh[i / 2]; f(L3(pt(T.map(q)), dir(T.rot(i % 2 ? d * -1 : d)))); }; };
    auto mkPlane = [&](V a, V n) { return [=](int i, const Pose& T, auto&& f) { V u = (std::abs(n.x) < std::abs(n.y) ? V{1, 0, 0} : V{0, 1, 0}).cross(n), w = n.cross(u); V q = i / 6 ? a + u * 1.5L - w : a; V N = i % 2 ? n * -1 : n; switch (i % 6 / 2) { case 0: f(P3(pt(T.map(q)), dir(T.rot(N)))); break; case 1: f(P3(pt(T.map(q)), dir(T.rot(i % 2 ? w : u)), dir(T.rot(i % 2 ? u : w)), dir(T.rot(N)))); break; default: f(P3(pt(T.map(q)), pt(T.map(q + (i % 2 ? w : u))), pt(T.map(q + (i % 2 ? u : w))))); } }; };
    std::vector<std::pair<V, V>> segs{{{0, 0, 0}, {2, 0, 0}}, {{0, 1, 0}, {2, 1, 0}}, {{1, 0, -1}, {1, 0, 1}}, {{0, 0, 0}, {2, 2, 0}}, {{0, 0, -1}, {2, 2, 1}}, {{1, 1, 0}, {2, 1, 0}}};
    for (auto& s : segs) for (auto& c : pts) for (auto& d : pts) { if ((c - d).n2() == 0 || (++cnt % 3 && !vf::thorough)) continue; if (!vf::begin(vf::cat("segments/", str(s.first), str(s.second), str(c), str(d)))) continue; Judge J{"segment-segment", {}, false, 1e-6L}; all(J, 2, mkSeg(s.first, s.second), 2, mkSeg(c, d), all_, true, 1e-6); }
    std::vector<V> dirs; for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) for (int z = 0; z < 2; ++z) if (z || y > 0 || (y == 0 && x > 0)) dirs.push_back({(R)x, (R)y, (R)z});
    std::vector<V> org{{0, 0, 0}, {1, 0, 0}, {0, 0.5L, 0.25L}, {-1, 2, 1}};
    for (auto& n : dirs) for (auto& m : dirs) for (auto& o : org) for (auto& p : org) { if (++cnt % 2 && !vf::thorough) continue; if (vf::begin(vf::cat("planes/", str(n), str(m), str(o), str(p)))) { Judge J{"plane-plane", {}, false, 1e-6L}; all(J, 12, mkPlane(o, n), 12, mkPlane(p, m), all_, false, 1e-6); } if (vf::begin(vf::cat("plane-line/", str(n), str(m), str(o), str(p)))) { Judge J{"plane-line", {}, false, 1e-6L}; all(J, 12, mkPlane(o, n), 8, mkLine(p, m), all_, false, 1e-6); } }
    // planar shapes
    const auto SS = stdShapes(); Frame F0; const auto rots = tiltedRotations();
    auto nShape = [](const Shape2& S) { return S.kind == 'D' ? (S.a == S.b ? 8 : 4) : int(2 * S.ring.size()); };
    auto mkShape = [&](Shape2 S, Frame F) { return [=](int i, const Pose& T, auto&& f) { if (S.kind == 'D') { Frame G = F; if (i >= 4) { std::swap(G.cx, G.cy); G.cz = G.cz * -1; } f(mkDisk(S, G, T, {i & 1, bool(i & 2)})); } else { Pres p{i / 2, bool(i % 2)}; if (S.kind == 'Q') f(mkQuad(S, F, T, p)); else f(mkPoly(S, F, T, p)); } }; };
    auto mkFace = [&](Shape2 S, Frame F) { auto g = mkShape(S, F); return [=](int i, const Pose& T, auto&& f) { g(i / 2, T, [&](const auto& x) { TopoDS_Face q = OCCUtilities::getShape(x); if (i % 2) q.Reverse(); f(q); }); }; };
    for (auto& s : SS) if (s.kind != 'P') for (auto& d : dirs) for (R x : {-1.0L, 0.0L, 0.5L, 2.0L}) for (R y : {-0.5L, 0.0L, 1.0L}) for (R z : {0.0L, 1.0L})
    {
        V o{x, y, z}; if (++cnt % 2 && !vf::thorough) continue; // rim contacts are tangential for lines in the plane of the disk
        bool contact = false; if (d.z == 0) { if (z != 0) contact = false; else { R lo, hi; Shape2 W = s; if (W.kind == 'D') { W.a *= 1.00001L; W.b *= 1.00001L; } else for (auto& c : W.ring) c = c * 1.00001L; bool a = section(s, o, d, lo, hi); R w = hi - lo; bool b = section(W, o, d, lo, hi); contact = a != b || (a && w < 1e-2L); } }
        if (!vf::begin(vf::cat("line/", s.name, str(d), str(o)))) continue; Judge J{vf::cat("line-", s.kind), {}, false, 1e-6L * std::max((R)1, s.size())};
        if (s.kind == 'D') all(J, nShape(s), [&](int i, const Pose& T, auto&& f) { mkShape(s, F0)(i, T, [&](const auto& g) { if constexpr (std::is_same_v<std::decay_t<decltype(g)>, Disk<double>>) f(g); }); }, 8, mkLine(o, d), contact ? lat : all_, false, 1e-6); else all(J, nShape(s), [&](int i, const Pose& T, auto&& f) { mkShape(s, F0)(i, T, [&](const auto& g) { if constexpr (std::is_same_v<std::decay_t<decltype(g)>, Quadrilateral<double, 3>>) f(g); }); }, 8, mkLine(o, d), contact ? lat : all_, false, 1e-6);
    }
    std::vector<V> off; for (R x : {-2.0L, -0.5L, 0.0L, 1.0L, 1.5L}) for (R y : {-1.0L, 0.0L, 0.5L}) for (R z : {-1.0L, 0.0L, 0.5L, 2.0L}) off.push_back({x, y, z});
    auto only = [](auto tag, auto&& mk) { using Tag = std::decay_t<decltype(tag)>; return [mk](int i, const Pose& T, auto&& f) { mk(i, T, [&](const auto& g) { if constexpr (std::is_same_v<std::decay_t<decltype(g)>, Tag>) f(g); }); }; };
    auto typed = [&](const Shape2& s, const Frame& F, auto&& f) { auto mk = mkShape(s, F); if (s.kind == 'D') f(only(Disk<double>(), mk)); else if (s.kind == 'Q') f(only(Quadrilateral<double, 3>(), mk)); else f(only(Polygon<double, 3>(), mk)); };
    for (auto& a : SS) for (auto& b : SS) for (auto& q : rots) for (auto& o : off)
    {
        if (++cnt % (vf::thorough ? 3 : 47)) continue; Frame F2(q, o); PRes x = isect2(a, F0, b, F2); const R sz = std::max(a.size(), b.size()); 
        bool tangent = false; if (x.k == 'p') for (int w : {0, 1}) { const Shape2& S = w ? b : a; const Frame& F = w ? F2 : F0; R l, h; if (S.kind == 'D' && section(S, toLocal(F, x.a), F.invRot(F0.cz.cross(F2.cz).unit()), l, h) && h - l < 1e-3L * S.size()) tangent = true; }
        if ((a.kind == 'Q' && b.kind == 'P') || (a.kind == 'P' && b.kind == 'Q')) continue; if (!vf::begin(vf::cat("planar/", a.name, "/", b.name, "/", q.name, str(o)))) continue; if (!x.judged || (tangent && !q.lattice)) { vf::skip(); continue; }
        Judge J{vf::cat(a.kind, "-", b.kind), {}, false, 1e-6L * sz}; const std::vector<Pose>& P = tangent ? lat : all_;
        if (a.kind == 'D') { auto A = only(Disk<double>(), mkShape(a, F0)); if (b.kind == 'D') all(J, nShape(a), A, nShape(b), only(Disk<double>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); else if (b.kind == 'Q') all(J, nShape(a), A, nShape(b), only(Quadrilateral<double, 3>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); else all(J, nShape(a), A, nShape(b), only(Polygon<double, 3>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); }
        else if (a.kind == 'Q') { auto A = only(Quadrilateral<double, 3>(), mkShape(a, F0)); if (b.kind == 'D') all(J, nShape(a), A, nShape(b), only(Disk<double>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); else all(J, nShape(a), A, nShape(b), only(Quadrilateral<double, 3>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); }
        else { auto A = only(Polygon<double, 3>(), mkShape(a, F0)); if (b.kind == 'D') all(J, nShape(a), A, nShape(b), only(Disk<double>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); else all(J, nShape(a), A, nShape(b), only(Polygon<double, 3>(), mkShape(b, F2)), P, false, 1e-7 * double(sz)); }
    }
    // faces
    std::vector<Pose> few = combine({L[7], O[0]}, {{10, -7, 3}}, {1.0L, 1e-1L}), fewLat = combine({L[7]}, {{10, -7, 3}}, {1.0L}), none;
    for (auto& a : SS) for (auto& b : SS) for (auto& q : rots) for (auto& o : off)
    {
        if (++cnt % (vf::thorough ? 61 : 977)) continue; Frame F2(q, o); PRes x = isect2(a, F0, b, F2); const R sz = std::max(a.size(), b.size()); if (!vf::begin(vf::cat("face/", a.name, "/", b.name, "/", q.name, str(o)))) continue; if (!x.judged || x.k == 'p') { vf::skip(); continue; }
        Judge J{vf::cat("face-", b.kind), {}, false, 1e-5L * sz}; auto A = mkFace(a, F0); typed(b, F2, [&](auto&& B) { all(J, std::min(6, 2 * nShape(a)), A, std::min(6, nShape(b)), B, few, false, 1e-7 * double(sz)); }); Judge K{"face-face", {}, false, 1e-5L * sz}; all(K, 4, A, 4, mkFace(b, F2), few, false, 1e-7 * double(sz));
    }
    // cylinder surfaces
    auto S = SS; S.push_back(disk2(4, 4)); S.push_back(disk2(6, 3)); S.push_back(ring2('Q', "wide", {{-4, -3, 0}, {4, -3, 0}, {4, 3, 0}, {-4, 3, 0}})); S.push_back(ring2('P', "wide", {{-4, -3, 0}, {4, -3, 0}, {5, 0, 0}, {4, 3, 0}, {-4, 3, 0}})); const R H = 4;
    auto mkCyl = [&](R r) { return [=](int i, const Pose& T, auto&& f) { V c = i % 2 ? V{0, 0, H} : V{0, 0, 0}, n = i % 2 ? V{0, 0, -1} : V{0, 0, 1}; Circle<double, 3> k(pt(T.map(c)), dir(T.rot(n)), double(r * T.s)); if (i / 2 == 0) f(CylinderSurface<double>(k, double(H * T.s))); else { Cylinder<double> y(k, double(H * T.s)); f(y.lateralFace()); } }; };
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; std::vector<V> co; for (R x : {0.0L, 0.5L, 1.0L, -2.0L}) for (R y : {0.0L, -0.75L}) for (R z : {0.0L, 1.0L, 2.5L, 4.0L, -1.0L}) co.push_back({x, y, z});
    for (R r : {1.0L, 1.5L}) for (auto& s : S) for (auto& q : R0) for (auto& o : co)
    {
        if (++cnt % (vf::thorough ? 7 : 73)) continue; if (!vf::begin(vf::cat("cyl", double(r), "/", s.name, "/", q.name, str(o)))) continue; Frame F(q, o); CylRes e = cylSection(r, H, s, F); if (!e.judged || e.pinched || ((e.tangent || e.rim || !e.points.empty()) && !q.lattice)) { vf::skip(); continue; }
        const bool contact = e.tangent || e.rim || !e.points.empty(); const R sz = std::max({r, H, s.size()}); Judge J{vf::cat("cyl-", s.kind), {}, false, 2e-5L * sz}; typed(s, F, [&](auto&& B) { all(J, 4, mkCyl(r), std::min(8, nShape(s)), B, contact ? fewLat : all_, false, 1e-7 * double(sz)); });
        if (cnt % 5 == 0) { Judge K{"cyl-face", {}, false, 2e-5L * sz}; all(K, 4, mkCyl(r), 4, mkFace(s, F), contact ? none : few, false, 1e-7 * double(sz)); }
    }
    // operands of very different size, with a gap that lies between both default tolerances: the order must not matter
    for (R big : {30.0L, 1000.0L}) for (auto& a : SS) for (auto& b : SS) for (R g : {2e-6L, 5e-6L, 2e-5L, 1e-3L, -1e-2L, -1e-3L, -1e-4L}) for (int spin = 0; spin < (g < 0 ? 3 : 1); ++spin) for (const Pose& P : {I, combine({O[0]}, {{10, -7, 3}}, {1.0L})[0]})
    {
        if ((a.kind == 'Q' && b.kind == 'P') || (a.kind == 'P' && b.kind == 'Q')) continue; if (!vf::begin(vf::cat("sizes", double(big), "/", a.name, "/", b.name, "/", double(g), "/", spin, "@", P.name))) continue;
        Shape2 A = a; A.a *= big; A.b *= big; for (auto& c : A.ring) c = c * big; R lo = b.kind == 'D' ? -b.b : 1e300L; for (auto& c : b.ring) lo = std::min(lo, c.y); Frame F; F.cx = {1, 0, 0}; F.cy = {0, 0, 1}; F.cz = {0, -1, 0}; F.t = {0, 0, g - lo}; if (spin) { const R u = spin == 1 ? 0.5L : -2.1L; F.cx = {std::cos(u), std::sin(u), 0}; F.cz = F.cx.cross(F.cy); F.t = F.t + V{0.1L * big, -0.07L * big, 0}; }
        const bool segm = a.name == SS[0].name && b.name == SS[0].name; // the same with segments (once)
        withShape(A, F0, P, {}, [&](const auto& x) { withShape(b, F, P, {}, [&](const auto& y) { using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>;
            if constexpr (!(std::is_same_v<X, Q> && std::is_same_v<Y, Po>) && !(std::is_same_v<X, Po> && std::is_same_v<Y, Q>)) { Judge J{"sizes", {}, false, 1e-5L * big}; J("base", P, [&] { return intersect(x, y); }); J("swapped", P, [&] { return intersect(y, x); }); vf::check(J.base.size() == 1 && J.base[0].k == (g > 0 ? 'e' : 's'), g > 0 ? "sizes separated" : "sizes pierced", [&] { return vf::cat("gap ", double(g), ": ", show(J.base)); }); } }); });
        if (segm) { const S3 l(pt(P.map({-big, 0, 0})), pt(P.map({big, 0, 0}))), m(pt(P.map({0, 0, g})), pt(P.map({0.5L, 0.25L, g + (g > 0 ? 1 : -1)}))); Judge J{"sizes segments", {}, false, 1e-6L}; J("base", P, [&] { return intersect(l, m); }); J("swapped", P, [&] { return intersect(m, l); }); vf::check(J.base.size() == 1 && J.base[0].k == 'e', "sizes segments separated", [&] { return vf::cat("gap ", double(g), ": ", show(J.base)); }); }
    }
    return vf::finish();
}
