// C10: intersection angles against the exact angle between tangent planes.
#include "cylsect.hh"
#include <BRepAdaptor_Curve.hxx>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/intersectionangle.hh>
using namespace Frackit; using namespace ref;
static R acute(const V& a, const V& b) { V u = a.unit(), v = b.unit(); return std::atan2(u.cross(v).len(), std::abs(u.dot(v))); }
static IntersectionAngle<double> ANG;
//! the angle has to lie in [lo, hi]; acos loses half of the digits near zero
static void judge(const std::string& fam, double g, R lo, R hi, R rel = 1e-9L)
{ vf::step(); R tol = rel + 1e-12L / std::max((R)1e-5L, lo) + (lo < 1e-5L ? 1e-7L : 0); vf::check(std::isfinite(g) && g >= lo - tol && g <= hi + tol && g >= 0 && g <= PI / 2 + 1e-12L, fam, [&] { return vf::cat("angle ", g, " expected [", (double)lo, ",", (double)hi, "]"); }); vf::outcome(fam); }
template<class F> static void call(const std::string& fam, R lo, R hi, F&& f, R rel = 1e-9L) { double g; try { g = f(); } catch (const std::exception& e) { vf::step(); vf::check(false, fam + " exception", e.what()); return; } catch (...) { vf::step(); vf::check(false, fam + " exception", "OCC exception"); return; } judge(fam, g, lo, hi, rel); }
template<class T> struct isVec : std::false_type {}; template<class T> struct isVec<std::vector<T>> : std::true_type {};
template<class Is> static bool emptyResult(const Is& is) { if constexpr (isVec<Is>::value) { for (auto& v : is) if (std::holds_alternative<EmptyIntersection<3>>(v)) return true; return is.empty(); } else return std::holds_alternative<EmptyIntersection<3>>(is); }
template<class A, class B> static void both(const std::string& fam, const A& a, const B& b, R lo, R hi, R rel = 1e-9L)
{ try { auto is = intersect(a, b); if (emptyResult(is)) { vf::skip(); return; } call(fam, lo, hi, [&] { return ANG(a, b, is); }, rel); call(fam + " swapped", lo, hi, [&] { return ANG(b, a, is); }, rel); auto is2 = intersect(b, a); if (!emptyResult(is2)) call(fam + " both swapped", lo, hi, [&] { return ANG(b, a, is2); }, rel); } catch (const std::exception& e) { vf::skip(); } catch (...) { vf::skip(); } }
//! angle of a cylinder (axis z) with a plane of normal n at the lateral angle phi
static R cylAngle(const V& n, R phi) { return acute(n, {std::cos(phi), std::sin(phi), 0}); }
static R minOver(const V& n, R p0, R p1, int N) { R m = 1e9L; for (int i = 0; i <= N; ++i) m = std::min(m, cylAngle(n, p0 + (p1 - p0) * i / N)); return m; }
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); if (vf::thorough) { auto w = combine(allRotations(), {{0, 0, 0}, {-100, 50, 25}}, {1.0L}); T.insert(T.end(), w.begin(), w.end()); } }
    const std::vector<R> dihedral{0.1L, 1, 5, 10, 15, 30, 36, 45, 53, 60, 75, 80, 89, 89.9L, 90, 91, 100, 120, 135, 150, 170, 179, 179.9L};
    // planes: all pairs of lattice normals, and a fine grid of dihedral angles, in all poses
    std::vector<V> N; for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) if (x || y || z) N.push_back({(R)x, (R)y, (R)z});
    for (size_t i = 0; i < N.size(); ++i) for (size_t t = 0; t < T.size(); ++t) if (vf::begin(vf::cat("planes/", str(N[i]), "@", T[t].name))) for (auto& m : N)
    {
        if (acute(N[i], m) < 1e-9L) continue; const Pose& P = T[t]; Plane<double, 3> a(pt(P.map({0, 0, 0})), dir(P.rot(N[i]))), b(pt(P.map({0.5L, 0, 1})), dir(P.rot(m))); R e = acute(N[i], m);
        call("plane-plane", e, e, [&] { return ANG(a, b); }); try { auto is = intersect(a, b); if (auto* l = std::get_if<Line<double, 3>>(&is)) { call("plane-plane-line", e, e, [&] { return ANG(b, a, *l); }); call("plane-plane-variant", e, e, [&] { return ANG(a, b, is); }); } } catch (...) { vf::skip(); }
    }
    // planar entities (also as faces) meeting along a segment or in a point
    const auto SS = stdShapes(); int cnt = 0;
    for (auto& a : SS) for (auto& b : SS) for (R dg : dihedral) for (int place = 0; place < 4; ++place) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; if (!vf::thorough && (t ? cnt % 53 : cnt % 3)) continue; const R phi = dg * PI / 180; const Pose& P = T[t];
        if (!vf::begin(vf::cat("planar/", a.name, "/", b.name, "/", (double)dg, "/", place, "@", P.name))) continue;
        vf::guarded("setup", [&] {
            Frame F1, F2; F1.t = {0, 0, 0}; F2.cx = {1, 0, 0}; F2.cy = {0, std::cos(phi), std::sin(phi)}; F2.cz = {0, -std::sin(phi), std::cos(phi)}; F2.t = place == 0 ? V{0, 0, 0} : place == 1 ? V{0.5L, 0.25L, 0} : place == 2 ? V{-1, 0.5L, 0} : V{0.25L, -0.5L, 0};
            if (place == 3) { std::swap(F1.cx, F1.cy); F1.cz = F1.cz * -1; }
            const R e = acute(F1.cz, F2.cz);
            withShape(a, F1, P, {}, [&](const auto& g1) { withShape(b, F2, P, {}, [&](const auto& g2) {
                using A = std::decay_t<decltype(g1)>; using B = std::decay_t<decltype(g2)>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; constexpr bool qp = (std::is_same_v<A, Q> && std::is_same_v<B, Po>) || (std::is_same_v<A, Po> && std::is_same_v<B, Q>);
                const std::string k = vf::cat(a.kind, b.kind); if constexpr (!qp) both(k, g1, g2, e, e);
                if (dg >= 1 && dg <= 179 && cnt % 2 == 0) { const TopoDS_Face f1 = OCCUtilities::getShape(g1), f2 = OCCUtilities::getShape(g2); if (cnt % 4 == 0) both(vf::cat("face-", b.kind), f1, g2, e, e); else both("face-face", f1, f2, e, e); } }); }); });
    }
    // cylinder surfaces: ellipses, arcs, segments (several parts: the smallest angle counts)
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; { Pose p; R c = 0.28L, s = 0.96L; p.cy = {0, c, s}; p.cz = {0, -s, c}; p.name = "steep"; p.lattice = false; R0.push_back(p); }
    std::vector<Shape2> S{disk2(1, 1), disk2(2, 1), disk2(6, 6), ring2('Q', "wide", {{-8, -8, 0}, {8, -8, 0}, {8, 8, 0}, {-8, 8, 0}}), ring2('Q', "strip", {{-5, -0.25L, 0}, {5, -0.25L, 0}, {5, 0.25L, 0}, {-5, 0.25L, 0}}), ring2('P', "penta", {{-1, -1, 0}, {1, -1, 0}, {1.5L, 0, 0}, {0, 1, 0}, {-1, 0.5L, 0}}), ring2('P', "half", {{-4, 0, 0}, {4, 0, 0}, {5, 3, 0}, {0, 6, 0}, {-4, 6, 0}})};
    cnt = 0; const R H = 4;
    for (R r : {1.0L, 1.5L}) for (auto& s : S) for (auto& q : R0) for (R x : {0.0L, 0.5L, -1.0L}) for (R y : {0.0L, 0.75L, -1.25L}) for (R z : {1.0L, 2.0L, 4.0L}) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; if (!vf::thorough && (t ? cnt % 41 : cnt % 4)) continue; const Pose& P = T[t]; if (!vf::begin(vf::cat("cyl", (double)r, "/", s.name, "/", q.name, "/", (double)x, ",", (double)y, ",", (double)z, "@", P.name))) continue;
        vf::guarded("setup", [&] {
            Frame F(q, {x, y, z}); CylRes e = cylSection(r, H, s, F); if (!e.judged || e.pinched || e.rim || e.tangent || !e.points.empty()) { vf::skip(); return; } if (!e.full && e.arcs.empty() && e.segs.empty()) { vf::skip(); return; }
            R lo = 1e9L, hi = 1e9L; const V n = q.cz;
            if (e.full) { lo = hi = minOver(n, 0, 2 * PI, 3600); R phi = std::atan2(n.y, n.x); lo = hi = std::min({lo, cylAngle(n, phi), cylAngle(n, phi + PI)}); } else for (auto& a : e.arcs) { lo = std::min(lo, minOver(n, a.p0, a.p1, 4000)); for (int k = -2; k < 6; ++k) { R phi = std::atan2(n.y, n.x) + k * PI; if (phi >= a.p0 && phi <= a.p1) lo = std::min(lo, cylAngle(n, phi)); } hi = std::min(hi, minOver(n, a.p0, a.p1, 4)); }
            for (auto& g : e.segs) { R phi = std::atan2(g.first.y, g.first.x); lo = std::min(lo, cylAngle(n, phi)); hi = lo; }
            CylinderSurface<double> cs(Circle<double, 3>(pt(P.map({0, 0, 0})), dir(P.rot({0, 0, 1})), double(r * P.s)), double(H * P.s));
            const R rel = e.full || !e.segs.empty() ? 1e-6L : 1e-5L; const std::string k = e.full ? "ellipse" : e.arcs.size() ? vf::cat("arcs", e.arcs.size()) : "segments";
            withShape(s, F, P, {}, [&](const auto& g) { both(vf::cat("cyl-", s.kind, " ", k), cs, g, lo, hi, rel);
                // as faces: the edges may be split at the seam; every sample position set lies between the minimum and that of the coarsest split
                if (cnt % 3 == 0) { const TopoDS_Face cf = OCCUtilities::getShape(cs), pf = OCCUtilities::getShape(g); R up = 0; // computed from the edges returned
                    try { auto is = intersect(cf, pf); up = 1e9L; for (auto& v : is) if (auto* ed = std::get_if<TopoDS_Edge>(&v)) { BRepAdaptor_Curve c(*ed); for (int i = 0; i <= 4; ++i) { gp_Pnt p = c.Value(c.FirstParameter() + (c.LastParameter() - c.FirstParameter()) * i / 4); V w = P.inv({p.X(), p.Y(), p.Z()}); up = std::min(up, cylAngle(n, std::atan2(w.y, w.x))); } } if (up < 1e8L) { call("face-face " + k, lo, up, [&] { return ANG(cf, pf, is); }, 1e-5L); call("face-face swapped " + k, lo, up, [&] { return ANG(pf, cf, is); }, 1e-5L); auto i2 = intersect(cf, g); call("face-planar " + k, lo, up, [&] { return ANG(cf, g, i2); }, 1e-5L); call("planar-face " + k, lo, up, [&] { return ANG(g, cf, i2); }, 1e-5L);
                        if (auto* ed = std::get_if<TopoDS_Edge>(&is[0])) { BRepAdaptor_Curve c(*ed); gp_Pnt p = c.Value(c.FirstParameter() + (c.LastParameter() - c.FirstParameter()) * 0.3); V w = P.inv({p.X(), p.Y(), p.Z()}); R ex = cylAngle(n, std::atan2(w.y, w.x)); FP fp(p.X(), p.Y(), p.Z()); call("face-face point", ex, ex, [&] { return ANG(cf, pf, fp); }, 1e-6L); call("face-planar point", ex, ex, [&] { return ANG(cf, g, fp); }, 1e-6L); call("planar-face point", ex, ex, [&] { return ANG(g, cf, fp); }, 1e-6L); call("cyl-planar point", ex, ex, [&] { return ANG(cs, g, fp); }, 1e-6L); call("planar-cyl point", ex, ex, [&] { return ANG(g, cs, fp); }, 1e-6L); } } } catch (const std::exception&) { vf::skip(); } } }); });
    }
    // tangential contact: the angle is zero
    for (R d : {1.0L, -1.0L}) for (R rot : {0.0L, 0.3L, 1.0L, 2.5L}) for (size_t t = 0; t < T.size(); ++t) if (vf::begin(vf::cat("tangent/", (double)d, "/", (double)rot, "@", T[t].name))) vf::guarded("tangent", [&] {
        const Pose& P = T[t]; CylinderSurface<double> cs(Circle<double, 3>(pt(P.map({0, 0, 0})), dir(P.rot({0, 0, 1})), double(P.s)), double(4 * P.s)); Frame F; F.cx = {std::cos(rot), std::sin(rot), 0}; F.cy = {0, 0, 1}; F.cz = F.cx.cross(F.cy); F.t = F.cz * d + V{0, 0, 2}; auto g = mkQuad(ring2('Q', "q", {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}), F, P);
        for (R z : {1.0L, 2.0L, 2.7L}) { FP p = pt(P.map(F.cz * d + V{0, 0, z})); call("tangent point", 0, 0, [&] { return ANG(cs, g, p); }, 1e-7L); Segment<double, 3> sg(pt(P.map(F.cz * d + V{0, 0, 1})), p); if (z > 1) call("tangent segment", 0, 0, [&] { return ANG(g, cs, sg); }, 1e-7L); }
        both("tangent", cs, g, 0, 0, 1e-7L); });
    // coinciding faces: zero; spheres and planes: constant angle along the circle
    for (auto& q : {L[0], O[0], O[4]}) for (R z : {-0.8L, -0.28L, 0.0L, 0.6L, 0.96L}) for (size_t t = 0; t < T.size(); ++t) if (vf::begin(vf::cat("sphere/", (double)z, "/", q.name, "@", T[t].name))) vf::guarded("sphere", [&] {
        const Pose& P = T[t]; Sphere<double> sp(pt(P.map({0, 0, 0})), double(P.s)); auto fs = OCCUtilities::getFaces(OCCUtilities::getShape(sp)); Shape2 W = ring2('Q', "w", {{-3, -3, 0}, {3, -3, 0}, {3, 3, 0}, {-3, 3, 0}}); Frame F(q, q.cz * z); auto g = mkQuad(W, F, P); R e = std::acos(std::abs(z)); both("sphere-quad", fs[0], g, e, e, 1e-6L); const TopoDS_Face pf = OCCUtilities::getShape(g); both("sphere-face", fs[0], pf, e, e, 1e-6L); });
    for (size_t t = 0; t < T.size(); ++t) for (auto& s : SS) if (vf::begin(vf::cat("coinciding/", s.name, "@", T[t].name))) vf::guarded("coinciding", [&] { const Pose& P = T[t]; Frame F; F.t = {0.25L, 0, 0}; withShape(s, F, P, {}, [&](const auto& g) { Frame F0; F0.t = {0, 0, 0}; const TopoDS_Face f = OCCUtilities::getShape(g), b = OCCUtilities::getShape(mkQuad(ring2('Q', "b", {{-9, -9, 0}, {9, -9, 0}, {9, 9, 0}, {-9, 9, 0}}), F0, P)); both("coplanar faces", f, b, 0, 0, 1e-7L); both("coplanar face-geo", b, g, 0, 0, 1e-7L); }); });
    return vf::finish();
}
