// C08: cylinder surfaces and faces cut by planar entities, faces and curved faces.
#include "cylsect.hh"
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/intersection/intersect.hh>
using namespace Frackit; using namespace ref;
static V unmap(const Pose& T, const FP& p) { return T.inv(from(p)); }
static R edgeLength(const TopoDS_Edge& e) { BRepAdaptor_Curve c(e); R s = 0; const int N = 2000; const double h = (c.LastParameter() - c.FirstParameter()) / N; for (int i = 0; i < N; ++i) { gp_Pnt p; gp_Vec d; c.D1(c.FirstParameter() + (i + 0.5) * h, p, d); s += d.Magnitude() * h; } return s; }
static R faceArea(const TopoDS_Shape& e) { GProp_GProps g; BRepGProp::SurfaceProperties(e, g); return g.Mass(); }
static std::vector<FP> edgeSamples(const TopoDS_Edge& e) { BRepAdaptor_Curve c(e); std::vector<FP> r; for (int i = 0; i <= 8; ++i) { gp_Pnt p = c.Value(c.FirstParameter() + (c.LastParameter() - c.FirstParameter()) * i / 8); r.push_back(FP(p.X(), p.Y(), p.Z())); } return r; }
//! what a result consists of
struct Got { std::vector<V> points; std::vector<std::pair<V, V>> segs; struct Arc { std::vector<V> s; }; std::vector<Arc> arcs; struct Ell { std::vector<V> s; R a, b; }; std::vector<Ell> ell; std::vector<std::vector<V>> edges; R edgeLen = 0, faces = 0; int nFaces = 0, empty = 0;
    std::string str() const { std::string r; for (auto& e : ell) r += vf::cat("ellipse(", (double)e.a, ",", (double)e.b, ") "); for (auto& a : arcs) r += "arc" + ref::str(a.s.front()) + ref::str(a.s.back()) + " "; for (auto& g : segs) r += "seg" + ref::str(g.first) + ref::str(g.second) + " "; for (auto& p : points) r += "pt" + ref::str(p) + " "; if (!edges.empty()) r += vf::cat(edges.size(), " edges, length ", (double)edgeLen, " "); if (nFaces) r += vf::cat(nFaces, " faces, area ", (double)faces); return r.empty() ? "nothing" : r; } };
template<class Var> static void add(Got& g, const Var& v, const Pose& T)
{
    std::visit([&](const auto& x) { using G = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<G, FP>) g.points.push_back(unmap(T, x)); else if constexpr (std::is_same_v<G, Segment<double, 3>>) g.segs.push_back({unmap(T, x.source()), unmap(T, x.target())});
        else if constexpr (std::is_same_v<G, EllipseArc<double, 3>>) { Got::Arc a; for (int i = 0; i <= 16; ++i) a.s.push_back(unmap(T, x.getPoint(i / 16.0))); g.arcs.push_back(a); }
        else if constexpr (std::is_same_v<G, Ellipse<double, 3>>) { Got::Ell e; for (int i = 0; i < 16; ++i) e.s.push_back(unmap(T, x.getPointFromAngle(i * M_PI / 8))); e.a = x.majorAxisLength() / T.s; e.b = x.minorAxisLength() / T.s; g.ell.push_back(e); }
        else if constexpr (std::is_same_v<G, TopoDS_Edge>) { std::vector<V> s; for (auto& p : edgeSamples(x)) s.push_back(unmap(T, p)); g.edges.push_back(s); g.edgeLen += edgeLength(x) / T.s; }
        else if constexpr (std::is_same_v<G, TopoDS_Face>) { g.faces += faceArea(x) / T.s / T.s; ++g.nFaces; } else ++g.empty; }, v);
}
template<class Var> static Got parse(const std::vector<Var>& v, const Pose& T) { Got g; for (auto& x : v) add(g, x, T); return g; }
static bool onCyl(const CylRes& e, const V& p, R tol)
{
    if (std::abs(std::hypot(p.x, p.y) - e.r) > tol) return false; if (e.parallel) { for (auto& s : e.segs) if (distSeg(p, s.first, s.second) <= tol) return true; for (auto& q : e.points) if ((q - p).len() <= tol) return true; return false; }
    R phi = std::atan2(p.y, p.x); if (std::abs(e.at(phi).z - p.z) > tol * (2 + std::hypot(e.hc, e.hs) / e.r)) return false; if (e.full) return true; for (auto& a : e.arcs) if (inArc(a, phi, tol / e.r)) return true; for (auto& q : e.points) if ((q - p).len() <= tol) return true; return false;
}
//! every expected point is matched by exactly one result point
static bool matchPoints(const std::vector<V>& e, const std::vector<V>& g, R tol) { if (e.size() != g.size()) return false; for (auto& p : e) { int n = 0; for (auto& q : g) if ((p - q).len() <= tol) ++n; if (n != 1) return false; } return true; }
static std::string compare(const CylRes& e, const Got& g, R tol, bool shapes)
{
    if (g.nFaces) return "unexpected face";
    if (shapes)
    {
        if (!matchPoints(e.points, g.points, tol)) return "points"; if (std::abs(g.edgeLen - e.total()) > tol * (1 + e.total())) return "total length";
        for (auto& s : g.edges) for (auto& p : s) if (!onCyl(e, p, tol)) return "edge off the operands";
        const bool none = e.total() == 0 && e.points.empty(); if (none != (g.empty == 1) || g.empty > 1) return "emptiness"; return "";
    }
    const bool none = !e.full && e.arcs.empty() && e.segs.empty() && e.points.empty(); if (none) return g.empty == 1 && g.points.empty() && g.segs.empty() && g.arcs.empty() && g.ell.empty() ? "" : "not empty"; if (g.empty) return "empty";
    if (!matchPoints(e.points, g.points, tol)) return "points";
    if (e.full && !e.pinched) { if (g.ell.size() != 1 || !g.arcs.empty()) return "not a full ellipse"; for (auto& p : g.ell[0].s) if (!onCyl(e, p, tol)) return "ellipse off the operands"; R big = e.r / std::abs(e.nz); if (std::abs(g.ell[0].a - big) > tol || std::abs(g.ell[0].b - e.r) > tol) return "ellipse axes"; return ""; }
    if (!g.ell.empty()) { if (!e.full) return "full ellipse"; for (auto& p : g.ell[0].s) if (!onCyl(e, p, tol)) return "ellipse off the operands"; return g.ell.size() == 1 && g.arcs.empty() ? "" : "parts"; }
    if (g.segs.size() != e.segs.size() || (!e.pinched && g.arcs.size() != e.arcs.size())) return "number of parts";
    for (auto& s : e.segs) { int n = 0; for (auto& q : g.segs) if (((s.first - q.first).len() <= tol && (s.second - q.second).len() <= tol) || ((s.first - q.second).len() <= tol && (s.second - q.first).len() <= tol)) ++n; if (n != 1) return "segment ends"; }
    R tot = 0; for (auto& a : g.arcs) { for (auto& p : a.s) if (!onCyl(e, p, tol)) return "arc off the operands"; R p0 = std::atan2(a.s[0].y, a.s[0].x), span = 0; for (size_t i = 1; i < a.s.size(); ++i) span += std::remainder(std::atan2(a.s[i].y, a.s[i].x) - std::atan2(a.s[i - 1].y, a.s[i - 1].x), 2 * PI); tot += std::abs(e.length(p0, p0 + span)); }
    if (!e.arcs.empty() && std::abs(tot - e.total()) > 4 * tol * (1 + std::hypot(e.hc, e.hs)) + 1e-5L * e.total()) return vf::cat("total arc length ", (double)tot, " instead of ", (double)e.total());
    if (!e.pinched) for (auto& a : e.arcs) { int n = 0; for (auto& q : g.arcs) if (((e.at(a.p0) - q.s.front()).len() <= 3 * tol && (e.at(a.p1) - q.s.back()).len() <= 3 * tol) || ((e.at(a.p1) - q.s.front()).len() <= 3 * tol && (e.at(a.p0) - q.s.back()).len() <= 3 * tol)) ++n; if (n != 1) return "arc ends"; }
    return "";
}
static std::string kinds(const CylRes& e) { std::string k; if (e.full) k = "full"; else if (!e.arcs.empty()) k = vf::cat("arcs", e.arcs.size()); if (!e.segs.empty()) k += vf::cat("segs", e.segs.size()); if (!e.points.empty()) k += vf::cat("pts", e.points.size()); if (e.tangent) k += "tangent"; if (e.pinched) k += "pinched"; if (e.rim) k += "rim"; return k.empty() ? "empty" : k; }
static int variants = 0;
template<class A, class B> static void judge(const std::string& fam, const CylRes& e, const Pose& T, const A& a, const B& b, R sz, bool shapes, bool lattice, int depth)
{
    // default tolerances of the operands are 1e-7 times their size; OpenCASCADE works with 1e-7 absolute
    const R tol = 2e-5L * sz + 4e-7L / T.s;
    auto run = [&](const std::string& what, auto&& call) { vf::step(); Got g; try { g = parse(call(), T); } catch (const std::exception& x) { vf::check(false, fam + what + " " + kinds(e) + " exception", vf::cat(x.what(), ", expected ", e.str())); return; } catch (...) { vf::check(false, fam + what + " " + kinds(e) + " exception", vf::cat("OCC exception, expected ", e.str())); return; }
        std::string r = compare(e, g, tol, shapes); if (!r.empty() && !lattice && (e.tangent || e.pinched || e.rim || !e.points.empty())) { vf::skip(); return; } // contacts in oblique poses are decided by rounding
        vf::check(r.empty(), fam + what + " " + kinds(e), [&] { return vf::cat(r, ": got ", g.str(), " expected ", e.str()); }); vf::outcome(fam + what + " " + kinds(e)); };
    run("", [&] { return intersect(a, b); }); if (depth > 0) run(" swapped", [&] { return intersect(b, a); }); if (depth > 1) run(" eps", [&] { return intersect(a, b, double(2e-7L * sz * T.s)); });
}
static Frame identity() { Frame F; F.t = {0, 0, 0}; return F; }
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; auto S = stdShapes(); S.push_back(disk2(4, 4)); S.push_back(disk2(6, 3)); S.push_back(ring2('Q', "wide", {{-4, -3, 0}, {4, -3, 0}, {4, 3, 0}, {-4, 3, 0}})); S.push_back(ring2('P', "wide", {{-4, -3, 0}, {4, -3, 0}, {5, 0, 0}, {4, 3, 0}, {-4, 3, 0}})); S.push_back(ring2('Q', "strip", {{-5, -0.25L, 0}, {5, -0.25L, 0}, {5, 0.25L, 0}, {-5, 0.25L, 0}}));
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); if (vf::thorough) { auto w = combine(allRotations(), {{0, 0, 0}, {-100, 50, 25}}, {1.0L}); T.insert(T.end(), w.begin(), w.end()); } }
    // rotations: plane perpendicular, parallel, oblique to the axis
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; for (auto& q : O) { Pose p = q; std::swap(p.cx, p.cz); p.cx = p.cx * -1; p.name += "x"; if (p.name == "O122x" || p.name == "O345zx") R0.push_back(p); }
    { Pose p; R c = 0.28L, s = 0.96L; p.cy = {0, c, s}; p.cz = {0, -s, c}; p.name = "steep"; p.lattice = false; R0.push_back(p); }
    std::vector<V> org; for (R x : {0.0L, 0.5L, 1.0L, -2.0L}) for (R y : {0.0L, 1.0L, -0.75L}) for (R z : {0.0L, 1.0L, 2.5L, 4.0L, -1.0L}) org.push_back({x, y, z});
    int cnt = 0; const R H = 4;
    for (R r : {1.0L, 1.5L}) for (auto& s : S) for (auto& q : R0) for (auto& o : org) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; if (!vf::thorough && (t ? cnt % 31 != 0 : cnt % 4 != 0)) continue; // the loop lengths are coprime to the strides: all pairs of values occur
        const Pose& P = T[t]; if (!vf::begin(vf::cat("cyl", (double)r, "/", s.name, "/", q.name, "/", str(o), "@", P.name))) continue;
        vf::guarded("setup", [&] {
            Frame F(q, o); CylRes e = cylSection(r, H, s, F); if (!e.judged) { vf::skip(); return; }
            const bool lat = P.lattice && q.lattice; const int depth = (cnt / 4) % 3 == 0 ? 2 : (cnt / 4) % 3 == 1; CylinderSurface<double> cs(Circle<double, 3>(pt(P.map({0, 0, 0})), dir(P.rot({0, 0, 1})), double(r * P.s)), double(H * P.s));
            const R sz = std::max({r, H, s.size()}); withShape(s, F, P, {}, [&](const auto& g) { judge(vf::cat("cyl-", s.kind), e, P, cs, g, sz, false, lat, depth); if (cnt % 8 == 0) { const TopoDS_Face f = OCCUtilities::getShape(g); judge("cyl-face", e, P, cs, f, sz, true, lat, depth); const TopoDS_Face cf = OCCUtilities::getShape(cs); judge(vf::cat("cylface-", s.kind), e, P, cf, g, sz, true, lat, depth); } }); });
    }
    // planes that are almost perpendicular / almost parallel to the axis
    cnt = 0; for (R tilt : {2e-3L, 5e-4L, -1e-3L, PI / 2 - 5e-2L, PI / 2 + 2e-2L}) for (int ax = 0; ax < 3; ++ax) for (auto& s : S) for (R x : {0.0L, 0.3L, -0.8L}) for (R z : {1.0L, 2.5L}) for (size_t t : {0, 1, 4})
    {
        ++cnt; if (!vf::thorough && cnt % 5) continue; const Pose& P = T[t]; if (!vf::begin(vf::cat("almost/", (double)tilt, "/", ax, "/", s.name, "/", (double)x, ",", (double)z, "@", P.name))) continue;
        vf::guarded("setup", [&] {
            const R w = ax == 0 ? 0 : ax == 1 ? PI / 2 : 0.7L; V u{std::cos(w), std::sin(w), 0}, v{-std::sin(w), std::cos(w), 0}; Frame F; F.cx = u; F.cy = v * std::cos(tilt) + V{0, 0, std::sin(tilt)}; F.cz = F.cx.cross(F.cy); F.t = {x, 0.15L, z};
            CylRes e = cylSection(1, H, s, F); if (!e.judged || e.tangent || e.pinched || e.rim || !e.points.empty()) { vf::skip(); return; } const R sz = std::max({(R)1, H, s.size()}); CylinderSurface<double> cs(Circle<double, 3>(pt(P.map({0, 0, 0})), dir(P.rot({0, 0, 1})), double(P.s)), double(H * P.s));
            withShape(s, F, P, {}, [&](const auto& g) { judge(vf::cat("almost cyl-", s.kind), e, P, cs, g, sz, false, false, cnt % 3); }); });
    }
    // planar faces: every pair of shapes as face/shape and face/face
    auto SS = stdShapes(); std::vector<Pose> tr = tiltedRotations(); tr.push_back(L[0]); std::vector<V> few; for (R x : {-1.0L, 0.0L, 1.5L}) for (R y : {-1.0L, 0.0L, 0.5L}) for (R z : {-1.0L, 0.0L, 0.5L}) few.push_back({x, y, z});
    cnt = 0; for (auto& a : SS) for (auto& b : SS) for (auto& q : tr) for (auto& o : few) for (size_t t = 0; t < 3; ++t)
    {
        ++cnt; if (!vf::thorough && (t ? cnt % 79 != 0 : cnt % 10 != 0)) continue; const Pose& P = T[t == 0 ? 0 : t == 1 ? 4 : 7];
        if (!vf::begin(vf::cat("face/", a.name, "/", b.name, "/", q.name, "/", str(o), "@", P.name))) continue;
        vf::guarded("setup", [&] {
            Frame F1 = identity(), F2(q, o); PRes x = isect2(a, F1, b, F2); const R sz = std::max(a.size(), b.size()); const R tol = 1e-5L * sz + 4e-7L / P.s; R area = 0;
            if (std::abs(std::abs(F2.cz.z) - 1) < 1e-12L && std::abs(o.z) < 1e-12L) { if (a.kind == 'D' || b.kind == 'D') { vf::skip(); return; } // coplanar: clip
                std::vector<V> c; for (auto& p : a.ring) c.push_back(p); std::vector<V> w; for (auto& p : b.ring) w.push_back(toScene(F2, p)); if ((w[1] - w[0]).cross(w[2] - w[0]).z < 0) std::reverse(w.begin(), w.end());
                for (size_t i = 0; i < w.size() && !c.empty(); ++i) { V A = w[i], B = w[(i + 1) % w.size()]; std::vector<V> n; auto side = [&](const V& p) { return (B - A).cross(p - A).z; }; for (size_t k = 0; k < c.size(); ++k) { V p = c[k], pn = c[(k + 1) % c.size()]; R sp = side(p), sn = side(pn); if (sp >= 0) n.push_back(p); if ((sp > 0 && sn < 0) || (sp < 0 && sn > 0)) n.push_back(p + (pn - p) * (sp / (sp - sn))); } c = n; }
                area = c.size() >= 3 ? polyArea(c) : 0; if (area < 1e-6L) { vf::skip(); return; } }
            else if (!x.judged) { vf::skip(); return; }
            const bool lat = P.lattice && q.lattice; 
            withShape(a, F1, P, {}, [&](const auto& g1) { withShape(b, F2, P, {}, [&](const auto& g2) {
                const TopoDS_Face f1 = OCCUtilities::getShape(g1), f2 = OCCUtilities::getShape(g2);
                auto go = [&](const std::string& fam, auto&& call) { vf::step(); Got g; const std::string k = area > 0 ? "coplanar" : std::string(1, x.k); try { g = parse(call(), P); } catch (...) { vf::check(false, fam + " " + k + " exception", "exception"); return; }
                    std::string r; if (area > 0) { if (std::abs(g.faces - area) > tol * (1 + area)) r = "area"; else if (g.nFaces != 1 || !g.edges.empty() || !g.points.empty() || g.empty) r = "parts"; }
                    else if (x.k == 'e') { if (g.empty != 1 || !g.edges.empty() || !g.points.empty() || g.nFaces) r = "not empty"; } else if (x.k == 'p') { if (!matchPoints({x.a}, g.points, tol * 5) || !g.edges.empty() || g.nFaces) r = "not the point"; if (!r.empty() && !lat) { vf::skip(); return; } }
                    else { if (g.nFaces || !g.points.empty() || g.empty) r = "other parts"; else if (std::abs(g.edgeLen - (x.b - x.a).len()) > tol) r = "length"; else for (auto& s : g.edges) for (auto& p : s) if (distSeg(p, x.a, x.b) > tol) r = "off the operands"; }
                    vf::check(r.empty(), fam + " " + k, [&] { return vf::cat(r, ": got ", g.str(), " expected ", area > 0 ? vf::cat("area ", (double)area) : str(x)); }); vf::outcome(fam + " " + k); };
                switch (cnt / 10 % 3) { case 0: go(vf::cat("face-", b.kind), [&] { return intersect(f1, g2); }); break; case 1: go(vf::cat(a.kind, "-face"), [&] { return intersect(g1, f2); }); break; default: go("face-face", [&] { return intersect(f1, f2); }); go("face-face eps", [&] { return intersect(f1, f2, double(1e-6L * P.s)); }); } }); }); });
    }
    // coaxial cylinder surfaces: overlapping lateral faces, touching circles, inside each other; spheres cut by planes
    for (R z : {-3.0L, -2.0L, -1.0L, 0.0L, 0.5L, 1.0L, 2.0L, 2.5L}) for (R r2 : {1.0L, 1.5L}) for (R h2 : {1.0L, 2.0L}) for (size_t t = 0; t < 4; ++t) if (vf::begin(vf::cat("coaxial/", (double)z, "/", (double)r2, "/", (double)h2, "@", T[t].name))) vf::guarded("coaxial", [&] {
        const Pose& P = T[t]; auto mk = [&](R r, R z0, R h) { return CylinderSurface<double>(Circle<double, 3>(pt(P.map({0, 0, z0})), dir(P.rot({0, 0, 1})), double(r * P.s)), double(h * P.s)); }; auto a = mk(1, 0, 2), b = mk(r2, z, h2); R lo = std::max((R)0, z), hi = std::min((R)2, z + h2); const TopoDS_Face fb = OCCUtilities::getShape(b);
        vf::step(); Got g = parse(intersect(a, fb), P); const R tol = 1e-5L + 4e-7L / P.s; std::string r; if (r2 != 1 || hi < lo) { if (g.empty != 1 || g.nFaces || !g.edges.empty()) r = "not empty"; } else if (hi == lo) { if (g.nFaces || std::abs(g.edgeLen - 2 * PI) > tol * 10) r = "not the circle"; } else if (std::abs(g.faces - 2 * PI * (hi - lo)) > tol * 20) r = "area"; else if (!g.edges.empty()) r = "edges";
        vf::check(r.empty(), "coaxial", [&] { return vf::cat(r, ": got ", g.str(), " overlap ", (double)(hi - lo)); }); vf::outcome(r2 != 1 || hi < lo ? "coaxial empty" : hi == lo ? "coaxial circle" : "coaxial area"); });
    for (R z : {-1.5L, -0.8L, 0.0L, 0.6L, 1.2L}) for (auto& q : {L[0], O[0], O[4]}) for (size_t t = 0; t < 4; ++t) if (vf::begin(vf::cat("sphere/", (double)z, "/", q.name, "@", T[t].name))) vf::guarded("sphere", [&] {
        const Pose& P = T[t]; Sphere<double> sp(pt(P.map({0, 0, 0})), double(P.s)); auto fs = OCCUtilities::getFaces(OCCUtilities::getShape(sp)); if (fs.size() != 1) { vf::skip(); return; } Shape2 W = ring2('Q', "w", {{-3, -3, 0}, {3, -3, 0}, {3, 3, 0}, {-3, 3, 0}}); Frame F(q, q.cz * z); auto qd = mkQuad(W, F, P); vf::step(); Got g = parse(intersect(fs[0], qd), P); R len = std::abs(z) < 1 ? 2 * PI * std::sqrt(1 - z * z) : 0; std::string r; if (len == 0 ? g.empty != 1 : std::abs(g.edgeLen - len) > 1e-4L + 4e-6L / P.s || !g.points.empty() || g.nFaces) r = "wrong";
        vf::check(r.empty(), "sphere", [&] { return vf::cat("got ", g.str(), " expected length ", (double)len); }); vf::outcome(len > 0 ? "sphere circle" : "sphere empty"); });
    return vf::finish();
}
