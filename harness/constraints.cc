// C14: constraint evaluation for pairs of entities with exactly known angle, intersection magnitude, distances.
#include "planar.hh"
#include "gjk.hh"
#include "cylsect.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/geometry/geometry.hh>
#include <frackit/entitynetwork/constraints.hh>
using namespace Frackit; using namespace ref;
using C = EntityNetworkConstraints<double>;
static const double INF = 1e300;
//! exact features of a pair; a feature < 0 is not decided (not judged)
struct Exact { char kind = 'e'; R angle = 0, magnitude = 0, bnd = 1e300L, dist = 0; };
//! all combinations of {unset, below, above} for the four limits, dimension flag and tolerance option
template<class A, class B> void combos(const std::string& fam, const A& a, const B& b, const Exact& x, bool dimOk, bool reduced)
{
    auto lim = [](R v, int m) { return m == 1 ? double(v > 1e200L ? 1e6L : v * 0.9L - 1e-9L) : double(v > 1e200L ? 0.0L : v * 1.1L + 1e-6L); };
    for (int m = 0; m < 81; ++m)
    {
        const int md = m % 3, ma = m / 3 % 3, mm = m / 9 % 3, mb = m / 27; if (reduced && (m * 7 + 3) % 5 && m != 0 && m != 40 && m != 80) continue;
        const bool is = x.kind != 'e'; if (mb == 2 && is && x.bnd > 1e200L) continue;
        for (int opt = 0; opt < (m % 4 == 0 ? 3 : 1); ++opt)
        {
            C c; if (md) c.setMinDistance(is ? (md == 1 ? 0.1 : 1e6) : lim(x.dist, md)); if (ma) c.setMinIntersectingAngle(is ? lim(x.angle, ma) : 3.0); if (mm) c.setMinIntersectionMagnitude(is && x.kind != 'p' ? lim(x.magnitude, mm) : 1e6); if (mb) c.setMinIntersectionDistance(is ? lim(x.bnd, mb) : 1e6);
            if (opt == 1) c.allowEquiDimensionalIntersections(true); if (opt == 2) c.setIntersectionEpsilon(1e-6);
            const bool any = md || ma || mm || mb; bool e = true;
            if (any) { if (is) { if (!dimOk && opt != 1) e = false; if (ma == 2) e = false; if (mm == 2 && x.kind != 'p') e = false; if (mb == 2) e = false; } else if (md == 2) e = false; }
            vf::step(); auto info = [&] { return vf::cat("limits dist/angle/mag/bnd ", md, ma, mm, mb, " opt ", opt, " kind ", x.kind, " angle ", (double)x.angle, " magnitude ", (double)x.magnitude, " boundary ", (double)x.bnd, " distance ", (double)x.dist); };
            try { bool g = c.evaluate(a, b); vf::check(g == e, fam + " " + x.kind + (e ? " rejected" : " accepted"), info); bool h = c.evaluate(b, a); vf::check(h == e, fam + " swapped " + x.kind + (e ? " rejected" : " accepted"), info); }
            catch (const std::exception& y) { vf::check(false, fam + " exception", vf::cat(y.what(), " ", info())); } catch (...) { vf::check(false, fam + " exception", vf::cat("OCC ", info())); }
            vf::outcome(fam + " " + x.kind + (e ? " accept" : " reject"));
        }
    }
}
static Support supShape(const Shape2& S, const Frame& F) { if (S.kind == 'D') return supEllipse(F.t, F.cx * S.a, F.cy * S.b); std::vector<V> c; for (auto& p : S.ring) c.push_back(toScene(F, p)); return supPoints(c); }
//! exact features; returns false if a decision is not clear cut
static bool exact(const Shape2& S1, const Frame& F1, const Shape2& S2, const Frame& F2, Exact& x)
{
    PRes e = isect2(S1, F1, S2, F2); if (!e.judged) return false; x.kind = e.k;
    if (e.k == 'e') { auto g = gjk(supShape(S1, F1), supShape(S2, F2)); x.dist = g.dist; return g.dist > 1e-3L && g.gap < 1e-4L * g.dist; }
    x.angle = std::acos(std::min((R)1, std::abs(F1.cz.dot(F2.cz)))); x.magnitude = e.k == 's' ? (e.b - e.a).len() : 0; if (e.k == 's' && x.magnitude < 1e-2L) return false;
    // ends on a boundary do not count
    for (int k = 0; k < (e.k == 's' ? 2 : 1); ++k) for (int w = 0; w < 2; ++w) { R d = distB2(w ? S2 : S1, w ? F2 : F1, k ? e.b : e.a); if (d > 1e-9L && d < 1e-3L) return false; if (d >= 1e-3L) x.bnd = std::min(x.bnd, d); }
    return true;
}
static Frame posed(const Frame& F, const Pose& T) { Frame r; r.cx = T.rot(F.cx); r.cy = T.rot(F.cy); r.cz = T.rot(F.cz); r.t = T.rot(F.t) + T.t; return r; }
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto SS = stdShapes(); const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; Pose T1 = O[4]; T1.t = {10, -7, 3};
    std::vector<Pose> rots{L[4], L[7], O[0], O[4], O[2]}; if (vf::thorough) rots = tiltedRotations(); std::vector<V> org; for (R x : {-1.0L, 0.0L, 0.5L}) for (R y : {-0.75L, 0.0L, 1.0L}) for (R z : {-0.75L, 0.0L, 0.5L, 2.5L}) org.push_back({x, y, z});
    int cnt = 0; const int thin = vf::thorough ? 3 : 37; // coprime with the loop lengths: every shape pair, rotation and offset occurs
    for (size_t i = 0; i < SS.size(); ++i) for (size_t j = 0; j < SS.size(); ++j) for (auto& r : rots) for (auto& o : org) for (const Pose* T : {&I, &T1})
    {
        if (SS[i].kind != SS[j].kind && SS[i].kind != 'D' && SS[j].kind != 'D') continue; if (cnt++ % thin) continue;
        if (!vf::begin(vf::cat(SS[i].name, "/", SS[j].name, "/", r.name, "/", str(o), "@", T->name))) continue;
        Frame F1 = posed(Frame(), *T), F2 = posed(Frame(r, o), *T); Exact x; if (!exact(SS[i], F1, SS[j], F2, x) || (x.kind == 'p' && (SS[i].kind == 'D' || SS[j].kind == 'D') && !(T->lattice && r.lattice))) { vf::skip(); continue; } // (rim tangency in oblique poses is decided by rounding)
        vf::guarded("setup", [&] { withShape(SS[i], F1, Pose(), {}, [&](const auto& a) { withShape(SS[j], F2, Pose(), {}, [&](const auto& b) {
            using A = std::decay_t<decltype(a)>; using B = std::decay_t<decltype(b)>;
            constexpr bool qp = (std::is_same_v<A, Quadrilateral<double, 3>> && std::is_same_v<B, Polygon<double, 3>>) || (std::is_same_v<B, Quadrilateral<double, 3>> && std::is_same_v<A, Polygon<double, 3>>);
            if constexpr (!qp) { combos(vf::cat(SS[i].kind, SS[j].kind), a, b, x, true, true);
            if constexpr (!std::is_same_v<A, Polygon<double, 3>> && !std::is_same_v<B, Polygon<double, 3>>) if (cnt % 3 == 0) { // type-erased operands
                std::shared_ptr<Geometry> pa = std::make_shared<A>(a), pb = std::make_shared<B>(b); combos("erased", pa, pb, x, true, true); combos("erased first", pa, b, x, true, true); } } }); }); });
    }
    // entities against faces: crossing (edge), separated, coplanar overlapping (a face: own dimension)
    for (auto& S : SS) for (R h : {-0.5L, 0.0L, 0.25L, 3.0L}) for (int tilt = 0; tilt < 3; ++tilt) for (const Pose* T : {&I, &T1}) if (vf::begin(vf::cat("face/", S.name, "/", (double)h, "/", tilt, "@", T->name)))
    {
        Shape2 B = ring2('Q', "base", {{-10, -10, 0}, {10, -10, 0}, {10, 10, 0}, {-10, 10, 0}}); Pose R0 = tilt == 0 ? L[4] : tilt == 1 ? O[0] : L[0]; Frame F1 = posed(Frame(), *T), F2 = posed(Frame(R0, {0.25L, -0.5L, h}), *T);
        Exact x; bool dimOk = true;
        if (tilt == 2) { if (h == 0) { R area = S.kind == 'D' ? PI * S.a * S.b : polyArea(S.ring); x = {'f', 0, area, 1e300L, 0}; dimOk = false; } else { x.kind = 'e'; x.dist = std::abs(h); } }
        else if (!exact(B, F1, S, F2, x)) { vf::skip(); continue; }
        // the limit "boundary distance" is not defined for face intersections
        vf::guarded("setup", [&] { const auto face = OCCUtilities::getShape(mkQuad(B, F1, Pose())); withShape(S, F2, Pose(), {}, [&](const auto& a) {
            if (x.kind != 'f') { combos(vf::cat("face", S.kind), face, a, x, dimOk, !vf::thorough); return; }
            for (int m = 0; m < 3; ++m) for (int opt = 0; opt < 2; ++opt) for (int md = 0; md < 2; ++md) for (int ma = 0; ma < 2; ++ma) { C c; if (!m && !md && !ma) continue; if (m) c.setMinIntersectionMagnitude(double(x.magnitude * (m == 1 ? 0.9L : 1.1L))); if (md) c.setMinDistance(1.0); if (ma) c.setMinIntersectingAngle(0.1); if (opt) c.allowEquiDimensionalIntersections(true);
                bool e = opt && m != 2 && !ma; vf::step(); bool g = c.evaluate(face, a), k = c.evaluate(a, face); vf::check(g == e && k == e, "coplanar face", [&] { return vf::cat("limits mag/dist/angle ", m, md, ma, " allowed ", opt, " got ", g, k, " expected ", e); }); vf::outcome(e ? "coplanar accept" : "coplanar reject"); }
        }); });
    }
    // cylinder surface with planar entities (exact by construction): ellipses, segments and separated placements
    for (R r : {1.0L, 2.0L}) for (R tilt : {0.0L, 0.3L, 0.8L}) for (R z : {1.0L, 2.0L, 3.5L, 5.0L}) for (const Pose* T : {&I, &T1}) if (vf::begin(vf::cat("cylinder/", (double)r, "/", (double)tilt, "/", (double)z, "@", T->name)))
    {
        const R h = 6; Frame W = posed(Frame(), *T); CylinderSurface<double> cs(Circle<double, 3>(pt(W.t), dir(W.cz), double(r)), double(h));
        // plane through (0,0,z) tilted about x: the intersection spans z +- r tan(tilt)
        R dz = r * std::tan(tilt), lo = z - dz, hi = z + dz; if (lo < 0.05L || hi > h - 0.05L) { vf::skip(); continue; }
        Frame F; F.cx = {1, 0, 0}; F.cy = {0, std::cos(tilt), std::sin(tilt)}; F.cz = {0, -std::sin(tilt), std::cos(tilt)}; F.t = {0, 0, z}; F = posed(F, *T);
        R a = r / std::cos(tilt); Exact x; x.kind = 'l'; x.angle = std::acos(std::sin(tilt)); // largest |n.N| is sin(tilt)
        { R s = 0; const int N = 20000; for (int k = 0; k < N; ++k) { R t = 2 * PI * (k + 0.5L) / N; s += std::sqrt(a * a * std::sin(t) * std::sin(t) + r * r * std::cos(t) * std::cos(t)); } x.magnitude = s * 2 * PI / N; }
        R big = 4 * a; x.bnd = std::min({lo, h - hi, big - a});
        Shape2 D = disk2(big, big), Q = ring2('Q', "b", {{-big, -big, 0}, {big, -big, 0}, {big, big, 0}, {-big, big, 0}});
        vf::guarded("cylinder-disk", [&] { combos("cyl-disk", cs, mkDisk(D, F, Pose()), x, true, !vf::thorough); });
        if (vf::thorough || true) { // quadrilaterals: no boundary-distance limit for ellipses exists (not implemented by the library)
            auto q = mkQuad(Q, F, Pose()); for (int ma = 0; ma < 3; ++ma) for (int mm = 0; mm < 3; ++mm) { C c; if (ma) c.setMinIntersectingAngle(double(x.angle * (ma == 1 ? 0.9L : 1.05L))); if (mm) c.setMinIntersectionMagnitude(double(x.magnitude * (mm == 1 ? 0.9L : 1.1L))); bool e = ma != 2 && mm != 2; vf::step(); vf::guarded("cyl-quad", [&] { bool g = c.evaluate(cs, q), k = c.evaluate(q, cs); vf::check(g == e && k == e, "cyl-quad", vf::cat(ma, mm, " got ", g, k)); }); } }
    }
    // plane parallel to the axis at distance d: two segments (or a touching one), angle acos(d/r)
    for (R d : {0.0L, 0.5L, 0.9L, 1.0L, 1.5L}) for (int w = 0; w < 3; ++w) for (const Pose* T : {&I, &T1}) if (vf::begin(vf::cat("cylinder-parallel/", (double)d, "/", w, "@", T->name)))
    {
        const R h = 4; Frame W = posed(Frame(), *T); CylinderSurface<double> cs(Circle<double, 3>(pt(W.t), dir(W.cz), 1.0), double(h)); const R x0 = w == 0 ? 3 : w == 1 ? 2 : 1.5L, z0 = w == 0 ? 1 : 0.5L, z1 = w == 0 ? 3 : 2;
        Frame F; F.cx = {1, 0, 0}; F.cy = {0, 0, 1}; F.cz = {0, -1, 0}; F.t = {0, d, 0}; F = posed(F, *T); Shape2 Q = ring2('Q', "v", {{-x0, z0, 0}, {x0, z0, 0}, {x0, z1, 0}, {-x0, z1, 0}});
        Exact x; if (d > 1) { x.kind = 'e'; x.dist = d - 1; } else { x.kind = 's'; x.angle = std::acos(d); x.magnitude = z1 - z0; x.bnd = std::min(z0, h - z1); }
        vf::guarded("cylinder-parallel", [&] { combos(d == 1 ? "cyl-tangent" : "cyl-parallel", cs, mkQuad(Q, F, Pose()), x, true, !vf::thorough); });
    }
    // cylinder surfaces cut by planar entities in arcs (one or several parts): ends on a boundary, inside both, or mixed
    {
        std::vector<Shape2> S{disk2(1, 1), disk2(2, 1), disk2(6, 6), disk2(3, 1.5L), ring2('Q', "wide", {{-8, -8, 0}, {8, -8, 0}, {8, 8, 0}, {-8, 8, 0}}), ring2('Q', "strip", {{-5, -0.25L, 0}, {5, -0.25L, 0}, {5, 0.25L, 0}, {-5, 0.25L, 0}}), ring2('P', "penta", {{-1, -1, 0}, {1, -1, 0}, {1.5L, 0, 0}, {0, 1, 0}, {-1, 0.5L, 0}}), ring2('P', "half", {{-4, 0, 0}, {4, 0, 0}, {5, 3, 0}, {0, 6, 0}, {-4, 6, 0}})};
        std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; { Pose q; R c = 0.28L, t = 0.96L; q.cy = {0, c, t}; q.cz = {0, -t, c}; q.name = "steep"; q.lattice = false; R0.push_back(q); }
        const R H = 4; int n = 0;
        for (R r : {1.0L, 1.5L}) for (auto& s : S) for (auto& q : R0) for (R x : {0.0L, 0.5L, -1.0L}) for (R y : {0.0L, 0.75L, -1.25L}) for (R z : {1.0L, 2.0L, 3.5L, 4.0L}) for (const Pose* T : {&I, &T1})
        {
            ++n; if (!vf::thorough && n % 7) continue; if (!vf::begin(vf::cat("arcs", (double)r, "/", s.name, "/", q.name, "/", (double)x, ",", (double)y, ",", (double)z, "@", T->name))) continue;
            Frame F(q, {x, y, z}); CylRes e = cylSection(r, H, s, F); if (!e.judged || e.pinched || e.rim || e.tangent || !e.points.empty() || e.full || e.arcs.empty()) { vf::skip(); continue; }
            R mag = 1e300L, alo = 1e300L, ahi = 1e300L, blo = 1e300L, bhi = 1e300L; bool ok = true; const V nn = q.cz; const Frame W;
            auto ang = [&](R phi) { return std::acos(std::min((R)1, std::abs(nn.x * std::cos(phi) + nn.y * std::sin(phi)))); };
            for (auto& a : e.arcs)
            {
                mag = std::min(mag, a.length); std::vector<V> fine; for (int k = 0; k <= 2000; ++k) { R phi = a.p0 + (a.p1 - a.p0) * k / 2000; alo = std::min(alo, ang(phi)); fine.push_back(e.at(phi)); }
                for (int k = 0; k <= 4; ++k) ahi = std::min(ahi, ang(a.p0 + (a.p1 - a.p0) * k / 4));
                for (int w = 0; w < 2; ++w)
                {
                    auto d = [&](const V& p) { return w ? distB2(s, F, p) : std::min(p.z, H - p.z); };
                    R d0 = d(fine.front()), d1 = d(fine.back()); for (R v : {d0, d1}) if (std::abs(v) > 1e-9L && std::abs(v) < 1e-3L) ok = false; const bool b0 = std::abs(d0) <= 1e-9L, b1 = std::abs(d1) <= 1e-9L;
                    if (b0 || b1) { R v = b0 && b1 ? 1e300L : b0 ? d1 : d0; blo = std::min(blo, v); bhi = std::min(bhi, v); vf::outcome(b0 && b1 ? "arc: both ends on a boundary" : "arc: one end on a boundary"); }
                    else { vf::outcome("arc: no end on a boundary"); R l = 1e300L, h = 1e300L; for (int k = 0; k <= 80; ++k) { R v = d(fine[k * 25]); l = std::min(l, v); if (k % 20 == 0) h = std::min(h, v); } blo = std::min(blo, l * 0.995L); bhi = std::min(bhi, h); }
                }
            }
            if (!ok || blo < 1e-3L || alo < 1e-2L) { vf::skip(); continue; }
            vf::guarded("arcs", [&] {
                Frame W1 = posed(Frame(), *T), F1 = posed(F, *T); CylinderSurface<double> cs(Circle<double, 3>(pt(W1.t), dir(W1.cz), double(r)), double(H));
                withShape(s, F1, Pose(), {}, [&](const auto& g) {
                    for (int m = 1; m < 27; ++m)
                    {
                        const int ma = m % 3, mm = m / 3 % 3, mb = m / 9; if (mb == 2 && bhi > 1e200L) continue; if (!vf::thorough && (m * 5 + n / 7) % 3 && m != 9 && m != 18) continue;
                        C c; if (ma) c.setMinIntersectingAngle(double(ma == 1 ? alo * 0.95L : ahi * 1.02L + 1e-3L)); if (mm) c.setMinIntersectionMagnitude(double(mag * (mm == 1 ? 0.99L : 1.01L))); if (mb) c.setMinIntersectionDistance(mb == 1 ? double(blo > 1e200L ? 1e6L : blo * 0.99L) : double(bhi * 1.01L));
                        const bool want = ma != 2 && mm != 2 && mb != 2; auto info = [&] { return vf::cat("limits angle/mag/bnd ", ma, mm, mb, " angle [", (double)alo, ",", (double)ahi, "] magnitude ", (double)mag, " boundary [", (double)blo, ",", (double)bhi, "] ", e.str()); };
                        vf::step(2); try { vf::check(c.evaluate(cs, g) == want, want ? "arcs rejected" : "arcs accepted", info); vf::check(c.evaluate(g, cs) == want, want ? "arcs swapped rejected" : "arcs swapped accepted", info); vf::outcome(want ? "arcs accept" : "arcs reject"); }
                        catch (const std::exception& y) { vf::check(false, "arcs exception", vf::cat(y.what(), " ", info())); } catch (...) { vf::check(false, "arcs exception", vf::cat("OCC ", info())); }
                    } }); });
        }
    }
    return vf::finish();
}
