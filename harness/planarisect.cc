// C07: intersections of planar entities over a lattice of relative placements.
#include "planar.hh"
#include <frackit/intersection/intersect.hh>
using namespace Frackit; using namespace ref;
template<class Var> static PRes get(const Var& v) { return std::visit([](const auto& g) -> PRes { using G = std::decay_t<decltype(g)>; if constexpr (std::is_same_v<G, FP>) return {'p', from(g), {}}; else if constexpr (std::is_same_v<G, Segment<double, 3>>) return {'s', from(g.source()), from(g.target())}; else if constexpr (std::is_same_v<G, EmptyIntersection<3>>) return {}; else return {'?'}; }, v); }
static void pair(const Shape2& S1, const Frame& F1, const Shape2& S2, const Frame& F2, const Pose& T)
{
    PRes e = isect2(S1, F1, S2, F2); if (!e.judged) { vf::skip(); return; }
    const std::string fam = std::string(1, S1.kind) + S2.kind; e.a = T.map(e.a); e.b = T.map(e.b); const R sz = std::max(S1.size(), S2.size()) * T.s, tol = (1e-6L * sz + 2e-7L + 1e-12L * T.t.len() * T.s) / std::max(1e-3L, std::min((R)1, 4 * F1.cz.cross(F2.cz).len()));
    // tangential contact with a disk's rim in an oblique pose is decided by the rounding of the input data
    bool tangent = false; if (e.k == 'p' && !(T.lattice && F2.lattice)) { V n = F1.cz.cross(F2.cz), p = T.inv(e.a); R l, h; for (int w : {0, 1}) if (const Shape2* S = w ? &S2 : &S1; S->kind == 'D') { const Frame& F = w ? F2 : F1; if (section(*S, toLocal(F, p), F.invRot(n.unit()), l, h) && h - l < 1e-3L * S->size()) tangent = true; } }
    auto judge = [&](const std::string& what, auto&& call) {
        vf::step(); PRes g; try { g = get(call()); } catch (const std::exception& x) { vf::check(false, fam + what + " " + e.k + " exception", vf::cat(x.what(), ", expected ", str(e))); return; } catch (...) { vf::check(false, fam + what + " " + e.k + " exception", vf::cat("OCC exception, expected ", str(e))); return; }
        if (tangent && g.k == 'e') { vf::skip(); return; }
        bool ok = g.k == e.k && (e.k == 'e' || (e.k == 'p' ? (g.a - e.a).len() <= tol * 10 : ((g.a - e.a).len() <= tol && (g.b - e.b).len() <= tol) || ((g.a - e.b).len() <= tol && (g.b - e.a).len() <= tol)));
        vf::check(ok, fam + what + " " + e.k + "->" + g.k, [&] { return vf::cat("got ", str(g), " expected ", str(e)); }); vf::outcome(fam + what + " " + e.k); };
    withShape(S1, F1, T, {}, [&](const auto& g1) { withShape(S2, F2, T, {}, [&](const auto& g2) {
        using A = std::decay_t<decltype(g1)>; using B = std::decay_t<decltype(g2)>; using Q = Quadrilateral<double, 3>; using P = Polygon<double, 3>;
        if constexpr ((std::is_same_v<A, Q> && std::is_same_v<B, P>) || (std::is_same_v<A, P> && std::is_same_v<B, Q>)) vf::skip(); // not offered by the library
        else {
        judge("", [&] { return intersect(g1, g2); }); if (S1.kind != S2.kind || T.s != 1) judge(" swapped", [&] { return intersect(g2, g1); });
        if (e.k == 's') judge(" eps", [&] { return intersect(g1, g2, double(1e-6L * sz)); }); } }); });
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto SS = stdShapes(), BS = bigShapes(); const auto rots = tiltedRotations(); const auto O = obliqueRotations(), L = latticeRotations(); Frame F0; Pose I; I.name = "I";
    std::vector<V> org; for (R x : {-2.0L, -1.0L, -0.5L, 0.0L, 1.0L, 1.5L}) for (R y : {-2.0L, -1.0L, 0.0L, 0.5L, 1.0L}) for (R z : {-1.0L, -0.5L, 0.0L, 1.0L, 2.0L}) if (vf::thorough || int(std::lround(double(2 * x + 2 * y + 2 * z)) & 1) == 0) org.push_back({x, y, z});
    std::vector<V> few; for (R x : {-1.0L, 0.0L, 1.5L}) for (R y : {-1.0L, 0.0L, 0.5L}) for (R z : {-1.0L, 0.0L}) few.push_back({x, y, z});
    std::vector<Pose> P = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); if (vf::thorough) { auto q = combine(allRotations(), {{0, 0, 0}, {-100, 50, 25}}, {1.0L}); P.insert(P.end(), q.begin(), q.end()); }
    auto run = [&](const Shape2& a, const Shape2& b, const Pose& r, const V& o, const Pose& T) { if (vf::begin(vf::cat(a.name, "/", b.name, "/", r.name, "/", str(o), "@", T.name))) vf::guarded("setup", [&] { pair(a, F0, b, Frame(r, o), T); }); };
    for (auto& a : SS) for (auto& b : SS) for (auto& r : rots) { for (auto& o : org) run(a, b, r, o, I); for (auto& T : P) for (auto& o : few) if (vf::thorough || (&a - &SS[0] + &b - &SS[0]) % 3 == 0) run(a, b, r, o, T); }
    // very different sizes, contact far from the centers
    for (auto& B : BS) for (auto& s : SS) for (auto& r : rots) for (V o : {V{0, 0, 0}, V{25, 0, 0}, V{0, 25, 0}, V{0, -28, -0.5L}, V{-38, 0, 0}, V{-28, -10, 0.5L}, V{39.5L, 5, 0}, V{0, 0, 10}, V{60, 60, 0}, V{200, 0, 0}}) { run(B, s, r, o, I); run(s, B, r, o, I); run(B, s, r, o, P[1]); }
    for (auto& B : BS) for (auto& C : BS) for (auto& r : rots) for (V o : {V{0, 0, 0}, V{25, 0, 0}, V{0, 0, 35}, V{60, 20, -20}, V{0, 100, 0}}) run(B, C, r, o, I);
    // parallel, offset planes
    for (auto& a : SS) for (auto& b : SS) for (R z : {0.01L, 0.5L, -2.0L}) for (auto& T : P) run(a, b, L[0], {0.25L, 0, z}, T);
    // planes that enclose a small angle
    int cnt = 0; for (R tilt : {5e-2L, -1e-2L, 4e-3L, PI - 2e-2L}) for (R w : {0.0L, 0.7L, PI / 2}) for (auto& a : SS) for (auto& b : SS) for (V o : {V{0, 0, 0}, V{0.5L, -0.25L, 0}, V{-0.25L, 0.75L, 2e-3L}, V{1.5L, 0, 0}, V{0.1L, 0.2L, 0.5L}}) for (const Pose* T : {&I, &P[1], &P[3]})
    {
        if (!vf::thorough && cnt++ % 3) continue; if (!vf::begin(vf::cat("flat/", a.name, "/", b.name, "/", (double)tilt, "/", (double)w, "/", str(o), "@", T->name))) continue;
        V u{std::cos(w), std::sin(w), 0}, v{-std::sin(w), std::cos(w), 0}; Frame F; F.cx = u; F.cy = v * std::cos(tilt) + V{0, 0, std::sin(tilt)}; F.cz = F.cx.cross(F.cy); F.t = o; vf::guarded("setup", [&] { pair(a, F0, b, F, *T); });
    }
    // a small shape that pierces a much larger one only slightly, or misses it by little
    for (R big : {20.0L, 500.0L}) for (auto& a : SS) for (auto& b : SS) for (R g : {1e-3L, -1e-1L, -2e-2L, -1e-3L}) for (R w : {0.0L, 0.5L, -2.1L}) for (R lean : {0.0L, 0.6L}) for (const Pose* T : {&I, &P[1], &P[4]})
    {
        if (!vf::thorough && cnt++ % 3) continue; if (!vf::begin(vf::cat("pierce/", (double)big, "/", a.name, "/", b.name, "/", (double)g, "/", (double)w, "/", (double)lean, "@", T->name))) continue;
        Shape2 A = a; A.a *= big; A.b *= big; for (auto& c : A.ring) c = c * big; R lo = b.kind == 'D' ? -b.b : 1e300L; for (auto& c : b.ring) lo = std::min(lo, c.y); Frame F; F.cx = {std::cos(w), std::sin(w), 0}; F.cy = V{0, 0, std::cos(lean)} + V{-std::sin(w), std::cos(w), 0} * std::sin(lean); F.cz = F.cx.cross(F.cy); F.t = {0.1L * big, -0.07L * big, g - lo * std::cos(lean)};
        vf::guarded("setup", [&] { PRes e = isect2(A, F0, b, F); if (e.k == 's' || e.k == 'e') { auto go = [&](const std::string& what, auto&& call) { vf::step(); PRes r; try { r = get(call()); } catch (...) { vf::check(false, "pierce exception", str(e)); return; } V ea = T->map(e.a), eb = T->map(e.b); const R tol = 2e-6L * T->s + 4e-7L + 1e-9L * big * T->s; if (e.k == 's' && (e.b - e.a).len() < 1e-3L) { vf::skip(); return; }
            vf::check(r.k == e.k && (e.k == 'e' || ((r.a - ea).len() <= tol && (r.b - eb).len() <= tol) || ((r.a - eb).len() <= tol && (r.b - ea).len() <= tol)), "pierce" + what + " " + e.k + "->" + r.k, [&] { return vf::cat("got ", str(r), " expected ", str(PRes{e.k, ea, eb})); }); vf::outcome(vf::cat("pierce ", e.k)); };
            withShape(A, F0, *T, {}, [&](const auto& g1) { withShape(b, F, *T, {}, [&](const auto& g2) { using X = std::decay_t<decltype(g1)>; using Y = std::decay_t<decltype(g2)>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>;
                if constexpr (!(std::is_same_v<X, Q> && std::is_same_v<Y, Po>) && !(std::is_same_v<X, Po> && std::is_same_v<Y, Q>)) { go("", [&] { return intersect(g1, g2); }); go(" swapped", [&] { return intersect(g2, g1); }); } }); }); } });
    }
    return vf::finish();
}
