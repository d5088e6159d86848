// C06: intersections of segments, lines and planes (and lines with disks / quadrilaterals).
#include "geo.hh"
#include <variant>
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/intersection/intersect.hh>
using namespace Frackit; using namespace ref;
using S3 = Segment<double, 3>; using L3 = Line<double, 3>; using P3 = Plane<double, 3>;
//! result: e(mpty), p(oint), s(egment), l(ine), a (plane)
struct Res { char k = 'e'; V a, b; };
static std::string str(const Res& r) { return std::string(1, r.k) + (r.k == 'e' ? "" : str(r.a)) + (r.k == 's' || r.k == 'l' || r.k == 'a' ? str(r.b) : ""); }
template<class Var> static Res get(const Var& v) { return std::visit([](const auto& g) -> Res { using G = std::decay_t<decltype(g)>; if constexpr (std::is_same_v<G, FP>) return {'p', from(g), {}}; else if constexpr (std::is_same_v<G, S3>) return {'s', from(g.source()), from(g.target())}; else if constexpr (std::is_same_v<G, L3>) return {'l', from(g.supportingPoint()), fromDir(g.direction())}; else if constexpr (std::is_same_v<G, P3>) return {'a', from(g.supportingPoint()), fromDir(g.normal())}; else return {}; }, v); }
static bool same(const Res& g, const Res& e, R tol)
{
    if (g.k != e.k) return false;
    switch (g.k) { case 'e': return true; case 'p': return (g.a - e.a).len() <= tol; case 's': return ((g.a - e.a).len() <= tol && (g.b - e.b).len() <= tol) || ((g.a - e.b).len() <= tol && (g.b - e.a).len() <= tol);
        case 'l': return g.b.cross(e.b).len() < 1e-7L && distLine(g.a, e.a, e.b) <= tol; case 'a': return g.b.cross(e.b).len() < 1e-7L && std::abs((g.a - e.a).dot(e.b)) <= tol; } return false;
}
static Res world(Res r, const Pose& T) { r.a = T.map(r.a); r.b = r.k == 'l' || r.k == 'a' ? T.rot(r.b.unit()) : T.map(r.b); return r; }
template<class F> static void judge(const std::string& what, const Pose& T, const Res& local, F&& call, const std::string& info)
{
    vf::step(); Res e = world(local, T), g; R tol = T.s * (1e-6L + 1e-12L * T.t.len()) + 2e-7L;
    try { g = get(call()); } catch (const std::exception& x) { vf::check(false, what + " " + local.k, vf::cat(info, ": exception ", x.what(), ", expected ", str(e))); return; } catch (...) { vf::check(false, what + " " + local.k, vf::cat(info, ": OCC exception, expected ", str(e))); return; }
    vf::check(same(g, e, tol), what + " " + local.k + "->" + g.k, [&] { return vf::cat(info, ": got ", str(g), " expected ", str(e)); }); vf::outcome(what + " " + local.k);
}
static Res segseg(const V& a, const V& b, const V& c, const V& d)
{
    V u = b - a, w = d - c, n = u.cross(w), r = c - a;
    if (n.n2() == 0) { if (u.cross(r).n2() > 1e-12L) return {}; R t0 = r.dot(u) / u.n2(), t1 = (d - a).dot(u) / u.n2(); if (t0 > t1) std::swap(t0, t1); t0 = std::max(t0, (R)0); t1 = std::min(t1, (R)1); if (t0 > t1) return {}; if (t0 == t1) return {'p', a + u * t0, {}}; return {'s', a + u * t0, a + u * t1}; }
    if (std::abs(r.dot(n)) > 1e-12L) return {}; R t = r.cross(w).dot(n) / n.n2(), q = r.cross(u).dot(n) / n.n2(); if (t < 0 || t > 1 || q < 0 || q > 1) return {}; return {'p', a + u * t, {}};
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto L = latticeRotations(), O = obliqueRotations(); std::vector<Pose> P;
    auto app = [&](const std::vector<Pose>& q) { P.insert(P.end(), q.begin(), q.end()); };
    if (vf::thorough) { app(combine(allRotations(), {{0, 0, 0}, {10, -7, 3}}, {1.0L})); app(combine({L[0], O[0]}, {{-100, 50, 25}}, {1e-3L, 1e3L})); } else { app(combine({L[0], O[0], O[4]}, {{0, 0, 0}}, {1.0L})); app(combine({L[7], O[0]}, {{10, -7, 3}}, {1e-2L, 1e3L})); }
    std::vector<V> lat; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = -1; z < 2; ++z) lat.push_back({(R)x, (R)y, (R)z});
    const std::vector<std::pair<V, V>> firsts{{{0, 0, 0}, {2, 0, 0}}, {{0, 1, 0}, {2, 1, 0}}, {{1, 0, -1}, {1, 0, 1}}, {{0, 0, 0}, {2, 2, 0}}, {{0, 1, 0}, {2, 2, 0}}, {{0, 0, -1}, {2, 2, 1}}, {{1, 1, 0}, {2, 1, 0}}};
    for (auto& T : P)
    {
        for (size_t fi = 0; fi < firsts.size(); ++fi) for (size_t i = 0; i < lat.size(); ++i) if (vf::begin(vf::cat("segments", fi, str(lat[i]), "@", T.name))) for (size_t j = 0; j < lat.size(); ++j) if (i != j)
        {
            auto [a, b] = firsts[fi]; V c = lat[i], d = lat[j]; Res e = segseg(a, b, c, d); S3 s1(pt(T.map(a)), pt(T.map(b))), s2(pt(T.map(c)), pt(T.map(d))); const auto info = str(a) + str(b) + str(c) + str(d);
            judge("segment-segment", T, e, [&] { return intersect(s1, s2); }, info); judge("segment-segment", T, e, [&] { return intersect(s2, s1); }, info + " swapped");
            if ((i + j) % 4 == 0) judge("segment-segment eps", T, e, [&] { return intersect(s1, s2, double(1e-6L * T.s)); }, info);
        }
        // collinear segments: all pairs of directed intervals on {0..4} (every relation of two intervals), in 13 directions
        for (auto& u : std::vector<V>{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, -1, 0}, {1, 0, 1}, {0, 1, -1}, {1, 1, 1}, {1, -1, 1}, {2, 1, 0}, {1, 2, -2}, {0.5L, 0, 0}, {0.25L, 0.5L, -0.5L}}) if (vf::begin(vf::cat("collinear", str(u), "@", T.name)))
            for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c) for (int d = 0; d < 5; ++d) if (a != b && c != d)
            {
                V o{0.5L, -1, 0.25L}, A = o + u * a, B = o + u * b, C = o + u * c, D = o + u * d; Res e = segseg(A, B, C, D); S3 s1(pt(T.map(A)), pt(T.map(B))), s2(pt(T.map(C)), pt(T.map(D)));
                judge("segment-segment collinear", T, e, [&] { return intersect(s1, s2); }, vf::cat(a, b, c, d, "*", str(u)));
                if ((a + b + c + d) % 3 == 0) judge("segment-segment collinear eps", T, e, [&] { return intersect(s1, s2, double(1e-6L * T.s)); }, vf::cat(a, b, c, d, "*", str(u)));
            }
        // segments of very different length: a short one on / across / beside a long one
        for (R len : {20.0L, 100.0L}) for (auto& u : std::vector<V>{{1, 0, 0}, {0.6L, 0.8L, 0}, {2 / 3.0L, -2 / 3.0L, 1 / 3.0L}}) if (vf::begin(vf::cat("long", (double)len, str(u), "@", T.name)))
            for (int k = 0; k <= 8; ++k) for (int mode = 0; mode < 8; ++mode)
            {
                V w = std::abs(u.z) < 0.5L ? V{0, 0, 1}.cross(u).unit() : V{1, 0, 0}.cross(u).unit(), o = u * (len * k / 8), A{0, 0, 0}, B = u * len, C, D; Res e;
                switch (mode) { case 0: C = o - w; D = o + w; break; case 1: C = o; D = o + w; break; case 2: C = o + w * 0.5L; D = o + w * 2; break; case 3: C = o - w - u; D = o + w + u; break; case 4: C = o; D = o + u; break; case 5: C = o - u * 0.5L; D = o + u * 0.5L; break; case 6: C = o - u + w; D = o + u + w; break; default: C = o + u * 1.5L - w; D = o + u * 1.5L + w; }
                // exact in local parameters along u and w
                auto P = [&](const V& q) { return V{q.dot(u), q.dot(w), 0}; }; auto rnd = [](V q) { q.x = std::round(q.x * 1e6L) / 1e6L; q.y = std::round(q.y * 1e6L) / 1e6L; return q; };
                e = segseg(rnd(P(A)), rnd(P(B)), rnd(P(C)), rnd(P(D))); auto up = [&](const V& q) { return u * q.x + w * q.y; }; e.a = up(e.a); e.b = up(e.b);
                S3 s1(pt(T.map(A)), pt(T.map(B))), s2(pt(T.map(C)), pt(T.map(D))); const auto info = vf::cat("length ", (double)len, " at ", k, "/8, mode ", mode); Pose U = T; 
                judge("segment-segment long", U, e, [&] { return intersect(s1, s2); }, info); judge("segment-segment long", U, e, [&] { return intersect(s2, s1); }, info + " swapped");
            }
        // planes and lines
        std::vector<V> dirs; for (int x = -1; x <= 2; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) dirs.push_back({(R)x, (R)y, (R)z});
        std::vector<V> pts{{0, 0, 0}, {1, 0, 0}, {0.5L, -1, 2}, {0, 1, 1}};
        for (auto& n1 : dirs) if (vf::begin(vf::cat("planes", str(n1), "@", T.name))) for (auto& p1 : pts) for (auto& n2 : dirs) for (auto& p2 : pts)
        {
            P3 A(pt(T.map(p1)), dir(T.rot(n1))), B(pt(T.map(p2)), dir(T.rot(n2))); L3 l(pt(T.map(p2)), dir(T.rot(n2))); const auto info = vf::cat(str(p1), str(n1), str(p2), str(n2));
            Res e; V n = n1.cross(n2); R off = (p2 - p1).dot(n1);
            if (n.n2() == 0) { if (off == 0) e = {'a', p1, n1}; } else { // point on both planes
                R c1 = n1.dot(p1), c2 = n2.dot(p2), n11 = n1.n2(), n22 = n2.n2(), n12 = n1.dot(n2), det = n11 * n22 - n12 * n12; e = {'l', n1 * ((c1 * n22 - c2 * n12) / det) + n2 * ((c2 * n11 - c1 * n12) / det), n}; }
            judge("plane-plane", T, e, [&] { return intersect(A, B); }, info);
            Res f; R dn = n1.dot(n2); if (dn == 0) { if (off == 0) f = {'l', p2, n2}; } else f = {'p', p2 + n2 * (-off / dn), {}};
            judge("plane-line", T, f, [&] { return intersect(A, l); }, info); judge("line-plane", T, f, [&] { return intersect(l, A); }, info); judge("plane-line eps", T, f, [&] { return intersect(A, l, double(1e-6L * T.s)); }, info); judge("plane-plane eps", T, e, [&] { return intersect(A, B, double(1e-6L * T.s)); }, info);
        }
        // lines with disks and quadrilaterals in the plane z = 0
        auto lines = [&](auto&& f, R h) { for (auto& d : dirs) for (R x = -3; x <= 3; x += h) for (R y = -3; y <= 3; y += h) for (R z : {0.0L, 1.0L}) { if (z != 0 && d.z != 0) continue; f(V{x, y, z}, d); } };
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {2.5L, 2.5L}, {2.5L, 0.5L}}) for (int part = 0; part < 8; ++part) if (vf::begin(vf::cat("disk-line", (double)a, ",", (double)b, ",", part, "@", T.name)))
        {
            Disk<double> D(pt(T.map({0, 0, 0})), dir(T.rot({1, 0, 0})), dir(T.rot({0, 1, 0})), double(a * T.s), double(b * T.s)); int cnt = 0;
            lines([&, a = a, b = b](const V& p, const V& d) { if (cnt++ % 8 != part) return; L3 l(pt(T.map(p)), dir(T.rot(d))); const auto info = str(p) + str(d); Res e;
                if (d.z != 0) { V q = p - d * (p.z / d.z); R v = q.x * q.x / (a * a) + q.y * q.y / (b * b); if (v <= 1) e = {'p', q, {}}; }
                else if (p.z == 0) { R A = d.x * d.x / (a * a) + d.y * d.y / (b * b), B = p.x * d.x / (a * a) + p.y * d.y / (b * b), C = p.x * p.x / (a * a) + p.y * p.y / (b * b) - 1, q = B * B - A * C; if (std::abs(q) < 1e-15L) e = {'p', p + d * (-B / A), {}}; else if (q > 0) e = {'s', p + d * ((-B - std::sqrt(q)) / A), p + d * ((-B + std::sqrt(q)) / A)}; }
                judge("disk-line", T, e, [&] { return intersect(D, l); }, info); if (cnt % 3 == 0) { judge("line-disk", T, e, [&] { return intersect(l, D); }, info); judge("disk-line eps", T, e, [&] { return intersect(D, l, double(1e-6L * T.s)); }, info); } }, 0.5L);
        }
        std::vector<std::vector<V>> quads{{{0, 0, 0}, {2, 0, 0}, {2, 1, 0}, {0, 1, 0}}, {{-1, -1, 0}, {2, 0, 0}, {1, 2, 0}, {-1, 1, 0}}, {{0, 2, 0}, {2, 0, 0}, {0, -2, 0}, {-2, 0, 0}}, {{-3, 0, 0}, {0, -0.5L, 0}, {3, 0, 0}, {0, 0.5L, 0}}};
        for (size_t qi = 0; qi < quads.size(); ++qi) for (int part = 0; part < 8; ++part) if (vf::begin(vf::cat("quad-line", qi, ",", part, "@", T.name)))
        {
            auto c = quads[qi]; if ((c[1] - c[0]).cross(c[2] - c[0]).z < 0) c = {c[0], c[3], c[2], c[1]}; auto w = [&](int i) { return pt(T.map(c[i])); }; Quadrilateral<double, 3> Q(w(0), w(1), w(3), w(2)); int cnt = 0;
            lines([&](const V& p, const V& d) { if (cnt++ % 8 != part) return; L3 l(pt(T.map(p)), dir(T.rot(d))); const auto info = str(p) + str(d); Res e;
                if (d.z != 0) { V q = p - d * (p.z / d.z); if (inConvex(q, c, 1e-15L)) e = {'p', q, {}}; }
                else if (p.z == 0) { R lo = -1e9L, hi = 1e9L; for (int i = 0; i < 4; ++i) { V ed = c[(i + 1) % 4] - c[i], n{-ed.y, ed.x, 0}; R s = n.dot(p - c[i]), k = n.dot(d); if (k == 0) { if (s < 0) hi = -1e9L, lo = 1e9L; } else if (k > 0) lo = std::max(lo, -s / k); else hi = std::min(hi, -s / k); } if (hi - lo > 1e-12L) e = {'s', p + d * lo, p + d * hi}; else if (hi - lo > -1e-12L) e = {'p', p + d * lo, {}}; }
                judge("quad-line", T, e, [&] { return intersect(Q, l); }, info); if (cnt % 3 == 0) { judge("line-quad", T, e, [&] { return intersect(l, Q); }, info); judge("quad-line eps", T, e, [&] { return intersect(Q, l, double(1e-6L * T.s)); }, info); } }, 0.5L);
        }
    }
    return vf::finish();
}
