// Reference geometry in long double, poses, and conversion to Frackit types.
#pragma once
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <functional>
#include <memory>
#include <cassert>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include "vf.hh"

namespace ref {
using R = long double;
static const R PI = 3.14159265358979323846264338327950288L;
struct V { R x = 0, y = 0, z = 0;
    V operator+(const V& o) const { return {x + o.x, y + o.y, z + o.z}; }
    V operator-(const V& o) const { return {x - o.x, y - o.y, z - o.z}; }
    V operator*(R f) const { return {x * f, y * f, z * f}; }
    R dot(const V& o) const { return x * o.x + y * o.y + z * o.z; }
    V cross(const V& o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    R n2() const { return dot(*this); } R len() const { return std::sqrt(n2()); }
    V unit() const { R l = len(); return {x / l, y / l, z / l}; }
};
inline std::string str(const V& v) { return vf::cat("(", (double)v.x, ",", (double)v.y, ",", (double)v.z, ")"); }

struct Pose
{
    std::string name; V cx{1, 0, 0}, cy{0, 1, 0}, cz{0, 0, 1}; V t; R s = 1; bool lattice = true;
    V rot(const V& v) const { return cx * v.x + cy * v.y + cz * v.z; }
    V map(const V& v) const { return (rot(v) + t) * s; }       // translation is relative to the size
    V inv(const V& w) const { V d = w * (1 / s) - t; return {d.dot(cx), d.dot(cy), d.dot(cz)}; }
    V invRot(const V& d) const { return {d.dot(cx), d.dot(cy), d.dot(cz)}; }
};
//! the 24 proper lattice rotations
inline std::vector<Pose> latticeRotations()
{
    std::vector<Pose> r; int p[3] = {0, 1, 2};
    auto e = [](int i, int s) { V v; (i == 0 ? v.x : i == 1 ? v.y : v.z) = s; return v; };
    do for (int m = 0; m < 8; ++m)
    {
        Pose q; q.cx = e(p[0], m & 1 ? -1 : 1); q.cy = e(p[1], m & 2 ? -1 : 1); q.cz = e(p[2], m & 4 ? -1 : 1);
        if (q.cx.cross(q.cy).dot(q.cz) > 0) { q.name = vf::cat("L", r.size()); r.push_back(q); }
    } while (std::next_permutation(p, p + 3));
    // identity first
    for (auto& q : r) if (q.cx.x == 1 && q.cy.y == 1) { std::swap(r[0].cx, q.cx); std::swap(r[0].cy, q.cy); std::swap(r[0].cz, q.cz); break; }
    return r;
}
//! oblique rotations with rational entries
inline std::vector<Pose> obliqueRotations()
{
    std::vector<Pose> r;
    auto add = [&](V a, V b, V c, const char* n) { Pose q; q.cx = a; q.cy = b; q.cz = c; q.name = n; q.lattice = false; r.push_back(q); };
    R t = 1.0L / 3; add({2 * t, 2 * t, -t}, {-t, 2 * t, 2 * t}, {2 * t, -t, 2 * t}, "O122");
    add({.6L, .8L, 0}, {-.8L, .6L, 0}, {0, 0, 1}, "O345z"); add({1, 0, 0}, {0, .6L, .8L}, {0, -.8L, .6L}, "O345x"); add({.8L, 0, -.6L}, {0, 1, 0}, {.6L, 0, .8L}, "O345y");
    R s = 1.0L / 7; add({2 * s, 3 * s, 6 * s}, {6 * s, 2 * s, -3 * s}, {-3 * s, 6 * s, -2 * s}, "O236");
    if (r.back().cx.cross(r.back().cy).dot(r.back().cz) < 0) r.back().cz = r.back().cz * -1;
    for (auto& q : r) { // guard against typos: exact orthonormal, right handed
        if (std::abs(q.cx.cross(q.cy).dot(q.cz) - 1) > 1e-15L || std::abs(q.cx.dot(q.cy)) > 1e-15L || std::abs(q.cx.dot(q.cz)) > 1e-15L || std::abs(q.cy.dot(q.cz)) > 1e-15L) { std::cerr << "bad rotation " << q.name << "\n"; _exit(9); } }
    return r;
}
inline std::vector<Pose> combine(const std::vector<Pose>& rots, const std::vector<V>& ts, const std::vector<R>& scales)
{
    std::vector<Pose> r;
    for (auto& q : rots) for (auto& t : ts) for (R s : scales) { Pose p = q; p.t = t; p.s = s; p.name = vf::cat(q.name, "+", str(t), "*", (double)s); r.push_back(p); }
    return r;
}
inline std::vector<Pose> allRotations() { auto r = latticeRotations(); auto o = obliqueRotations(); r.insert(r.end(), o.begin(), o.end()); return r; }

using FP = Frackit::Point<double, 3>; using FV = Frackit::Vector<double, 3>; using FD = Frackit::Direction<double, 3>;
inline FP pt(const V& v) { return FP(double(v.x), double(v.y), double(v.z)); }
inline FV vec(const V& v) { return FV(double(v.x), double(v.y), double(v.z)); }
inline FD dir(const V& v) { return FD(vec(v)); }
template<class P> inline V from(const P& p) { return {(R)p.x(), (R)p.y(), (R)p.z()}; }
template<class D> inline V fromDir(const D& d) { return {(R)d.x(), (R)d.y(), (R)d.z()}; }

// ---- distances to local reference sets (0 if inside) ----
inline R distSeg(const V& p, const V& a, const V& b) { V d = b - a; R t = d.n2() > 0 ? std::clamp((p - a).dot(d) / d.n2(), (R)0, (R)1) : 0; return (p - (a + d * t)).len(); }
inline R distLine(const V& p, const V& a, const V& d) { return (p - (a + d * ((p - a).dot(d) / d.n2()))).len(); }
//! convex planar polygon given by ordered corners
inline bool inConvex(const V& p, const std::vector<V>& c, R tol = 1e-15L)
{ V n = (c[1] - c[0]).cross(c[2] - c[0]).unit(); for (size_t i = 0; i < c.size(); ++i) { V e = (c[(i + 1) % c.size()] - c[i]); if (n.cross(e.unit()).dot(p - c[i]) < -tol) return false; } return true; }
inline R distPolyBoundary(const V& p, const std::vector<V>& c) { R m = 1e300L; for (size_t i = 0; i < c.size(); ++i) m = std::min(m, distSeg(p, c[i], c[(i + 1) % c.size()])); return m; }
inline R distPoly(const V& p, const std::vector<V>& c)
{ V n = (c[1] - c[0]).cross(c[2] - c[0]).unit(); R h = n.dot(p - c[0]); V q = p - n * h; return inConvex(q, c) ? std::abs(h) : distPolyBoundary(p, c); }
inline R polyArea(const std::vector<V>& c) { V s; for (size_t i = 1; i + 1 < c.size(); ++i) s = s + (c[i] - c[0]).cross(c[i + 1] - c[0]); return s.len() / 2; }
inline V polyCenter(const std::vector<V>& c)
{ V n = (c[1] - c[0]).cross(c[2] - c[0]); V s; R A = 0; for (size_t i = 1; i + 1 < c.size(); ++i) { R a = (c[i] - c[0]).cross(c[i + 1] - c[0]).dot(n); s = s + (c[0] + c[i] + c[i + 1]) * (a / 3); A += a; } return s * (1 / A); }
//! distance of a point (local xy) to the ellipse curve x=a cos, y=b sin within [phi0, phi1] (phi1 > phi0)
inline R distArc(const V& p, R a, R b, R phi0, R phi1, R* best = nullptr)
{
    auto f = [&](R t) { R dx = p.x - a * std::cos(t), dy = p.y - b * std::sin(t); return dx * dx + dy * dy; };
    R bm = f(phi0), bt = phi0; if (f(phi1) < bm) { bm = f(phi1); bt = phi1; }
    const int N = 360; R h = (phi1 - phi0) / N, v[N + 3]; const bool closed = phi1 - phi0 >= 2 * PI - 1e-12L;
    for (int i = -1; i <= N + 1; ++i) v[i + 1] = f(phi0 + i * h);
    // refine every local minimum of the sampling (flat ellipses have one on each side)
    for (int k = 0; k <= N; ++k) if (v[k + 1] <= v[k] && v[k + 1] <= v[k + 2] || !closed && (k == 0 || k == N))
    {
        R lo = phi0 + (k - 1) * h, hi = phi0 + (k + 1) * h; if (!closed) { lo = std::max(phi0, lo); hi = std::min(phi1, hi); }
        for (int it = 0; it < 200 && hi - lo > 1e-18L; ++it) { R m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3; if (f(m1) < f(m2)) hi = m2; else lo = m1; }
        if (f((lo + hi) / 2) < bm) { bm = f((lo + hi) / 2); bt = (lo + hi) / 2; }
    }
    if (best) *best = bt;
    return std::sqrt(bm + p.z * p.z);
}
inline R distEllipse(const V& p, R a, R b) { return distArc(p, a, b, -PI, PI); }
inline R distDisk(const V& p, R a, R b) { return p.x * p.x / (a * a) + p.y * p.y / (b * b) <= 1 + 1e-15L ? std::abs(p.z) : distEllipse(p, a, b); }
inline R distBox(const V& p, const V& lo, const V& hi) { auto o = [](R v, R l, R h) { return v < l ? l - v : v > h ? v - h : (R)0; }; return V{o(p.x, lo.x, hi.x), o(p.y, lo.y, hi.y), o(p.z, lo.z, hi.z)}.len(); }
//! hollow cylinder r0..r1 along z in [0,h]
inline R distTube(const V& p, R r0, R r1, R h) { R r = std::hypot(p.x, p.y); R dr = r < r0 ? r0 - r : r > r1 ? r - r1 : 0; R dz = p.z < 0 ? -p.z : p.z > h ? p.z - h : 0; return std::hypot(dr, dz); }
} // namespace ref
