// Planar entities (disk, quadrilateral, polygon) placed in a scene by a frame, with exact 1d sections.
#pragma once
#include "geo.hh"
#include <variant>
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>

namespace ref {
struct Shape2 { char kind; R a = 0, b = 0; std::vector<V> ring; std::string name;
    R size() const { if (kind == 'D') return a; R m = 0; for (auto& p : ring) m = std::max(m, p.len()); return m; } };
inline Shape2 disk2(R a, R b) { return {'D', a, b, {}, vf::cat("disk", (double)a, "x", (double)b)}; }
inline Shape2 ring2(char k, const char* n, std::vector<V> r) { return {k, 0, 0, r, std::string(k == 'Q' ? "quad-" : "poly-") + n}; }
struct Frame : Pose { Frame() {} Frame(const Pose& p, const V& o) : Pose(p) { t = o; s = 1; } }; // scene = rot(v) + origin
inline V toScene(const Frame& F, const V& v) { return F.rot(v) + F.t; }
inline V toLocal(const Frame& F, const V& v) { return F.invRot(v - F.t); }
//! the section of the shape with the in-plane line q + t k (local coordinates); false if empty
inline bool section(const Shape2& S, const V& q, const V& k, R& lo, R& hi)
{
    if (S.kind == 'D') { R A = k.x * k.x / (S.a * S.a) + k.y * k.y / (S.b * S.b), B = (q.x * k.x / (S.a * S.a) + q.y * k.y / (S.b * S.b)) / A, C = (q.x * q.x / (S.a * S.a) + q.y * q.y / (S.b * S.b) - 1) / A, D = B * B - C; if (D < -1e-14L * (1 + B * B)) return false; D = D <= 1e-14L * (1 + B * B) ? 0 : std::sqrt(D); lo = -B - D; hi = -B + D; return true; }
    lo = -1e9L; hi = 1e9L; size_t n = S.ring.size();
    for (size_t i = 0; i < n; ++i) { V e = S.ring[(i + 1) % n] - S.ring[i]; V nn = V{-e.y, e.x, 0}.unit(); R s = nn.dot(q - S.ring[i]), d = nn.dot(k); if (std::abs(d) < 1e-14L * k.len()) { if (s < -1e-13L) return false; } else if (d > 0) lo = std::max(lo, -s / d); else hi = std::min(hi, -s / d); }
    if (lo > hi + 1e-12L) return false; if (lo > hi) lo = hi = (lo + hi) / 2; return true;
}
//! distance of a scene point to the placed shape / to its boundary
inline R dist2(const Shape2& S, const Frame& F, const V& p) { V q = toLocal(F, p); return S.kind == 'D' ? distDisk(q, S.a, S.b) : distPoly(q, S.ring); }
inline R distB2(const Shape2& S, const Frame& F, const V& p) { V q = toLocal(F, p); return S.kind == 'D' ? distEllipse(q, S.a, S.b) : distPolyBoundary(q, S.ring); }
//! presentation: corner shift, reversal; for disks axis signs
struct Pres { int shift = 0; bool rev = false; };
inline Frackit::Disk<double> mkDisk(const Shape2& S, const Frame& F, const Pose& T, Pres P = {})
{ R sx = P.shift & 1 ? -1 : 1, sy = P.rev ? -1 : 1; return Frackit::Disk<double>(pt(T.map(F.t)), dir(T.rot(F.cx * sx)), dir(T.rot(F.cy * sy)), double(S.a * T.s), double(S.b * T.s)); }
inline std::vector<FP> mkRing(const Shape2& S, const Frame& F, const Pose& T, Pres P) { std::vector<FP> r; int n = S.ring.size(); for (int i = 0; i < n; ++i) r.push_back(pt(T.map(toScene(F, S.ring[(P.shift + (P.rev ? n - i : i)) % n])))); return r; }
inline Frackit::Quadrilateral<double, 3> mkQuad(const Shape2& S, const Frame& F, const Pose& T, Pres P = {}) { auto r = mkRing(S, F, T, P); return {r[0], r[1], r[3], r[2]}; }
inline Frackit::Polygon<double, 3> mkPoly(const Shape2& S, const Frame& F, const Pose& T, Pres P = {}) { return Frackit::Polygon<double, 3>(mkRing(S, F, T, P)); }
template<class Fn> auto withShape(const Shape2& S, const Frame& F, const Pose& T, Pres P, Fn&& f)
{ return S.kind == 'D' ? f(mkDisk(S, F, T, P)) : S.kind == 'Q' ? f(mkQuad(S, F, T, P)) : f(mkPoly(S, F, T, P)); }

//! intersection result: e(mpty), p(oint), s(egment)
struct PRes { char k = 'e'; V a, b; bool judged = true; };
inline std::string str(const PRes& r) { return std::string(1, r.k) + (r.k == 'e' ? "" : str(r.a)) + (r.k == 's' ? str(r.b) : ""); }
//! exact intersection of two placed shapes; judged=false where the decision is closer than 1e-5 but not exact
inline PRes isect2(const Shape2& S1, const Frame& F1, const Shape2& S2, const Frame& F2)
{
    V n = F1.cz.cross(F2.cz); if (n.len() < 1e-12L) { PRes r; R off = (F2.t - F1.t).dot(F1.cz); r.judged = std::abs(off) > 1e-6L; return r; }
    R n12 = F1.cz.dot(F2.cz), c1 = F1.cz.dot(F1.t), c2 = F2.cz.dot(F2.t), det = 1 - n12 * n12; V p = F1.cz * ((c1 - c2 * n12) / det) + F2.cz * ((c2 - c1 * n12) / det), k = n.unit();
    R l1, h1, l2, h2; const bool i1 = section(S1, toLocal(F1, p), F1.invRot(k), l1, h1), i2 = section(S2, toLocal(F2, p), F2.invRot(k), l2, h2);
    PRes r; const R sz = std::max(S1.size(), S2.size());
    // near misses of the line (tangency) are not judged
    auto nearMiss = [&](const Shape2& S, const Frame& F, bool hit, R l, R h) { if (hit) return h - l > 1e-12L * sz && h - l < 1e-3L * sz; R a, b; Shape2 W = S; R g = 1 + 1e-5L; if (W.kind == 'D') { W.a *= g; W.b *= g; } else for (auto& c : W.ring) c = c * g; return section(W, toLocal(F, p), F.invRot(k), a, b); };
    if (nearMiss(S1, F1, i1, l1, h1) || nearMiss(S2, F2, i2, l2, h2)) r.judged = false;
    if (!i1 || !i2) return r;
    R lo = std::max(l1, l2), hi = std::min(h1, h2), gap = hi - lo;
    if (std::abs(gap) <= 1e-10L * sz) { r.k = 'p'; r.a = p + k * ((lo + hi) / 2); } else if (gap > 0) { r.k = 's'; r.a = p + k * lo; r.b = p + k * hi; if (gap < 1e-5L * sz) r.judged = false; } else if (gap > -1e-5L * sz) r.judged = false;
    return r;
}
//! standard shapes and placements
inline std::vector<Shape2> stdShapes()
{
    return {disk2(1, 1), disk2(2, 1), disk2(1, 0.25L), ring2('Q', "square", {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}), ring2('Q', "skew", {{-1, -0.5L, 0}, {1.5L, -1, 0}, {1, 1, 0}, {-0.5L, 0.5L, 0}}), ring2('Q', "rhomb", {{-2, 0, 0}, {0, -0.5L, 0}, {2, 0, 0}, {0, 0.5L, 0}}),
            ring2('P', "tri", {{-1, -1, 0}, {1, -1, 0}, {0, 1, 0}}), ring2('P', "penta", {{-1, -1, 0}, {1, -1, 0}, {1.5L, 0, 0}, {0, 1, 0}, {-1, 0.5L, 0}}), ring2('P', "hexa", {{1, 0, 0}, {0.5L, 1, 0}, {-0.5L, 1, 0}, {-1, 0, 0}, {-0.5L, -1, 0}, {0.5L, -1, 0}})};
}
inline std::vector<Shape2> bigShapes() { return {disk2(40, 40), disk2(100, 30), ring2('Q', "big", {{-40, -30, 0}, {40, -30, 0}, {40, 30, 0}, {-40, 30, 0}}), ring2('P', "big", {{-40, -30, 0}, {40, -30, 0}, {50, 0, 0}, {40, 30, 0}, {-40, 30, 0}})}; }
//! rotations whose plane is not parallel to z=0
inline std::vector<Pose> tiltedRotations() { std::vector<Pose> r; for (auto& q : latticeRotations()) if (std::abs(q.cz.z) < 0.5L) r.push_back(q); std::vector<Pose> s{r[0], r[3], r[6], r[9]}; for (auto& q : obliqueRotations()) if (std::abs(q.cz.z) < 0.999L) s.push_back(q); return s; }
} // namespace ref
