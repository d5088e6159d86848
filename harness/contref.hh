// Measure of the part of a placed entity inside a domain (box, cylinder, sphere).
#pragma once
#include "ents.hh"
//! interval of the line q + t k (domain coordinates) inside a convex domain
static bool clip(const Ent& D, const V& q, const V& k, R& lo, R& hi)
{
    auto slab = [&](R s, R d, R w) { if (std::abs(d) < 1e-15L) { if (s < -1e-12L || s > w + 1e-12L) { lo = 1; hi = 0; } return; } R a = -s / d, b = (w - s) / d; if (a > b) std::swap(a, b); lo = std::max(lo, a); hi = std::min(hi, b); };
    if (D.k == 'B') { slab(q.x, k.x, D.a); slab(q.y, k.y, D.b); slab(q.z, k.z, D.c); } else
    { R A = k.x * k.x + k.y * k.y, B = q.x * k.x + q.y * k.y, C = q.x * q.x + q.y * q.y - D.a * D.a; if (D.k == 'S') { A += k.z * k.z; B += q.z * k.z; C += q.z * q.z; }
      if (A < 1e-15L) { if (C > 1e-12L) return false; } else { R d = B * B - A * C; if (d < 0) return false; d = std::sqrt(d); lo = std::max(lo, (-B - d) / A); hi = std::min(hi, (-B + d) / A); } if (D.k == 'C') slab(q.z, k.z, D.c); }
    return hi > lo;
}
static bool inside(const Ent& D, const V& q) { return localDist(D, q) <= 0; }
//! measure of entity (placed by F relative to the domain) inside the domain
static R containedRef(const Ent& e, const Frame& F, const Ent& D)
{
    if (e.k == 'p') return 0;
    if (e.k == 's') { V a = toScene(F, {0, 0, 0}), b = toScene(F, {e.a, e.b, e.c}) - a; R lo = 0, hi = 1; return clip(D, a, b, lo, hi) ? (hi - lo) * b.len() : 0; }
    const int N = vf::thorough ? 20000 : 8000;
    if (isCurve(e))
    {
        R lo = e.k == 'a' ? e.c : -PI, hi = e.k == 'a' ? e.d : PI, h = (hi - lo) / N, s = 0; auto at = [&](R t) { return toScene(F, {e.a * std::cos(t), e.b * std::sin(t), 0}); };
        auto part = [&](R t0, R t1) { R t = (t0 + t1) / 2; return std::hypot(e.a * std::sin(t), e.b * std::cos(t)) * (t1 - t0); };
        bool in = inside(D, at(lo)); for (int i = 0; i < N; ++i) { R t0 = lo + i * h, t1 = t0 + h; bool in1 = inside(D, at(t1)); if (in && in1) s += part(t0, t1); else if (in != in1) { R a = t0, b = t1; for (int k = 0; k < 60; ++k) { R m = (a + b) / 2; if (inside(D, at(m)) == in) a = m; else b = m; } s += in ? part(t0, a) : part(b, t1); } in = in1; } return s;
    }
    if (e.k == 'L') { R s = 0, h = 2 * PI / N; V k = F.cz; for (int i = 0; i < N; ++i) { R t = (i + 0.5L) * h, lo = 0, hi = e.c; if (clip(D, toScene(F, {e.a * std::cos(t), e.a * std::sin(t), 0}), k, lo, hi)) s += (hi - lo) * h * e.a; } return s; }
    R y0 = 1e9L, y1 = -1e9L; if (e.k == 'D') { y0 = -e.b; y1 = e.b; } else for (auto& c : e.S.ring) { y0 = std::min(y0, c.y); y1 = std::max(y1, c.y); }
    R s = 0, h = (y1 - y0) / N; Shape2 S = e.S; if (e.k == 'D') S = disk2(e.a, e.b); for (int i = 0; i < N; ++i) { V q{0, y0 + (i + 0.5L) * h, 0}; R lo, hi; if (!section(S, q, {1, 0, 0}, lo, hi)) continue; if (clip(D, toScene(F, q), F.cx, lo, hi)) s += (hi - lo) * h; } return s;
}
