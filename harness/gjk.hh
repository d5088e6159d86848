// Distance of two convex sets given by support functions (GJK in long double, with a duality-gap error bound).
#pragma once
#include "geo.hh"
namespace ref {
using Support = std::function<V(const V&)>; // farthest point in a direction
namespace gjkimpl {
//! closest point of the affine hull of the given points to the origin, as barycentric weights; false if degenerate
inline bool affine(const std::vector<V>& p, std::vector<R>& w)
{
    const size_t n = p.size(); w.assign(n, 0); if (n == 1) { w[0] = 1; return true; }
    // minimise |p0 + sum t_i (p_i - p0)|^2
    size_t m = n - 1; R A[3][4]; for (size_t i = 0; i < m; ++i) { for (size_t j = 0; j < m; ++j) A[i][j] = (p[i + 1] - p[0]).dot(p[j + 1] - p[0]); A[i][m] = -(p[i + 1] - p[0]).dot(p[0]); }
    R scale = 0; for (size_t i = 0; i < m; ++i) scale = std::max(scale, A[i][i]);
    for (size_t c = 0; c < m; ++c) { size_t piv = c; for (size_t r = c; r < m; ++r) if (std::abs(A[r][c]) > std::abs(A[piv][c])) piv = r; if (std::abs(A[piv][c]) < 1e-28L * scale) return false; for (size_t k = 0; k <= m; ++k) std::swap(A[c][k], A[piv][k]); for (size_t r = 0; r < m; ++r) if (r != c) { R f = A[r][c] / A[c][c]; for (size_t k = c; k <= m; ++k) A[r][k] -= f * A[c][k]; } }
    R s = 1; for (size_t i = 0; i < m; ++i) { w[i + 1] = A[i][m] / A[i][i]; s -= w[i + 1]; } w[0] = s; return true;
}
}
struct GjkResult { R dist, gap; };
inline GjkResult gjk(const Support& A, const Support& B, V d0 = {1, 0.3L, 0.2L})
{
    auto sup = [&](const V& d) { return A(d) - B(d * -1); };
    std::vector<V> S{sup(d0 * -1)}; V v = S[0]; R lower = 0;
    for (int it = 0; it < 3000; ++it)
    {
        R vl = v.len(); if (vl < 1e-15L) return {0, 0};
        V w = sup(v * -1); lower = std::max(lower, v.dot(w) / vl);
        if (vl - lower <= 1e-12L * (1 + vl)) return {vl, std::max((R)0, vl - lower)};
        bool dup = false; for (auto& s : S) if ((s - w).len() < 1e-17L * (1 + w.len())) dup = true; if (dup) return {vl, std::max((R)0, vl - lower)};
        S.push_back(w);
        R best = 1e300L; std::vector<V> bs; V bv; const int n = S.size();
        for (int m = 1; m < 1 << n; ++m) { std::vector<V> p; for (int i = 0; i < n; ++i) if (m >> i & 1) p.push_back(S[i]); if (p.size() > 4) continue; std::vector<R> l; if (!gjkimpl::affine(p, l)) continue; bool in = true; for (R x : l) if (x < -1e-17L) in = false; if (!in) continue; V q; for (size_t i = 0; i < p.size(); ++i) q = q + p[i] * l[i]; if (q.len() < best * (1 - 1e-16L)) { best = q.len(); bs = p; bv = q; } }
        if (best >= vl) return {vl, std::max((R)0, vl - lower)};
        if (bs.size() == 4) return {0, 0};
        S = bs; v = bv;
    }
    return {v.len(), v.len() - lower};
}
inline Support supPoints(std::vector<V> c) { return [c](const V& d) { size_t b = 0; for (size_t i = 1; i < c.size(); ++i) if (c[i].dot(d) > c[b].dot(d)) b = i; return c[b]; }; }
inline Support supEllipse(V o, V u, V v) { return [=](const V& d) { R a = d.dot(u), b = d.dot(v), l = std::hypot(a, b); return l == 0 ? o : o + u * (a / l) + v * (b / l); }; } // u, v: half axes as vectors
inline Support supBall(V o, R r) { return [=](const V& d) { return o + d.unit() * r; }; }
inline Support supTube(V o, V u, V v, V h) { auto e = supEllipse(o, u, v); return [=](const V& d) { V p = e(d); return d.dot(h) > 0 ? p + h : p; }; }
} // namespace ref
