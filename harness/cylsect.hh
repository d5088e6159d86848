// Exact intersection of a cylinder surface (axis z, radius r, 0<=z<=H in its own frame) with a planar shape placed in that frame.
#pragma once
#include "planar.hh"
namespace ref {
struct CylRes { bool judged = true; bool full = false; std::vector<V> points; std::vector<std::pair<V, V>> segs; struct Arc { R p0, p1; R length; }; std::vector<Arc> arcs; bool parallel = false, tangent = false, pinched = false, rim = false; R nz = 1, h0 = 0, hc = 0, hs = 0, r = 1;
    V at(R phi) const { return {r * std::cos(phi), r * std::sin(phi), h0 + hc * std::cos(phi) + hs * std::sin(phi)}; }
    R total() const { R s = 0; for (auto& a : arcs) s += a.length; for (auto& g : segs) s += (g.second - g.first).len(); return s; }
    R length(R p0, R p1) const { const int N = 2000; R s = 0, h = (p1 - p0) / N; for (int i = 0; i < N; ++i) { R t = p0 + (i + 0.5L) * h; R dx = r, dz = -hc * std::sin(t) + hs * std::cos(t); s += std::hypot(dx, dz); } return s * h; }
    std::string str() const { std::string s; if (full) s += "ellipse "; for (auto& a : arcs) if (!full) s += vf::cat("arc[", (double)a.p0, ",", (double)a.p1, "] "); for (auto& g : segs) s += "seg" + ref::str(g.first) + ref::str(g.second) + " "; for (auto& p : points) s += "pt" + ref::str(p) + " "; return s.empty() ? "nothing" : s; } };
inline R insideDist(const Shape2& S, const V& q)
{
    if (S.kind == 'D') { R rho = std::hypot(q.x / S.a, q.y / S.b); return (1 - rho) * S.b; }
    R m = 1e300L; size_t n = S.ring.size(); for (size_t i = 0; i < n; ++i) { V e = (S.ring[(i + 1) % n] - S.ring[i]).unit(); m = std::min(m, V{-e.y, e.x, 0}.dot(q - S.ring[i])); } return m;
}
inline CylRes cylSection(R r, R H, const Shape2& S, const Frame& F)
{
    CylRes o; o.r = r; const V n = F.cz; const R sz = std::max({r, H, S.size()}); o.nz = n.z;
    if (std::abs(n.z) < 1e-9L)
    {
        o.parallel = true; R d = n.dot(F.t); // distance of the axis (the origin) from the plane
        V foot = n * d; foot.z = 0; V side = V{-n.y, n.x, 0}; std::vector<V> q;
        if (std::abs(std::abs(d) - r) < 1e-12L * sz) { q.push_back(foot); o.tangent = true; } else if (std::abs(d) < r) { R w = std::sqrt(r * r - d * d); q.push_back(foot + side * w); q.push_back(foot - side * w); if (w < 1e-2L * r) o.judged = false; } else if (std::abs(d) < r * (1 + 1e-4L)) o.judged = false;
        for (auto& b : q)
        {
            R lo, hi; V ql = toLocal(F, b), kl = F.invRot({0, 0, 1}); bool hit = section(S, ql, kl, lo, hi);
            Shape2 W = S; const R g = 1 + 1e-4L; if (W.kind == 'D') { W.a *= g; W.b *= g; } else { V c = polyCenter(W.ring); for (auto& p : W.ring) p = c + (p - c) * g; }
            R a, bb; bool hit2 = section(W, ql, kl, a, bb); if (!hit) { if (hit2 && bb > -1e-4L * sz && a < H + 1e-4L * sz) o.judged = false; continue; }
            if (hi - lo > 1e-11L * sz && hi - lo < 1e-3L * sz) o.judged = false;
            lo = std::max(lo, (R)0); hi = std::min(hi, H); R gap = hi - lo;
            if (std::abs(gap) < 1e-11L * sz) o.points.push_back(b + V{0, 0, (lo + hi) / 2}); else if (std::abs(gap) < 1e-3L * sz) o.judged = false; else if (gap > 0) o.segs.push_back({b + V{0, 0, lo}, b + V{0, 0, hi}});
        }
        return o;
    }
    o.h0 = n.dot(F.t) / n.z; o.hc = -n.x * r / n.z; o.hs = -n.y * r / n.z;
    o.rim = std::hypot(o.hc, o.hs) < 1e-12L * sz && (std::abs(o.h0) < 1e-11L * sz || std::abs(H - o.h0) < 1e-11L * sz); // plane of an end circle
    const R rim = o.rim ? 1e300L : 0; auto f = [&](R phi) { V p = o.at(phi); return std::min({p.z + rim, H - p.z + rim, insideDist(S, toLocal(F, p))}); };
    const int N = 2880; std::vector<R> v(N); const R h = 2 * PI / N; for (int i = 0; i < N; ++i) v[i] = f(i * h);
    const R ex = 1e-11L * sz, near = 2e-4L * sz; bool anyNeg = false, anyPos = false; std::vector<R> roots; std::vector<std::pair<R, int>> ev; // (phi, +1 enter / -1 leave)
    auto opt = [&](R lo, R hi, int sgn, R& arg) { for (int k = 0; k < 120; ++k) { R a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (sgn * f(a) > sgn * f(b)) hi = b; else lo = a; } arg = (lo + hi) / 2; return f(arg); };
    auto bisect = [&](R lo, R hi) { bool sl = f(lo) >= 0; for (int k = 0; k < 100; ++k) { R m = (lo + hi) / 2; if ((f(m) >= 0) == sl) lo = m; else hi = m; } return (lo + hi) / 2; };
    auto cls = [&](R x) { return std::abs(x) <= ex ? 0 : x > 0 ? 1 : -1; };
    for (int i = 0; i < N; ++i)
    {
        R a = v[(i + N - 1) % N], b = v[i], c = v[(i + 1) % N];
        if (cls(b) < 0) anyNeg = true; if (cls(b) > 0) anyPos = true;
        if (b >= a && b > c - 0 && b < 2 * sz * h * (1 + std::hypot(o.hc, o.hs)) + ex) { R arg, m = opt((i - 1) * h, (i + 1) * h, 1, arg); if (std::abs(b) <= ex) { m = b; arg = i * h; } if (std::abs(m) <= ex) { o.points.push_back(o.at(arg)); } else if (std::abs(m) < near) o.judged = false; else if (m > 0 && b < 0 && cls(a) < 0 && cls(c) < 0) o.judged = false; }
        if (b <= a && b < c + 0 && b > -2 * sz * h * (1 + std::hypot(o.hc, o.hs)) - ex) { R arg, m = opt((i - 1) * h, (i + 1) * h, -1, arg); if (std::abs(b) <= ex) m = b; if (std::abs(m) <= ex) o.pinched = true; else if (std::abs(m) < near) o.judged = false; else if (m < 0 && b > 0) o.judged = false; }
    }
    if (!anyNeg && anyPos) { o.full = true; o.points.clear(); o.arcs.push_back({0, 2 * PI, o.length(0, 2 * PI)}); return o; }
    if (!anyPos) return o;
    // start at a clearly outside sample; sign changes become arc ends
    int s0 = 0; while (cls(v[s0]) >= 0) ++s0; R start = -1; bool in = false;
    for (int k = 1; k <= N; ++k)
    {
        int i = (s0 + k) % N; R x = v[i]; const int c = cls(x); const R phi = (s0 + k) * h;
        if (!in && c > 0) { start = bisect(phi - h, phi); if (cls(v[(i + N - 1) % N]) == 0) start = phi - h; in = true; }
        else if (in && c < 0) { R e = bisect(phi - h, phi); if (cls(v[(i + N - 1) % N]) == 0) e = phi - h; o.arcs.push_back({start, e, o.length(start, e)}); in = false; }
    }
    for (auto& a : o.arcs) if (a.length < 1e-3L * sz) o.judged = false;
    // isolated points that are arc ends are no separate part
    std::vector<V> keep; for (auto& p : o.points) { bool on = false; for (auto& a : o.arcs) for (R e : {a.p0, a.p1}) if ((o.at(e) - p).len() < 1e-6L * sz) on = true; for (auto& q : keep) if ((q - p).len() < 1e-6L * sz) on = true; if (!on) keep.push_back(p); } o.points = keep;
    return o;
}
//! angle lies in the arc (with tolerance)
inline bool inArc(const CylRes::Arc& a, R phi, R tol) { for (int k = -1; k <= 3; ++k) { R x = phi + 2 * PI * k; if (x >= a.p0 - tol && x <= a.p1 + tol) return true; } return false; }
} // namespace ref
