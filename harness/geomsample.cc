// C21: geometry samplers as functions of the draws; all tuples/sequences of draws (rejected values included) are enumerated.
#include <bits/stdc++.h>
#include <random>
#include <memory>
#include <string>
#include <cmath>
#include <vector>
#include <map>
#include <iostream>
#include <algorithm>
#include <numeric>
#include <stdexcept>
// stand-in for the engine: polygon samplers use it for the draws in the unit interval
namespace std { struct vf_engine { using result_type = unsigned long long; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; }
    static inline std::vector<result_type> script; static inline size_t used = 0;
    vf_engine() {} template<class T> explicit vf_engine(T) {} template<class T> void seed(T) {} result_type operator()() { result_type r = script.empty() ? 1ull << 63 : script[used % script.size()]; ++used; return r; } void discard(unsigned long long) {} }; }
#define default_random_engine vf_engine
#define mt19937 vf_engine
#define mt19937_64 vf_engine
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include "geo.hh"
using namespace Frackit; using namespace ref;
struct Endless { const char* what; };
//! a distribution that returns its script; the last value is repeated, at most 1000 times
template<class T> struct Scripted { struct St { std::vector<T> v; size_t i = 0; }; std::shared_ptr<St> s = std::make_shared<St>(); using result_type = T;
    Scripted() {} Scripted(T, T) {} Scripted(std::vector<T> v) { s->v = std::move(v); }
    template<class G> T operator()(G&) { if (s->i > 1000 + s->v.size()) throw Endless{"more than 1000 further draws"}; T r = s->v[std::min(s->i, s->v.size() - 1)]; ++s->i; return r; } };
using SD = Scripted<double>; using SI = Scripted<int>;
struct Pt : PointSampler<Point<double, 3>> { std::shared_ptr<std::pair<std::vector<V>, size_t>> s = std::make_shared<std::pair<std::vector<V>, size_t>>(); Pt(std::vector<V> v) { s->first = v; } Frackit::Point<double, 3> operator()() override { return pt(s->first[std::min(s->second++, s->first.size() - 1)]); } };
struct DiskTraits { using MajorAxisLengthDistribution = SD; using MinorAxisLengthDistribution = SD; using XAngleDistribution = SD; using YAngleDistribution = SD; using ZAngleDistribution = SD; };
struct PolyTraits { using StrikeAngleDistribution = SD; using DipAngleDistribution = SD; using StrikeLengthDistribution = SD; using DipLengthDistribution = SD; using NumCornersDistribution = SI; };
static V rotAbout(const V& v, const V& k, R a) { return v * std::cos(a) + k.cross(v) * std::sin(a) + k * (k.dot(v) * (1 - std::cos(a))); }
static unsigned long long eng(R u) { const R m = u * 18446744073709551616.0L; return m >= 18446744073709551615.0L ? ~0ull : (unsigned long long)m; }
static const std::vector<R> ANG{0, 0.5L, PI / 2, PI, -PI / 3, 2 * PI, 100, 1e-9L, -4};
static double firstGood(const std::vector<double>& v) { for (double d : v) if (d > 0) return d; return v.back(); }

// ---------------------------------------------------------------- disks
static void disk(const std::vector<double>& a, const std::vector<double>& b, R x, R y, R z, const V& c)
{
    vf::step(); DiskSampler<double, DiskTraits> s(Pt({c}), SD(a), SD(b), SD({(double)x}), SD({(double)y}), SD({(double)z}));
    try { const auto d = s(); const R A = firstGood(a), B = std::min<R>(A, firstGood(b)); const V ex{1, 0, 0}, ey{0, 1, 0}, ez{0, 0, 1};
        auto F = [&](V v, bool first) { if (!first) v = rotAbout(v, ex, (double)x); return rotAbout(rotAbout(v, ey, (double)y), ez, (double)z); }; const V m = F(ex, true), n = F(ey, false); const R tol = 1e-14L * (A + c.len());
        vf::check((from(d.center()) - c).len() <= tol, "disk center", [&] { return str(from(d.center())); });
        vf::check(std::abs(d.majorAxisLength() - A) <= 1e-14L * A && std::abs(d.minorAxisLength() - B) <= 1e-14L * A && d.minorAxisLength() > 0, "disk axis lengths", [&] { return vf::cat(d.majorAxisLength(), " ", d.minorAxisLength(), " expected ", (double)A, " ", (double)B); });
        vf::check(std::abs(fromDir(d.normal()).dot(m.cross(n))) > 1 - 1e-13L, "disk normal", [&] { return str(fromDir(d.normal())); });
        if (A != B) vf::check(fromDir(d.majorAxis()).cross(m).len() < 1e-13L && fromDir(d.minorAxis()).cross(n).len() < 1e-13L, "disk axes", [&] { return vf::cat(str(fromDir(d.majorAxis())), " expected ", str(m)); });
        vf::outcome(B < firstGood(b) ? "disk, minor axis limited" : "disk");
    } catch (const Endless& e) { vf::check(false, "disk sampler does not terminate", e.what); } catch (const std::exception& e) { vf::check(false, "disk sampler exception", e.what()); }
}
// ---------------------------------------------------------------- polygons
//! judge a ring of corners: extents between 80% and 100% of the drawn sizes, simple, convex, planar, centered, oriented
static void ring(const std::string& fam, const std::vector<V>& c, size_t n, R strike, R dip, R ls, R ld, const V& ctr, bool distinct)
{
    const V ez{0, 0, 1}, sd = rotAbout({0, 1, 0}, ez, strike), dd = rotAbout(rotAbout({1, 0, 0}, ez, strike), sd, dip), nn = dd.cross(sd).unit(); const R sz = std::max(ls, ld), tol = 1e-13L * (sz + ctr.len());
    if (!vf::check(c.size() == n, fam + " corners", [&] { return vf::cat(c.size(), " corners instead of ", n); })) return;
    R lo[3] = {1e300L, 1e300L, 1e300L}, hi[3] = {-1e300L, -1e300L, -1e300L}, s0 = 1e300L, s1 = -1e300L, d0 = 1e300L, d1 = -1e300L, off = 0;
    for (auto& p : c) { const R q[3] = {p.x, p.y, p.z}; for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); } s0 = std::min(s0, p.dot(sd)); s1 = std::max(s1, p.dot(sd)); d0 = std::min(d0, p.dot(dd)); d1 = std::max(d1, p.dot(dd)); off = std::max(off, std::abs((p - c[0]).dot(nn))); }
    auto show = [&] { std::string r; for (auto& p : c) r += str(p); return r; };
    vf::check(off <= tol, fam + " orientation/planarity", [&] { return vf::cat("off plane by ", (double)off, " ", show()); });
    vf::check((V{(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2} - ctr).len() <= tol, fam + " center", [&] { return vf::cat("bounding box center of ", show(), " expected ", str(ctr)); });
    vf::check(s1 - s0 <= ls + tol && s1 - s0 >= 0.8L * ls - tol && d1 - d0 <= ld + tol && d1 - d0 >= 0.8L * ld - tol, fam + " size", [&] { return vf::cat("extents strike ", (double)(s1 - s0), " of ", (double)ls, ", dip ", (double)(d1 - d0), " of ", (double)ld); });
    // convex and simple: all turns to the same side and one full revolution
    R turn = 0; bool pos = true, neg = true; R minE = 1e300L; V e = c[0] - c[n - 1]; for (size_t i = 0; i < n; ++i) { const V f = c[(i + 1) % n] - c[i]; minE = std::min(minE, f.len()); const R cr = e.cross(f).dot(nn), ct = 1e-12L * (e.len() + f.len() + 1e-30L) * (sz + 1e-3L * ctr.len()); if (cr < -ct) pos = false; if (cr > ct) neg = false; if (e.len() > tol && f.len() > tol) turn += std::atan2(cr, e.dot(f)); if (f.len() > tol) e = f; }
    vf::check((pos || neg) && std::abs(std::abs(turn) - 2 * PI) < 1e-6L, fam + " convex", [&] { return vf::cat(pos, neg, " turn ", (double)turn, " corners ", show()); });
    if (distinct) vf::check(minE > 0, fam + " distinct corners", [&] { return show(); });
}
static int firstCorner(const std::vector<int>& v) { for (int k : v) if (k >= 3) return k; return v.back(); }
//! rejected draws up to 90 in a row have to be survived, more than 110 have to raise an error; in between both is fine
template<class T, class P> static int leading(const std::vector<T>& v, P&& good) { int k = 0; for (auto& x : v) { if (good(x)) return k; ++k; } return 1000; }
static int verdict(std::initializer_list<int> rej) { int m = 0; for (int r : rej) m = std::max(m, r); return m <= 90 ? 0 : m > 110 ? 2 : 1; } // 0 geometry, 1 either, 2 error
static void poly(const std::vector<R>& xs, const std::vector<R>& ys, const std::vector<int>& nc, R strike, R dip, const std::vector<double>& ls, const std::vector<double>& ld, const V& c, bool distinct, int calls = 1)
{
    vf::step(); std::vf_engine::script.clear(); for (R x : xs) std::vf_engine::script.push_back(eng(x)); for (R y : ys) std::vf_engine::script.push_back(eng(y)); std::vf_engine::used = 0;
    auto good = [](double d) { return d > 0; }; const int ex = verdict({leading(nc, [](int k) { return k >= 3; }), leading(ls, good), leading(ld, good)}); const int n = firstCorner(nc);
    std::string fam = nc.size() > 1 || ls.size() > 1 || ld.size() > 1 ? "polygon (after rejected draws)" : "polygon";
    PolygonSampler<3, double, PolyTraits> s(Pt({c}), SD({(double)strike}), SD({(double)dip}), SD(ls), SD(ld), SI(nc));
    try { for (int q = 0; q < calls; ++q) { const auto p = s(); if (ex == 2) { vf::check(false, "polygon sampler returns a polygon of unusable draws", vf::cat(p.numCorners(), " corners")); return; } std::vector<V> k; for (size_t i = 0; i < p.numCorners(); ++i) k.push_back(from(p.corner(i))); ring(fam, k, n, (double)strike, (double)dip, firstGood(ls), firstGood(ld), c, distinct); }
        vf::outcome(fam); }
    catch (const Endless& e) { vf::check(false, "polygon sampler does not terminate", e.what); }
    catch (const std::exception& e) { vf::check(ex != 0, fam + " exception", e.what()); vf::outcome("polygon error"); }
}
static void quad(const std::vector<R>& xs, const std::vector<R>& ys, R strike, R dip, const std::vector<double>& ls, const std::vector<double>& ld, const V& c, bool distinct)
{
    vf::step(); std::vf_engine::script.clear(); for (R x : xs) std::vf_engine::script.push_back(eng(x)); for (R y : ys) std::vf_engine::script.push_back(eng(y)); std::vf_engine::used = 0;
    auto good = [](double d) { return d > 0; }; const int ex = verdict({leading(ls, good), leading(ld, good)});
    QuadrilateralSampler<3, double, PolyTraits> s(Pt({c}), SD({(double)strike}), SD({(double)dip}), SD(ls), SD(ld));
    try { const auto q = s(); if (ex == 2) { vf::check(false, "quadrilateral sampler returns a quadrilateral of unusable draws", ""); return; } ring("quadrilateral", {from(q.corner(0)), from(q.corner(1)), from(q.corner(3)), from(q.corner(2))}, 4, (double)strike, (double)dip, firstGood(ls), firstGood(ld), c, distinct); vf::outcome("quadrilateral"); }
    catch (const Endless& e) { vf::check(false, "quadrilateral sampler does not terminate", e.what); }
    catch (const std::exception& e) { vf::check(ex != 0, "quadrilateral exception", e.what()); vf::outcome("quadrilateral error"); }
}
//! deprecated constructor: one distribution for all four edge lengths, values below the minimum are rejected
static void oldQuad(const std::vector<double>& edges, double minEdge, R strike, R dip, const V& c)
{
    vf::step(); 
    struct T { using StrikeAngleDistribution = SD; using DipAngleDistribution = SD; using EdgeLengthDistribution = SD; };
    std::vector<R> acc; for (double e : edges) if (!(e < minEdge)) acc.push_back(e); while (acc.size() < 4) acc.push_back(edges.back()); acc.resize(4);
    try { Detail::DeprecatedQuadrilateralSamplerImpl<double, T> s(Pt({c}), SD({(double)strike}), SD({(double)dip}), SD(edges), minEdge); const auto q = s();
        const V ez{0, 0, 1}, sd = rotAbout({0, 1, 0}, ez, (double)strike), dd = rotAbout(rotAbout({1, 0, 0}, ez, (double)strike), sd, (double)dip), nn = dd.cross(sd).unit();
        std::vector<V> r{from(q.corner(0)), from(q.corner(1)), from(q.corner(3)), from(q.corner(2))}; R sz = 0; for (R e : acc) sz = std::max(sz, e); const R tol = 1e-13L * (sz + c.len()); bool plane = true; for (auto& p : r) if (std::abs((p - c).dot(nn)) > tol) plane = false;
        auto show = [&] { std::string t; for (auto& p : r) t += str(p); return t; };
        vf::check(plane, "deprecated quadrilateral plane", show); bool conv = true; for (int i = 0; i < 4; ++i) { const V a = r[(i + 1) % 4] - r[i], b = r[(i + 2) % 4] - r[(i + 1) % 4]; if (a.cross(b).dot(nn) <= 0) conv = false; if (a.cross(c - r[i]).dot(nn) <= 0) conv = false; }
        bool rev = true; for (int i = 0; i < 4; ++i) { const V a = r[(i + 1) % 4] - r[i], b = r[(i + 2) % 4] - r[(i + 1) % 4]; if (a.cross(b).dot(nn) >= 0) rev = false; if (a.cross(c - r[i]).dot(nn) >= 0) rev = false; }
        vf::check(conv || rev, "deprecated quadrilateral convex around the center", show);
        // two edges in strike direction; sizes are the accepted draws
        std::vector<R> got; for (int i = 0; i < 4; ++i) { const V a = r[(i + 1) % 4] - r[i]; if (a.unit().cross(sd).len() < 1e-9L) { got.push_back(a.len()); got.push_back(2 * std::abs((r[i] - c).dot(dd))); vf::check(std::abs((r[i] + r[(i + 1) % 4] - c * 2).dot(sd)) <= 2 * tol, "deprecated quadrilateral centered", show); } }
        if (got.size() > 4) { vf::skip(); return; } std::sort(got.begin(), got.end()); std::sort(acc.begin(), acc.end()); bool same = got.size() == 4; if (same) for (int i = 0; i < 4; ++i) if (std::abs(got[i] - acc[i]) > 4 * tol) same = false;
        vf::check(same, "deprecated quadrilateral sizes", [&] { std::string t = "accepted"; for (R a : acc) t += vf::cat(" ", (double)a); return t + " corners " + show(); }); vf::outcome("deprecated quadrilateral");
    } catch (const Endless& e) { vf::check(false, "deprecated quadrilateral sampler does not terminate", e.what); } catch (const std::exception& e) { vf::check(false, "deprecated quadrilateral exception", e.what()); }
}
//! all tuples over an alphabet
template<class F> static void tuples(const std::vector<R>& al, int n, F&& f) { std::vector<R> v(n, al[0]); std::vector<int> ix(n, 0); for (;;) { for (int i = 0; i < n; ++i) v[i] = al[ix[i]]; f(v); int k = 0; while (k < n && ++ix[k] == (int)al.size()) ix[k++] = 0; if (k == n) return; } }
static bool allDistinct(std::vector<R> v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) == v.end(); }
int main(int argc, char** argv)
{
    vf::init(argc, argv); const std::vector<V> ctrs{{0, 0, 0}, {10, -7, 3}, {-1000, 0.5L, 2000}};
    // disks: all angle triples; all axis sequences with up to 3 rejected values
    for (R x : ANG) for (R y : ANG) { if (!vf::begin(vf::cat("disk/angles/", (double)x, ",", (double)y))) continue; for (R z : ANG) for (auto& c : ctrs) for (double a : {1e-3, 1.0, 2.0, 1e4}) for (double f : {0.01, 0.5, 1.0, 3.0}) disk({a}, {a * f}, x, y, z, c); }
    const std::vector<R> bad{-1, 0, -1e-9L}; for (int na = 0; na <= 3; ++na) for (int nb = 0; nb <= 3; ++nb) for (double a : {1e-3, 1.0, 3.0}) for (double b : {5e-4, 1.0, 2.0, 50.0}) { if (!vf::begin(vf::cat("disk/rejected/", na, nb, "/", a, ",", b))) continue;
        auto seq = [&](int n, auto&& f) { if (!n) { f(std::vector<R>{}); return; } tuples(bad, n, f); }; seq(na, [&](const std::vector<R>& p) { seq(nb, [&](const std::vector<R>& q) { std::vector<double> A(p.begin(), p.end()), B(q.begin(), q.end()); A.push_back(a); B.push_back(b); disk(A, B, 0.3L, -0.7L, 1.1L, {1, 2, 3}); }); }); }
    // polygons: all tuples of interval draws, few angles
    const std::vector<R> A3{0, 0.05L, 0.1L, 0.3L, 0.5L, 0.7L, 0.9L, 0.95L, 1}, A4{0, 0.07L, 0.35L, 0.6L, 0.97L}, A5{0.02L, 0.3L, 0.55L, 0.98L}, A6{0.04L, 0.4L, 0.8L};
    struct Sz { double s, d; }; const std::vector<Sz> sizes{{1, 1}, {2, 0.5}, {1e-2, 1e-2}, {1e3, 10}, {1e-5, 2e-5}, {0.001, 50}};
    int cnt = 0; auto sweep = [&](const std::vector<R>& al, int n, int stride) { tuples(al, n, [&](const std::vector<R>& xs) { if (!vf::begin(vf::cat("polygon/", n, "/", [&] { std::string s; for (R x : xs) s += vf::cat((double)x, ","); return s; }()))) return; const bool dx = allDistinct(xs);
        tuples(al, n, [&](const std::vector<R>& ys) { ++cnt; if (cnt % stride) return; const Sz& z = sizes[cnt % sizes.size()]; const bool d = dx && allDistinct(ys); const R st = ANG[cnt / 3 % ANG.size()], dp = ANG[cnt / 7 % ANG.size()]; const V c = ctrs[cnt % 3] * (R)std::min(1.0, std::max(z.s, z.d)); poly(xs, ys, {n}, st, dp, {z.s}, {z.d}, c, d); if (n == 4) quad(xs, ys, st, dp, {z.s}, {z.d}, c, d); }); }); };
    const int f = vf::thorough ? 1 : 5; sweep(A3, 3, 1); sweep(A4, 4, 1); sweep(A5, 5, f); sweep(A6, 6, f); if (vf::thorough) sweep({0.04L, 0.3L, 0.6L, 0.97L}, 7, 211);
    // many corners (distinct equidistant draws in all rotations of the order)
    for (int n = 3; n <= 24; ++n) for (int a = 0; a < 8; ++a) { if (!vf::begin(vf::cat("polygon/many/", n, "/", a))) continue; for (int st = 1; st < n; ++st) { if (std::gcd(st, n) != 1) continue; std::vector<R> xs, ys; for (int i = 0; i < n; ++i) { xs.push_back((i * st % n + 0.5L) / n); ys.push_back(((i + a) % n + 0.25L) / n); } for (auto& z : sizes) poly(xs, ys, {n}, ANG[(a + st) % ANG.size()], ANG[(n + st) % ANG.size()], {z.s}, {z.d}, ctrs[st % 2] * (R)std::min(1.0, std::max(z.s, z.d)), true, 2); } }
    // all angle pairs, rejected numbers of corners and sizes
    const std::vector<R> xs{0.11L, 0.42L, 0.73L, 0.2L, 0.99L}, ys{0.35L, 0.05L, 0.6L, 0.81L, 0.5L};
    for (R st : ANG) for (R dp : ANG) if (vf::begin(vf::cat("polygon/angles/", (double)st, ",", (double)dp))) for (auto& c : ctrs) for (auto& z : sizes) { const V cc = c * (R)std::min(1.0, std::max(z.s, z.d)); poly(xs, ys, {5}, st, dp, {z.s}, {z.d}, cc, true); quad({0.1L, 0.4L, 0.8L, 0.6L}, {0.3L, 0.9L, 0.5L, 0.05L}, st, dp, {z.s}, {z.d}, cc, true); }
    std::vector<std::vector<int>> NC{{5}, {2, 5}, {-4, 0, 1, 2, 3}, {2}, {0}}; for (int k : {10, 50, 90, 98, 99, 100, 101, 120}) { std::vector<int> v(k, 2); v.push_back(5); NC.push_back(v); }
    std::vector<std::vector<double>> LN{{1.5}, {-1, 2}, {-1, -1e-9, 0, 0.5}, {0, 1}, {-1}, {0}}; for (int k : {10, 50, 90, 99, 100, 101, 120, 400}) { std::vector<double> v(k, -1.0); v.push_back(2); LN.push_back(v); }
    for (size_t n = 0; n < NC.size(); ++n) for (size_t s = 0; s < LN.size(); ++s) for (size_t d = 0; d < LN.size(); ++d) if (vf::begin(vf::cat("polygon/rejected/", n, ",", s, ",", d))) { auto v = NC[n]; poly(xs, ys, v, 0.7L, 0.4L, LN[s], LN[d], {1, 2, 3}, true); if (!n) quad({0.1L, 0.4L, 0.8L, 0.6L}, {0.3L, 0.9L, 0.5L, 0.05L}, 0.7L, 0.4L, LN[s], LN[d], {1, 2, 3}, true); }
    // deprecated quadrilateral sampler: all sequences of accepted/rejected edge lengths
    const std::vector<R> el{-1, 0.2L, 0.5L, 1, 2}; for (double me : {1e-7, 0.4}) for (int n = 4; n <= (vf::thorough ? 7 : 6); ++n) for (size_t a = 0; a < el.size(); ++a) if (vf::begin(vf::cat("deprecated/", me, "/", n, "/", a))) tuples(el, n - 1, [&](const std::vector<R>& t) { std::vector<double> e{(double)el[a]}; e.insert(e.end(), t.begin(), t.end()); e.push_back(1.25); e.push_back(0.75); e.push_back(3); e.push_back(1.75); ++cnt; oldQuad(e, me, ANG[cnt % ANG.size()], ANG[cnt / 9 % ANG.size()], ctrs[cnt % 3]); });
    return vf::finish();
}
