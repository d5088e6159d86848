// C20: point samplers as functions of the draws of their distributions; every tuple of draws on a grid is enumerated.
#include <bits/stdc++.h>
#include <random>
#include <memory>
#include <string>
#include <cmath>
#include <vector>
#include <map>
#include <iostream>
#include <algorithm>
// the random engine of the code under test is replaced by one that returns an enumerated script
namespace std { struct vf_engine { using result_type = unsigned long long; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; }
    static inline std::vector<result_type> script; static inline size_t used = 0;
    vf_engine() {} template<class T> explicit vf_engine(T) {} template<class T> void seed(T) {} result_type operator()() { result_type r = script.empty() ? 1ull << 63 : script[used % script.size()]; ++used; return r; } void discard(unsigned long long) {} }; }
#define default_random_engine vf_engine
#define mt19937 vf_engine
#define mt19937_64 vf_engine
#define minstd_rand vf_engine
#define minstd_rand0 vf_engine
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include "geo.hh"
using namespace Frackit; using namespace ref;
static std::array<std::vector<R>, 3> SCRIPT; static std::array<size_t, 3> POS; // fractions of the interval the distribution was made with
template<int k> struct Distro { double a, b; Distro(double x, double y) : a(x), b(y) {} template<class G> double operator()(G&) { const R f = SCRIPT[k][POS[k]++ % SCRIPT[k].size()]; return f == 0 ? a : f == 1 ? b : double(a + (b - a) * f); } };
struct Scripted { using DistributionBase1 = Distro<0>; using DistributionBase2 = Distro<1>; using DistributionBase3 = Distro<2>; };
static void script(const std::vector<std::array<R, 3>>& d) { for (int k = 0; k < 3; ++k) { SCRIPT[k].clear(); for (auto& t : d) SCRIPT[k].push_back(t[k]); POS[k] = 0; } }
struct Dom { std::string kind; V bc, ax, mj, mn; R r0 = 0, r1 = 0, h = 0, size = 1; V lo, hi; bool box = false;
    V at(const std::array<R, 3>& f) const { if (box) return {lo.x + (hi.x - lo.x) * f[0], lo.y + (hi.y - lo.y) * f[1], lo.z + (hi.z - lo.z) * f[2]};
        const R r = std::sqrt(r0 * r0 + (r1 * r1 - r0 * r0) * f[0]), phi = 2 * PI * f[1]; return bc + mj * (r * std::cos(phi)) + mn * (r * std::sin(phi)) + ax * (h * f[2]); }
    bool in(const V& p, R tol) const { if (box) return distBox(p, lo, hi) <= tol; const V d = p - bc; const R z = d.dot(ax); return distTube({(d - ax * z).len(), 0, z}, r0, r1, h) <= tol; } };
static const std::vector<R> F{0, 1e-9L, 0.125L, 0.25L, 0.5L, 2.0L / 3, 0.75L, 1 - 1e-9L, 1};
template<class S, class G> static void explore(const std::string& fam, const Dom& D, S&& sampler, const G* geo)
{
    const R tol = 2e-14L * D.size; int cnt = 0;
    auto one = [&](const std::vector<std::array<R, 3>>& d) {
        script(d); std::string es; for (auto& f : d) { vf::step(); const auto p = sampler(); const V q = from(p), e = D.at(f);
            vf::check((q - e).len() <= tol, fam + " point", [&] { return vf::cat("draws ", (double)f[0], ",", (double)f[1], ",", (double)f[2], " give ", str(q), " expected ", str(e)); });
            vf::check(D.in(q, tol), fam + " domain", [&] { return vf::cat("draws ", (double)f[0], ",", (double)f[1], ",", (double)f[2], " give ", str(q), " outside"); });
            if (geo) vf::check(geo->contains(p), fam + " contains()", [&] { return vf::cat("point ", str(q), " of draws ", (double)f[0], ",", (double)f[1], ",", (double)f[2], " not contained"); }); vf::outcome(fam); } };
    for (R a : F) for (R b : F) for (R c : F) one({{a, b, c}});
    // histories: consecutive calls use consecutive draws only
    const std::vector<R> F2{0, 0.25L, 0.75L}; for (R a : F2) for (R b : F2) for (R c : F2) for (R x : F2) for (R y : F2) for (R z : F2) if (++cnt % 5 == 0) one({{a, b, c}, {x, y, z}, {c, x, b}, {a, b, c}});
}
//! all N^3 engine outputs: the points fill the domain in equal volumes
template<class S> static void uniform(const std::string& fam, const Dom& D, S&& sampler)
{
    const int N = 6; std::array<std::vector<R>, 3> c; std::map<std::array<int, 3>, int> cells; const R tol = 2e-14L * D.size;
    auto eng = [&](int i) { return (unsigned long long)((i + 0.5L) / N * 18446744073709551616.0L); };
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k)
    {
        std::vf_engine::script = {eng(i), eng(j), eng(k)}; std::vf_engine::used = 0; vf::step(); const V q = from(sampler());
        if (std::vf_engine::used % 3) { vf::skip(); return; } // a sampler that consumes the engine otherwise is not judged
        std::array<R, 3> u; if (D.box) u = {(q.x - D.lo.x) / (D.hi.x - D.lo.x), (q.y - D.lo.y) / (D.hi.y - D.lo.y), (q.z - D.lo.z) / (D.hi.z - D.lo.z)};
        else { const V d = q - D.bc; const R z = d.dot(D.ax), r = (d - D.ax * z).len(); R phi = std::atan2(d.dot(D.mn), d.dot(D.mj)); if (phi < 0) phi += 2 * PI; u = {(r * r - D.r0 * D.r0) / (D.r1 * D.r1 - D.r0 * D.r0), phi / (2 * PI), z / D.h}; }
        std::array<int, 3> cell; for (int m = 0; m < 3; ++m) cell[m] = (int)std::floor(u[m] * N); ++cells[cell];
        vf::check(D.in(q, tol), fam + " uniform domain", [&] { return str(q); });
    }
    bool ok = cells.size() == (size_t)N * N * N; for (auto& [k, n] : cells) { if (n != 1) ok = false; for (int m : k) if (m < 0 || m >= N) ok = false; }
    vf::check(ok, fam + " equal volumes", [&] { return vf::cat(cells.size(), " of ", N * N * N, " cells of equal volume hit"); }); vf::outcome(fam + " uniform");
    for (auto ext : {0ull, 1ull, ~0ull, ~0ull - 4096, 1ull << 63}) for (auto e2 : {0ull, ~0ull}) { std::vf_engine::script = {ext, e2, ext}; std::vf_engine::used = 0; vf::step(); const V q = from(sampler()); vf::check(D.in(q, tol), fam + " uniform extremes", [&] { return str(q); }); }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    std::vector<Pose> P = combine(allRotations(), {{0, 0, 0}, {10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); if (vf::thorough) { auto q = combine(allRotations(), {{0.1L, 0.2L, -0.3L}, {-1000, 0, 500}}, {1e-3L, 1.0L, 7.0L, 1e5L}); P.insert(P.end(), q.begin(), q.end()); }
    for (auto& p : P) for (auto [r0, r1, h] : std::vector<std::array<R, 3>>{{0, 1, 1}, {0, 0.5L, 4}, {0, 3, 0.25L}, {0.5L, 1, 2}, {1.75L, 2, 1}, {1, 3, 8}})
    {
        if (!vf::begin(vf::cat("cyl/", (double)r0, ",", (double)r1, ",", (double)h, "@", p.name))) continue;
        vf::guarded("cylinder sampler", [&] {
            Dom D; D.bc = p.map({0, 0, 0}); D.ax = p.rot({0, 0, 1}); D.r0 = r0 * p.s; D.r1 = r1 * p.s; D.h = h * p.s; D.size = D.r1 + D.h + D.bc.len();
            if (r0 == 0)
            {
                // constructed from a circle (axes chosen by the library) and from a disk (axes given)
                std::unique_ptr<Cylinder<double>> C(new Cylinder<double>(Circle<double, 3>(pt(D.bc), dir(D.ax), D.r1), D.h)); const auto& bf = C->bottomFace(); D.mj = fromDir(bf.majorAxis()); D.mn = fromDir(bf.minorAxis());
                auto s = makePointSampler<Scripted>(*C); auto u = makeUniformPointSampler(*C); explore("cylinder", D, s, C.get());
                C.reset(); explore("cylinder (geometry gone)", D, s, (Cylinder<double>*)nullptr); auto copy = s; explore("cylinder (copied sampler)", D, copy, (Cylinder<double>*)nullptr); uniform("cylinder", D, u);
                D.mj = p.rot({1, 0, 0}); D.mn = p.rot({0, 1, 0}); Cylinder<double> C2(Disk<double>(pt(D.bc), dir(D.mj), dir(D.mn), D.r1, D.r1), D.h); auto s2 = makePointSampler<Scripted>(C2); explore("cylinder from disk", D, s2, &C2);
                // user-defined ranges: an annular sector of the cylinder
                Dom E = D; E.r0 = D.r1 * 0.25L; E.r1 = D.r1 * 0.75L; CylinderPointSampler<double, Scripted> s3(C2, Distro<0>(E.r0 * E.r0, E.r1 * E.r1), Distro<1>(0.0, 2 * M_PI), Distro<2>(0.0, D.h)); explore("cylinder user ranges", E, s3, &C2);
            }
            else
            {
                std::unique_ptr<HollowCylinder<double>> H(new HollowCylinder<double>(pt(D.bc), dir(D.ax), D.r0, D.r1, D.h)); const auto full = H->fullCylinder(); const auto& bf = full.bottomFace(); D.mj = fromDir(bf.majorAxis()); D.mn = fromDir(bf.minorAxis());
                auto s = makePointSampler<Scripted>(*H); auto u = makeUniformPointSampler(*H); explore("hollow cylinder", D, s, H.get()); H.reset(); explore("hollow cylinder (geometry gone)", D, s, (HollowCylinder<double>*)nullptr); uniform("hollow cylinder", D, u);
            }
            vf::check(std::abs(D.mj.dot(D.ax)) < 1e-12L && std::abs(D.mn.dot(D.ax)) < 1e-12L && D.mj.cross(D.mn).dot(D.ax) > 1 - 1e-12L, "axes", "base of the cylinder is not right handed");
        });
    }
    std::vector<std::pair<V, V>> boxes; for (R x : {-2.0L, 0.0L, 5.0L}) for (R y : {-1.0L, 0.0L, 3.0L}) for (R z : {-7.0L, 0.0L}) for (V d : {V{1, 1, 1}, V{0.5L, 2, 3}, V{4, 0.25L, 1}}) boxes.push_back({{x, y, z}, V{x, y, z} + d});
    for (auto& [lo, hi] : boxes) for (R sc : {1.0L, 1e-2L, 1e3L, 0.1L}) for (R off : {0.0L, 100.0L})
    {
        if (!vf::begin(vf::cat("box/", str(lo), str(hi), "*", (double)sc, "+", (double)off))) continue;
        vf::guarded("box sampler", [&] { Dom D; D.box = true; D.lo = (lo + V{off, 0, -off}) * sc; D.hi = (hi + V{off, 0, -off}) * sc; auto rd = [](V& v) { v = {(R)(double)v.x, (R)(double)v.y, (R)(double)v.z}; }; rd(D.lo); rd(D.hi); D.size = D.lo.len() + D.hi.len();
            Box<double> B(D.lo.x, D.lo.y, D.lo.z, D.hi.x, D.hi.y, D.hi.z); auto s = makePointSampler<Scripted>(B); explore("box", D, s, &B); auto u = makeUniformPointSampler(B); uniform("box", D, u);
            Box<double> B2(pt(D.lo), pt(D.hi)); auto s2 = makePointSampler<Scripted>(B2); explore("box from corners", D, s2, &B2); });
    }
    return vf::finish();
}
