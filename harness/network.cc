// C22 / C23: entity networks built from lattice rectangles against the explicit-state model.
#include "net.hh"
#ifndef PROP
#define PROP 22
#endif
using namespace net;
static void report(const std::optional<Report>& r, const std::string& pre) { vf::check(!r, r ? pre + r->what : "ok", [&] { return r->msg; }); }
static void build(const Scene& s, const Pose& P, int kind, const std::string& how)
{
    const Expected x = expected(s, false); const bool single = s.nets.size() == 1; vf::step();
    try {
        EntityNetworkBuilder<double> b;
        if (how == "entity" || how == "entities") { int k = kind; if (how == "entity") for (auto& r : s.nets[0].rects) withRect(r, P, k++, [&](const auto& g) { b.addEntity(g); }); else { std::vector<Quadrilateral<double, 3>> v; for (auto& r : s.nets[0].rects) v.push_back(quadOf(r, P)); b.addEntities(v); } }
        else fill(b, s, P, kind, how == "shared");
        const auto& n = b.build(); vf::outcome(vf::cat(s.nets.size(), " nets, ", x.frags.size(), " fragments"));
        vf::check(n.entityDimension() == 2 && b.isBuilt(), "state", "entity dimension / isBuilt");
        const Real r = abstractNet(n, P);
        if (PROP == 22) { if (x.judged) report(compareFragments(r, x, false), ""); report(conforming(r, P), ""); }
        else report(compareIndices(r, x, false, single), "");
    }
    catch (const Bad& e) { vf::check(false, "shape", e.what); }
    catch (const std::exception& e) { vf::check(false, "exception", e.what()); }
    catch (...) { vf::check(false, "exception", "OCC exception"); }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    std::vector<Rect> all; for (int a = 0; a < 3; ++a) for (int c = 0; c <= 3; ++c) for (int u0 = 0; u0 < 3; ++u0) for (int u1 = u0 + 1; u1 <= 3; ++u1) for (int v0 = 0; v0 < 3; ++v0) for (int v1 = v0 + 1; v1 <= 3; ++v1) all.push_back({a, c, u0, u1, v0, v1});
    const std::vector<Rect> rep{{2, 1, 0, 3, 0, 3}, {2, 1, 1, 2, 1, 3}, {2, 1, 1, 3, 0, 2}};
    const std::vector<Rect> cat{{2, 1, 0, 3, 0, 3}, {2, 1, 1, 3, 1, 3}, {2, 2, 0, 2, 0, 3}, {0, 1, 0, 3, 0, 3}, {0, 1, 0, 2, 1, 3}, {0, 2, 1, 3, 0, 2}, {1, 1, 0, 3, 0, 3}, {1, 2, 1, 3, 0, 2}, {1, 1, 1, 2, 1, 2}, {0, 3, 0, 3, 0, 3}};
    Pose I; I.name = "I"; auto L = latticeRotations(); auto O = obliqueRotations(); std::vector<Pose> T{I}; { auto q = combine({L[5], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    int cnt = 0;
    for (auto& a : rep) for (auto& b : all) for (int sw = 0; sw < 2; ++sw) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; if (t && cnt % (vf::thorough ? 7 : 71)) continue; Scene s; auto& n = s.of(0); n.rects = {a, b}; if (sw) std::swap(n.rects[0], n.rects[1]);
        if (!vf::begin(vf::cat("pair/", s.str(), "@", T[t].name))) continue; build(s, T[t], cnt, cnt % 3 ? "entity" : "entities");
    }
    const int n = cat.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (size_t t = 0; t < T.size(); ++t)
    {
        if (i == j || j == k || i == k) continue; ++cnt; if (t && cnt % (vf::thorough ? 11 : 101)) continue; Scene s; s.of(0).rects = {cat[i], cat[j], cat[k]};
        if (!vf::begin(vf::cat("triple/", s.str(), "@", T[t].name))) continue; build(s, T[t], cnt, "entity");
    }
    for (int m = 0; m < (1 << n); ++m) if (int c = __builtin_popcount(m); c == 4 || c == 5 || c == 1 || (vf::thorough && c > 5))
    {
        Scene s; for (int i = 0; i < n; ++i) if (m >> i & 1) s.of(0).rects.push_back(cat[i]); ++cnt; if (!vf::begin(vf::cat("set/", s.str()))) continue; build(s, I, cnt, "entity");
    }
    // sub-networks: assignment of entities to ids, with and without (confining) sub-domains
    const std::vector<std::vector<SubDom>> doms{{}, {{0, {{0, 0, 0}, {3, 3, 3}}, true}}, {{5, {{0, 0, 0}, {2, 3, 2}}, true}}, {{5, {{0, 0, 0}, {2, 3, 2}}, false}}, {{1, {{0, 0, 0}, {1, 3, 3}}, true}, {5, {{1, 0, 0}, {3, 3, 3}}, true}}, {{1, {{0, 0, 0}, {1, 3, 3}}, false}, {5, {{1, 0, 0}, {3, 3, 2}}, true}},
        {{1, {{0, 0, 0}, {1, 3, 3}}, false}, {5, {{1, 0, 0}, {3, 3, 2}}, false}}, {{1, {{0, 0, 0}, {2, 2, 3}}, true}, {5, {{1, 1, 0}, {3, 3, 3}}, true}}, {{1, {{0, 0, 0}, {3, 3, 3}}, false}, {5, {{1, 1, 1}, {2, 2, 2}}, true}}};
    const int ids[] = {0, 1, 5};
    for (size_t d = 0; d < doms.size(); ++d) for (int u = 0; u < 2; ++u) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = -1; k < n; ++k) for (int as = 0; as < 27; ++as)
    {
        if (i == j || j == k || i == k) continue; if (k < 0 && as >= 9) continue; if (d == 0 && u) continue; ++cnt; if (cnt % (vf::thorough ? 11 : 131)) continue;
        Scene s; s.doms = doms[d]; s.confineUnion = !u; int a[3] = {as % 3, as / 3 % 3, as / 9}; int e[3] = {i, j, k}; for (int q = 0; q < (k < 0 ? 2 : 3); ++q) s.of(ids[a[q]]).rects.push_back(cat[e[q]]);
        if (!vf::begin(vf::cat("sub/", s.str(), "@", T[cnt % T.size()].name))) continue; build(s, T[cnt / 131 % 2 ? cnt / 262 % T.size() : 0], cnt, "fill");
    }
    // the same shape object in several places
    for (size_t d = 0; d < doms.size(); ++d) for (int u = 0; u < 2; ++u) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int as = 0; as < 27; ++as)
    {
        if (i == j || (d == 0 && u)) continue; ++cnt; if (cnt % (vf::thorough ? 3 : 17)) continue;
        Scene s; s.doms = doms[d]; s.confineUnion = !u; s.of(ids[as % 3]).rects.push_back(cat[i]); s.of(ids[as / 3 % 3]).rects.push_back(cat[j]); s.of(ids[as / 9]).rects.push_back(cat[i]);
        if (!vf::begin(vf::cat("shared/", s.str()))) continue; build(s, I, cnt, "shared");
    }
    return vf::finish();
}
