// C25 (and C23 for contained networks): contained networks on lattice boxes against the explicit-state model.
#include "net.hh"
#ifndef PROP
#define PROP 25
#endif
using namespace net;
struct Silence { std::streambuf* o; std::ostringstream s; Silence() : o(std::cout.rdbuf(s.rdbuf())) {} ~Silence() { std::cout.rdbuf(o); } };
static void report(const std::optional<Report>& r) { vf::check(!r, r ? r->what : "ok", [&] { return r->msg; }); }
static void build(const Scene& s, const Pose& P, int kind, bool shared)
{
    const Expected x = expected(s, true); vf::step(); std::string err, cls; Real r; bool ok = false;
    {
        Silence q;
        try {
            ContainedEntityNetworkBuilder<double> b; fill(b, s, P, kind, shared); const auto& n = b.build(); std::vector<int> ids; for (auto& k : s.nets) ids.push_back(k.id);
            if ((!s.nets.empty() && n.entityDimension() != 2) || n.domainDimension() != 3 || !b.isBuilt()) throw Bad{"dimensions / isBuilt"};
            std::set<int> have; for (auto& i : n.subDomainIds()) have.insert(i.get()); std::set<int> want; for (auto& d : s.doms) want.insert(d.id); if (have != want || n.subDomainIds().size() != s.doms.size()) throw Bad{"sub-domain ids"};
            for (auto& d : s.doms) if (std::find(ids.begin(), ids.end(), d.id) == ids.end() && n.subDomainEntityFragments(Id(d.id)).Extent()) throw Bad{"entity fragments in a sub-domain without entities"};
            r = abstractNet(n, ids, P); ok = true;
        }
        catch (const Bad& e) { cls = "shape"; err = e.what; } catch (const std::exception& e) { cls = "exception"; err = e.what(); } catch (...) { cls = "exception"; err = "OCC exception"; }
    }
    if (!vf::check(ok, cls, err)) return;
    vf::outcome(vf::cat(s.doms.size(), " domains, ", x.frags.size(), " fragments", x.judged ? "" : " (fragment count not judged)"));
    try { if (PROP == 25) { report(compareDomains(r, x)); if (x.judged) report(compareFragments(r, x, true)); report(conforming(r, P)); }
    else report(compareIndices(r, x, true, false)); } catch (const Bad& e) { vf::check(false, "shape", e.what); }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const std::vector<Rect> cat{{2, 1, 0, 3, 0, 3}, {2, 1, 1, 3, 1, 3}, {2, 2, 0, 2, 0, 3}, {0, 1, 0, 3, 0, 3}, {0, 1, 0, 2, 1, 3}, {0, 2, 1, 3, 0, 2}, {1, 1, 0, 3, 0, 3}, {1, 2, 1, 3, 0, 2}, {1, 1, 1, 2, 1, 2}, {0, 3, 0, 3, 0, 3}, {2, 0, -1, 2, 1, 2}, {1, 1, -1, 4, -1, 4}, {0, 2, -1, 1, 1, 4}};
    Pose I; I.name = "I"; auto L = latticeRotations(); auto O = obliqueRotations(); std::vector<Pose> T{I}; { auto q = combine({L[5], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    const Box3 full{{0, 0, 0}, {3, 3, 3}}, left{{0, 0, 0}, {1, 3, 3}}, right{{1, 0, 0}, {3, 3, 3}}, part{{1, 0, 0}, {3, 2, 2}}, inner{{1, 1, 1}, {2, 2, 2}}, ov1{{0, 0, 0}, {2, 2, 3}}, ov2{{1, 1, 0}, {3, 3, 3}}, far{{3, 3, 3}, {4, 4, 4}}, mid{{1, 0, 0}, {2, 3, 3}}, end{{2, 0, 0}, {3, 3, 2}};
    std::vector<std::vector<std::pair<int, Box3>>> D{{{1, full}}, {{5, part}}, {{1, left}, {5, right}}, {{1, left}, {5, part}}, {{1, full}, {5, inner}}, {{1, ov1}, {5, ov2}}, {{1, ov1}, {5, far}}, {{1, left}, {5, mid}, {0, end}}, {{5, ov1}, {0, full}, {1, inner}}};
    const int n = cat.size(), ids[] = {1, 5, 0}; int cnt = 0;
    for (size_t d = 0; d < D.size(); ++d) for (int conf = 0; conf < (1 << D[d].size()); ++conf) for (int u = 0; u < 2; ++u)
    {
        Scene base; base.confineUnion = !u; for (size_t k = 0; k < D[d].size(); ++k) base.doms.push_back({D[d][k].first, D[d][k].second, bool(conf >> k & 1)});
        if (vf::begin(vf::cat("empty/", base.str()))) build(base, I, 0, false);
        for (int as = 0; as < 27; ++as) for (int i = 0; i < n; ++i)
        {
            if (as < 3) { Scene s = base; s.of(ids[as]).rects = {cat[i]}; ++cnt; if ((vf::thorough || cnt % 3 == 0) && vf::begin(vf::cat("one/", s.str(), "@", T[cnt / 3 % T.size()].name))) build(s, T[cnt / 3 % T.size()], cnt, false); }
            for (int j = 0; j < n; ++j) for (int k = -1; k < n; ++k)
            {
                if (k < 0 && as >= 9) continue; ++cnt; if (cnt % (vf::thorough ? 53 : 1201)) continue; const bool shared = i == j || j == k || i == k;
                Scene s = base; int a[3] = {as % 3, as / 3 % 3, as / 9}, e[3] = {i, j, k}; for (int q = 0; q < (k < 0 ? 2 : 3); ++q) s.of(ids[a[q]]).rects.push_back(cat[e[q]]);
                const Pose& P = T[cnt / 7 % 2 ? 0 : cnt / 14 % T.size()]; if (vf::begin(vf::cat(shared ? "shared/" : "set/", s.str(), "@", P.name))) build(s, P, cnt, shared && cnt % 2);
            }
        }
    }
    return vf::finish();
}
