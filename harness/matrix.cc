// C16: constraints matrix over recorded relations; scripted constraints for the history tree, real ones for integration.
#include "dfs.hh"
#include "geo.hh"
#include <map>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
using namespace Frackit; using namespace ref;
struct Entity { int tag = 42; };
struct Set { int id; };
static int rejTag = -1, rejSet = -1; // the (constraints, set) combination that rejects
static bool badCall = false;
struct Scripted { int tag; bool judge(const Set& s, const Entity& e) const { if (e.tag != 42) badCall = true; return !(tag == rejTag && s.id == rejSet); } bool evaluate(const Set& s, const Entity& e) const { return judge(s, e); } bool evaluate(const Entity& e, const Set& s) const { return judge(s, e); } };
struct Sets { int mask; template<class F> bool applyOnSet(const Id& id, F&& f) const { if (id.get() < 1 || id.get() > 3 || !(mask >> id.get() & 1)) return false; Set s{(int)id.get()}; f(s); return true; } };
static int NIDS = 3;
struct World
{
    EntityNetworkConstraintsMatrix<Scripted> m; std::map<int, std::vector<std::pair<int, int>>> rel; int next = 0;
    static std::vector<std::vector<std::pair<int, int>>>& ops() { static std::vector<std::vector<std::pair<int, int>>> o; return o; }
    static int numOps() { return ops().size(); }
    static std::string describe(const std::string& p) { std::string r; for (char c : p) { r += "{"; for (auto& q : ops()[vf::Histories<World>::opOf(c)]) r += vf::cat("(", q.first, ",", q.second, ")"); r += "}"; } return r; }
    bool has(std::pair<int, int> p) { for (auto& r : rel[p.first]) if (r.first == p.second) return true; return false; }
    bool apply(int op)
    {
        auto& l = ops()[op]; bool dup = has(l[0]); for (size_t i = 1; i < l.size(); ++i) if (has(l[i]) && !dup) return false; // which part of a partly known list survives is not specified
        const int tag = next++; bool threw = false; Scripted c{tag};
        try { auto P = [&](int i) { return IdPair(Id(l[i].first), Id(l[i].second)); }; if (l.size() == 1) m.addConstraints(c, P(0)); else if (l.size() == 2) m.addConstraints(c, {P(0), P(1)}); else m.addConstraints(c, {P(0), P(1), P(2)}); } catch (const std::exception&) { threw = true; }
        vf::check(threw == dup, "registration", [&] { return dup ? "already registered relation accepted" : "new relation rejected"; });
        if (!threw && !dup) for (auto& p : l) rel[p.first].push_back({p.second, tag}); return true;
    }
    void observe()
    {
        for (int id = 1; id <= NIDS + 1; ++id)
        {
            const auto& R = rel[id];
            for (int mask = 0; mask < 16; mask += 2) for (int k = -1; k < 3 * next; ++k)
            {
                rejTag = k < 0 ? -1 : k / 3; rejSet = k < 0 ? -1 : 1 + k % 3; bool e = true; for (auto& r : R) if (mask >> r.first & 1 && r.first == rejSet && r.second == rejTag) e = false; badCall = false;
                bool g; try { g = m.evaluate(Sets{mask}, Entity{}, Id(id)); } catch (const std::exception& x) { ++vf::nEvals; if (!R.empty()) vf::fail("evaluate exception", x.what()); continue; }
                vf::check(g == e && !badCall, e ? "wrongly rejected" : "wrongly accepted", [&] { return vf::cat("candidate of set ", id, ", present sets mask ", mask, ", rejecting constraints #", rejTag, " on set ", rejSet, " after ", describe("")); });
            }
        }
        vf::outcome(vf::cat("relations ", rel[1].size() + rel[2].size() + rel[3].size()));
    }
    std::string canon() { std::string r; for (auto& [i, v] : rel) { r += vf::cat(i, ":"); for (auto& p : v) r += vf::cat(p.first, "."); } return r; }
};
int main(int argc, char** argv)
{
    vf::init(argc, argv); vf::caseTimeout = 600;
    { auto& o = World::ops(); o.clear(); for (int i = 1; i <= 3; ++i) for (int j = 1; j <= 3; ++j) o.push_back({{i, j}}); o.push_back({{1, 2}, {2, 1}}); o.push_back({{1, 1}, {2, 2}, {3, 3}}); o.push_back({{3, 1}, {1, 3}}); o.push_back({{2, 3}, {2, 1}}); vf::Histories<World> h{"3ids", vf::thorough ? 6 : 4}; h.run(World()); }
    { auto& o = World::ops(); o.clear(); for (int i = 1; i <= 2; ++i) for (int j = 1; j <= 2; ++j) o.push_back({{i, j}}); o.push_back({{1, 2}, {2, 1}}); vf::Histories<World> h{"2ids", vf::thorough ? 9 : 7}; h.run(World()); }
    // integration with real constraints and real entity sets: disks with id 1, 3, quadrilaterals with id 2
    using C = EntityNetworkConstraints<double>; using D = Disk<double>; using Q = Quadrilateral<double, 3>;
    auto disk = [](R x, R y, R z, bool up) { return D(pt({x, y, z}), dir({1, 0, 0}), up ? dir({0, 0, 1}) : dir({0, 1, 0}), 1.0, 1.0); };
    auto quad = [](R x, R y, R z) { return Q(pt({x, y - 1, z - 1}), pt({x, y + 1, z - 1}), pt({x, y - 1, z + 1}), pt({x, y + 1, z + 1})); };
    for (int r = 1; r < 16; ++r) for (int content = 0; content < 8; ++content) if (vf::begin(vf::cat("real", r, "/", content))) vf::guarded("real", [&]
    {
        // relations of candidates of set 1: bit 0 -> set 1, bit 1 -> set 2, bit 2 -> set 3; bit 3: a relation 2 -> 1 that must not matter
        C far, strict; far.setMinDistance(2.0); far.setMinIntersectingAngle(0.1); strict.setMinDistance(0.5); strict.setMinIntersectionMagnitude(1.0);
        EntityNetworkConstraintsMatrix<C> m; if (r & 1) m.addConstraints(far, IdPair(Id(1), Id(1))); if (r & 2) m.addConstraints(strict, IdPair(Id(1), Id(2))); if (r & 4) m.addConstraints(strict, IdPair(Id(1), Id(3))); C never; never.setMinDistance(1e9); never.setMinIntersectionMagnitude(1e9); if (r & 8) m.addConstraints(never, {IdPair(Id(2), Id(1)), IdPair(Id(3), Id(3))});
        std::vector<D> s1, s3; std::vector<Q> s2; if (content & 1) { s1 = {disk(20, 0, 0, false), disk(0, 0, 3, false)}; } if (content & 2) { s2 = {quad(0, 10, 0), quad(2.5L, 0, 0)}; } if (content & 4) { s3 = {disk(0, 0, -8, false), disk(0, 4, 0.1L, false)}; }
        MultiGeometryEntitySet<D, Q> sets; for (auto& d : s1) sets.addEntity(d, Id(1)); for (auto& q : s2) sets.addEntity(q, Id(2)); for (auto& d : s3) sets.addEntity(d, Id(3));
        for (V c : {V{0, 0, 0}, V{0, 0, 1.5L}, V{1.8L, 0, 0}, V{0.9L, 0, 0}, V{0, 1.7L, 0}, V{0, 2.9L, 0}, V{0, 0, -7.8L}}) for (int up = 0; up < 2; ++up)
        {
            auto cand = disk(c.x, c.y, c.z, up); bool e = true; if (r & 1) e = e && far.evaluate(s1, cand); if (r & 2) e = e && strict.evaluate(s2, cand); if (r & 4) e = e && strict.evaluate(s3, cand);
            vf::step(); bool g; try { g = m.evaluate(sets, cand, Id(1)); std::shared_ptr<Geometry> p = std::make_shared<D>(cand); vf::check(m.evaluate(sets, p, Id(1)) == g, "erased candidate", "differs from the bare one"); } catch (const std::exception& x) { if (r & 7) vf::fail("real exception", x.what()); continue; }
            vf::check(g == e, "real constraints", [&] { return vf::cat("relations ", r, " content ", content, " candidate ", str(c), up, " got ", g); }); vf::outcome(e ? "real accept" : "real reject");
        }
    });
    return vf::finish();
}
