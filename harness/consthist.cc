// C15: the constraints object after any history of settings behaves as a fresh one with the final settings; collections are conjunctions.
#include "geo.hh"
#include "dfs.hh"
#include <memory>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/entitynetwork/constraints.hh>
using namespace Frackit; using namespace ref;
using C = EntityNetworkConstraints<double>; using D = Disk<double>; using Q = Quadrilateral<double, 3>;
static D disk(V c, V u, V v, double r) { return D(pt(c), dir(u), dir(v), r, r); }
static Q quad(V c, V u, V v, R a, R b) { return Q(pt(c - u * a - v * b), pt(c + u * a - v * b), pt(c - u * a + v * b), pt(c + u * a + v * b)); }
static const V X{1, 0, 0}, Y{0, 1, 0}, Z{0, 0, 1};
static const D A = disk({0, 0, 0}, X, Y, 1);
//! partners of A: crossing at 90 / 30 degrees, short intersection, near the rim, separated by 0.1 / 1, nearly touching (gap 1e-5)
static const std::vector<Q>& partners()
{
    static const std::vector<Q> p{quad({0, 0, 0}, X, Z, 0.5L, 1), quad({0, 0, 0}, X, {0, std::cos(PI / 6), std::sin(PI / 6)}, 0.5L, 1), quad({0.2L, 0, 0}, X, Z, 0.05L, 1), quad({0.45L, 0, 0}, X, Z, 0.5L, 1),
                               quad({0, 0, 0.1L + 0.5L}, X, Z, 0.5L, 0.5L), quad({0, 0, 1.5L}, X, Z, 0.5L, 0.5L), quad({0, 0, 0.5L + 1e-5L}, X, Z, 0.5L, 0.5L), quad({0, 0, 0.25L}, X, Z, 0.5L, 0.25L)};
    return p;
}
struct Settings { int lim[4] = {0, 0, 0, 0}; int eps = 0; bool allow = false; std::string key() const { return vf::cat(lim[0], lim[1], lim[2], lim[3], "/", eps, allow); } };
static const double VAL[4][3] = {{0, 0.05, 0.5}, {0, 0.4, 0.8}, {0, 0.3, 1.5}, {0, 0.02, 0.3}}; // distance, angle, magnitude, boundary distance
static const double EPS[3] = {0, 1e-3, 1e-7};
static void set(C& c, int l, double v) { switch (l) { case 0: c.setMinDistance(v); break; case 1: c.setMinIntersectingAngle(v); break; case 2: c.setMinIntersectionMagnitude(v); break; default: c.setMinIntersectionDistance(v); } }
static void neglect(C& c, int l) { switch (l) { case 0: c.neglectMinDistance(); break; case 1: c.neglectMinIntersectionAngle(); break; case 2: c.neglectMinIntersectionMagnitude(); break; default: c.neglectMinIntersectionDistance(); } }
static C fresh(const Settings& s) { C c; for (int l = 0; l < 4; ++l) if (s.lim[l]) set(c, l, VAL[l][s.lim[l]]); if (s.eps) c.setIntersectionEpsilon(EPS[s.eps]); if (s.allow) c.allowEquiDimensionalIntersections(true); return c; }
//! a face and a coplanar quadrilateral: intersection of the entities' own dimension
static const TopoDS_Face& face() { static const TopoDS_Face f = OCCUtilities::getShape(quad({0, 0, 0}, X, Y, 3, 3)); return f; }
static const Q& flat() { static const Q q = quad({0.5L, 0, 0}, X, Y, 0.5L, 0.5L); return q; }
static std::string bits(const C& c, const std::vector<int>& which) { std::string r; for (int i : which) { if (i < 0) { try { r += c.evaluate(face(), flat()) ? '1' : '0'; } catch (...) { r += 'x'; } } else try { r += c.evaluate(A, partners()[i]) ? '1' : '0'; } catch (...) { r += 'x'; } } return r; }
static const std::string& expected(const Settings& s, const std::vector<int>& which)
{ static std::map<std::string, std::string> m; auto k = s.key() + "|"; for (int i : which) k += std::to_string(i); auto it = m.find(k); if (it == m.end()) it = m.emplace(k, bits(fresh(s), which)).first; return it->second; }
//! which limits / pairs a tree works with
static std::vector<int> OPS, WHICH;
struct World
{
    C c; Settings s;
    static int numOps() { return OPS.size(); }
    static std::string name(int op) { return op < 8 ? vf::cat("set", op / 2, op % 2 ? "high" : "low") : op < 12 ? vf::cat("neglect", op - 8) : op < 14 ? vf::cat("eps", op - 11) : op == 14 ? "defaultEps" : op == 15 ? "allow" : op == 16 ? "disallow" : op == 17 ? "copy" : "assign"; }
    static std::string describe(const std::string& p) { std::string r; for (char ch : p) r += name(OPS[vf::Histories<World>::opOf(ch)]) + " "; return r; }
    bool apply(int i)
    {
        int op = OPS[i]; if (op < 8) { s.lim[op / 2] = 1 + op % 2; set(c, op / 2, VAL[op / 2][1 + op % 2]); } else if (op < 12) { s.lim[op - 8] = 0; neglect(c, op - 8); } else if (op < 14) { s.eps = op - 11; c.setIntersectionEpsilon(EPS[s.eps]); } else if (op == 14) { s.eps = 0; c.setDefaultIntersectionEpsilon(); } else if (op < 17) { s.allow = op == 15; c.allowEquiDimensionalIntersections(op == 15); }
        else if (op == 17) { C d(c); set(c, 0, 7.0); set(c, 2, 9.0); c.allowEquiDimensionalIntersections(!s.allow); C e(d); c.~C(); new (&c) C(e); } // continue with a copy of a copy, the original altered
        else { C d; set(d, 1, 1.5); set(d, 3, 9.0); d.setIntersectionEpsilon(0.5); d.allowEquiDimensionalIntersections(true); d = c; set(c, 1, 1.5); c = d; }
        return true;
    }
    void observe() { auto& e = expected(s, WHICH); std::string g = bits(c, WHICH); vf::check(g == e, "evaluation after history", [&] { return vf::cat(g, " instead of ", e, " for settings ", s.key()); }); vf::outcome(e); }
    std::string canon() { return s.key(); }
};
int main(int argc, char** argv)
{
    vf::init(argc, argv); vf::caseTimeout = 600;
    const int deep = vf::thorough;
    { OPS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}; WHICH = {1, 4, 6, -1}; vf::Histories<World> h{"all", deep ? 4 : 3}; h.run(World()); }
    // every pair of limits with its neglect operations, deeper, on the pairs that separate them
    for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b) { OPS = {2 * a, 2 * a + 1, 8 + a, 2 * b, 2 * b + 1, 8 + b}; WHICH = {a == 0 ? 4 : 3, b == 3 ? 3 : 1}; vf::Histories<World> h{vf::cat("pair", a, b), deep ? 6 : 4}; h.run(World()); }
    { OPS = {0, 6, 8, 11, 12, 13, 14, 15, 16}; WHICH = {6, -1}; vf::Histories<World> h{"tolerance", deep ? 5 : 4}; h.run(World()); }
    // merged states: every settings combination is evaluated on all pairs, alone, in lists (all index subsets up to 3), erased, swapped
    for (int l0 = 0; l0 < 3; ++l0) for (int l1 = 0; l1 < 3; ++l1) for (int l2 = 0; l2 < 3; ++l2) for (int l3 = 0; l3 < 3; ++l3)
    {
        if (!vf::begin(vf::cat("lists", l0, l1, l2, l3))) continue; if (!vf::thorough && (l0 + 2 * l1 + 4 * l2 + 8 * l3) % 3 && l0 + l1 + l2 + l3 > 1) continue;
        vf::guarded("lists", [&] {
            Settings s; s.lim[0] = l0; s.lim[1] = l1; s.lim[2] = l2; s.lim[3] = l3; const C c = fresh(s); const auto& P = partners(); std::vector<int> all; for (size_t i = 0; i < P.size(); ++i) all.push_back(i); const std::string single = expected(s, all);
            std::shared_ptr<Geometry> pA = std::make_shared<D>(A); std::vector<Q> none; std::vector<D> noneD; std::vector<std::shared_ptr<Geometry>> noneP;
            auto ck = [&](const std::string& w, bool g, bool e, auto info) { vf::step(); vf::check(g == e, w, [&] { return vf::cat("got ", g, " for ", info, ", settings ", s.key()); }); };
            ck("empty list", c.evaluate(none, A), true, "list,entity"); ck("empty list", c.evaluate(A, none), true, "entity,list"); ck("empty list", c.evaluate(none, noneD), true, "lists"); ck("empty list", c.evaluate(noneP, A), true, "erased"); ck("empty list", c.evaluate(P, noneD), true, "list,empty"); ck("empty list", c.evaluate(noneD, P), true, "empty,list");
            for (size_t i = 0; i < P.size(); ++i)
            {
                bool e = single[i] == '1'; std::shared_ptr<Geometry> pi = std::make_shared<Q>(P[i]); ck("swapped", c.evaluate(P[i], A), e, i); ck("erased", c.evaluate(pA, pi), e, i); ck("erased first", c.evaluate(pA, P[i]), e, i); ck("erased second", c.evaluate(A, pi), e, i); ck("erased swapped", c.evaluate(pi, pA), e, i);
                for (size_t j = 0; j < P.size(); ++j)
                {
                    bool f = e && single[j] == '1'; std::vector<Q> l{P[i], P[j]}; std::vector<std::shared_ptr<Geometry>> lp{pi, std::make_shared<Q>(P[j])}; auto info = vf::cat(i, ",", j);
                    if ((i + j) % 2 == 0 || vf::thorough) ck("list, entity", c.evaluate(l, A), f, info); else ck("entity, list", c.evaluate(A, l), f, info);
                    if ((i + 2 * j) % 3 == 0) { ck("erased list, entity", c.evaluate(lp, A), f, info); ck("erased entity, erased list", c.evaluate(pA, lp), f, info); ck("entity, erased list", c.evaluate(A, lp), f, info); }
                    if (i < j) { std::vector<D> ds{A, A}; ck("list, list", c.evaluate(l, ds), f, info); ck("list, list swapped", c.evaluate(ds, l), f, info); size_t k = (i + j) % P.size(); std::vector<Q> l3{P[i], P[j], P[k]}; bool t = f && single[k] == '1'; ck("list of 3", c.evaluate(l3, A), t, info); std::vector<D> d1{A}; ck("list, list of 1", c.evaluate(l3, d1), t, info); }
                }
            }
            // lists of different entities: every pair counts
            std::vector<D> ds{disk({50, 0, 0}, X, Y, 1), A}; for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); j += 3) { Q far1 = quad({0, 50, 0}, X, Z, 1, 1); std::vector<Q> l{far1, P[i], P[j]}; bool f = single[i] == '1' && single[j] == '1'; ck("list with far entities", c.evaluate(l, ds), f, vf::cat(i, ",", j)); ck("list with far entities swapped", c.evaluate(ds, l), f, vf::cat(i, ",", j)); }
        });
    }
    return vf::finish();
}
