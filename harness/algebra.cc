// C05: vector / direction / rotation algebra over all lattice operands.
#include "geo.hh"
#include <frackit/precision/precision.hh>
#include <frackit/common/math.hh>
using namespace Frackit; using namespace ref;
static bool nr(const V& a, const V& b, R tol = 1e-12L) { return (a - b).len() <= tol * (1 + b.len()); }
template<class M> static void eqv(const std::string& what, const V& g, const V& e, M&& m, R tol = 1e-12L) { vf::step(); vf::check(nr(g, e, tol), what, [&] { return vf::cat(m(), ": got ", str(g), " expected ", str(e)); }); }
template<class M> static void eqn(const std::string& what, R g, R e, M&& m, R tol = 1e-12L) { vf::step(); vf::check(std::abs(g - e) <= tol * (1 + std::abs(e)), what, [&] { return vf::cat(m(), ": got ", (double)g, " expected ", (double)e); }); }
template<class M> static void is(const std::string& what, bool g, bool e, M&& m) { vf::step(); vf::check(g == e, what, [&] { return vf::cat(m(), ": got ", g); }); }
//! Rodrigues
static V rotRef(const V& v, const V& ax, R a) { V u = ax.unit(); return v * std::cos(a) + u.cross(v) * std::sin(a) + u * (u.dot(v) * (1 - std::cos(a))); }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const int N = vf::thorough ? 3 : 2; std::vector<V> lat; for (int x = -N; x <= N; ++x) for (int y = -N; y <= N; ++y) for (int z = -N; z <= N; ++z) lat.push_back({(R)x, (R)y, (R)z});
    std::vector<V> big = lat; for (V v : {V{1e-8L, 1, 0}, V{1e-8L, 1e-8L, 1}, V{1, 1e-8L, 1}, V{1e5L, -1, 1e-5L}, V{0.1L, 0.2L, 0.3L}, V{1e-3L, 1e-3L, -1e-3L}, V{100, 200, -300}}) big.push_back(v);
    // all pairs in 3d
    for (auto& a : big) if (vf::begin("pairs " + str(a))) vf::guarded("vector pairs", [&]
    {
        const auto A = vec(a); const auto PA = pt(a); auto m0 = [&] { return str(a); };
        eqn("Vector.length", A.length(), a.len(), m0); eqn("Vector.squaredLength", A.squaredLength(), a.n2(), m0); eqv("Vector(Point,Point)", from(FV(pt({0, 0, 0}), PA)), a, m0);
        for (double f : {2.0, -0.5, 0.0, 3.0}) { auto B = A; B *= f; eqv("Vector*=", from(B), a * f, m0); auto P = PA; P *= f; eqv("Point*=", from(P), a * f, m0); if (f != 0) { auto C = A; C /= f; eqv("Vector/=", from(C), a * (1 / (R)f), m0); auto Q = PA; Q /= f; eqv("Point/=", from(Q), a * (1 / (R)f), m0); } }
        { auto B = A; B *= 3; eqv("Vector*=(int)", from(B), a * 3, m0); eqv("Vector{list}", from(FV({double(a.x), double(a.y), double(a.z)})), a, m0); eqv("Point{list}", from(FP({double(a.x), double(a.y), double(a.z)})), a, m0); }
        if (a.n2() > 0)
        {
            FD D(A); eqv("Direction(Vector)", fromDir(D), a.unit(), m0); eqv("Vector(Direction)", from(FV(D)), a.unit(), m0); auto E = D; E.invert(); eqv("Direction.invert", fromDir(E), a.unit() * -1, m0); for (double f : {2.5, -1.0, 0.0}) eqv("Direction*scalar", from(D * f), a.unit() * f, m0);
            const auto o = makeOrthogonalVector(A); V ov = from(o); vf::step(); vf::check(std::abs(ov.dot(a)) <= 1e-12L * ov.len() * a.len() && ov.len() > 0, "makeOrthogonalVector", [&] { return vf::cat("of ", str(a), " is ", str(ov)); });
        }
        for (auto& b : big)
        {
            const auto B = vec(b); const auto PB = pt(b); auto m = [&] { return str(a) + str(b); };
            eqn("dot", A * B, a.dot(b), m); eqv("cross", from(crossProduct(A, B)), a.cross(b), m); eqv("Vector+", from(A + B), a + b, m); eqv("Vector-", from(A - B), a - b, m);
            eqv("Point+", from(PA + B), a + b, m); eqv("Point-", from(PA - B), a - b, m); { auto P = PA; P += B; eqv("Point+=", from(P), a + b, m); P -= B; eqv("Point-=", from(P), a, m, 1e-12L * (1 + b.len())); } eqv("Vector(p,q)", from(FV(PA, PB)), b - a, m);
            for (R e : {1e-7L, 0.5L, 1.2L, 2.1L, 3.0L}) { R d = (a - b).len(); if (std::abs(d - e) < 1e-3L * e) continue; is("Point.isEqual(eps)", PA.isEqual(PB, double(e)), d < e, [&] { return vf::cat(str(a), str(b), " eps ", (double)e); }); }
            if ((a - b).len() == 0 || (a - b).len() > 1e-6L) is("Point.isEqual", PA.isEqual(PB), (a - b).len() == 0, m);
            if (a.n2() > 0 && b.n2() > 0)
            {
                R ang = std::asin(std::min((R)1, (a.unit() - b.unit()).len() / 2)) * 2, anti = std::asin(std::min((R)1, (a.unit() + b.unit()).len() / 2)) * 2; R w = std::min(ang, anti);
                for (R e : {1e-10L, 1e-3L, 0.3L}) if (w < 0.5L * e - (e < 1e-9L ? 4e-11L : 0) || w > 1.5L * e) { if (e < 1e-9L) is("Vector.isParallel", A.isParallel(B), w < e, m); is("Vector.isParallel(eps)", A.isParallel(B, double(e)), w < e, [&] { return vf::cat(str(a), str(b), " eps ", (double)e); }); }
            }
            if (std::abs(a.x) <= 1 && std::abs(a.y) <= 1 && std::abs(a.z) <= 1) for (auto& c : lat)
            {
                R det = a.dot(b.cross(c)); const auto C = vec(c); eqn("boxProduct", boxProduct(A, B, C), det, [&] { return str(a) + str(b) + str(c); }, 1e-12L * std::max<R>(1, a.len() * b.len() * c.len()));
                if (std::abs(det) > 1e-6L * a.len() * b.len() * c.len()) is("isRightHandSystem", isRightHandSystem(A, B, C), det > 0, [&] { return str(a) + str(b) + str(c); });
            }
            // two and one dimensional counterparts
            Vector<double, 2> a2(double(a.x), double(a.y)), b2(double(b.x), double(b.y)); Vector<double, 1> a1((double)a.x), b1((double)b.x); Point<double, 2> p2(double(a.x), double(a.y)), q2(double(b.x), double(b.y)); Point<double, 1> p1((double)a.x), q1((double)b.x);
            if (a.z == 0 && b.z == 0)
            {
                eqn("2d dot", a2 * b2, a.dot(b), m); eqn("2d cross", crossProduct(a2, b2), a.x * b.y - a.y * b.x, m); auto s = a2 + b2, d = a2 - b2; eqv("2d +", {(R)s.x(), (R)s.y(), 0}, a + b, m); eqv("2d -", {(R)d.x(), (R)d.y(), 0}, a - b, m); eqn("2d length", a2.length(), a.len(), m);
                auto ps = p2 + b2, pd = p2 - b2; eqv("2d Point+", {(R)ps.x(), (R)ps.y(), 0}, a + b, m); eqv("2d Point-", {(R)pd.x(), (R)pd.y(), 0}, a - b, m); Vector<double, 2> pq(p2, q2); eqv("2d Vector(p,q)", {(R)pq.x(), (R)pq.y(), 0}, b - a, m); R dd = (a - b).len(); for (R e : {0.5L, 1.2L, 2.1L}) if (std::abs(dd - e) > 1e-3L) is("2d isEqual", p2.isEqual(q2, double(e)), dd < e, m);
                if (a.n2() > 0) { Direction<double, 2> D(a2); eqv("2d Direction", {(R)D.x(), (R)D.y(), 0}, a.unit(), m); auto w = D * 2.0; eqv("2d Direction*", {(R)w.x(), (R)w.y(), 0}, a.unit() * 2, m); D.invert(); eqv("2d invert", {(R)D.x(), (R)D.y(), 0}, a.unit() * -1, m); }
                if (a.y == 0 && b.y == 0) { eqn("1d dot", a1 * b1, a.x * b.x, m); eqn("1d +", (a1 + b1).x(), a.x + b.x, m); eqn("1d -", (a1 - b1).x(), a.x - b.x, m); eqn("1d length", a1.length(), std::abs(a.x), m); eqn("1d Point+", (p1 + b1).x(), a.x + b.x, m); eqn("1d Point-", (p1 - b1).x(), a.x - b.x, m); eqn("1d Vector(p,q)", Vector<double, 1>(p1, q1).x(), b.x - a.x, m); if (a.x != 0) { Direction<double, 1> D(a1); eqn("1d Direction", D.x(), a.x > 0 ? 1 : -1, m); D.invert(); eqn("1d invert", D.x(), a.x > 0 ? -1 : 1, m); } }
            }
        }
    });
    // rotations: every axis, every multiple of pi/12 in [-2pi, 4pi], every lattice vector
    std::vector<V> axes; for (auto& a : lat) if (a.n2() > 0) axes.push_back(a); axes.push_back({0.1L, 0.2L, 0.3L}); axes.push_back({1, 1e-6L, 0});
    for (auto& ax : axes) if (vf::begin("rotate " + str(ax))) vf::guarded("rotate", [&]
    {
        const auto D = dir(ax); V u = ax.unit();
        for (int k = -24; k <= 48; ++k)
        {
            R a = PI * k / 12; std::vector<FV> many; for (auto& v : lat) many.push_back(vec(v)); rotate(many, D, double(a));
            for (size_t i = 0; i < lat.size(); ++i)
            {
                const V& v = lat[i]; auto m = [&] { return vf::cat(str(v), " about ", str(ax), " by ", k, "pi/12"); }; auto w = vec(v); rotate(w, D, double(a)); V g = from(w);
                eqv("rotate", g, rotRef(v, ax, a), m); eqv("rotate(vector list)", from(many[i]), rotRef(v, ax, a), m);
                vf::check(std::abs(g.len() - v.len()) < 1e-12L * (1 + v.len()), "rotate preserves length", m); vf::check(std::abs(g.dot(u) - v.dot(u)) < 1e-12L * (1 + v.len()), "rotate preserves the axis component", m);
                if (k % 3 == 0) for (int j : {-7, 1, 5, 24}) { auto w2 = w; rotate(w2, D, double(PI * j / 12)); eqv("rotate composes", from(w2), rotRef(v, ax, PI * (k + j) / 12), m); }
            }
        }
        // tiny and huge vectors, tiny angles: the result is exact relative to the length
        for (R f : {1e-8L, 1e-4L, 1e6L}) for (R a : {1e-7L, 1e-4L, 0.5L, PI / 2, PI, -2.0L})
        {
            std::vector<FV> many; for (auto& v : lat) many.push_back(vec(v * f)); auto single = many; rotate(many, D, double(a));
            for (size_t i = 0; i < lat.size(); ++i) { rotate(single[i], D, double(a)); V e = rotRef(lat[i] * f, ax, (R)double(a)); auto m = [&] { return vf::cat(str(lat[i] * f), " about ", str(ax), " by ", (double)a); };
                vf::check((from(single[i]) - e).len() <= 1e-13L * (1e-30L + e.len()), "rotate (scaled)", m); vf::check((from(many[i]) - e).len() <= 1e-13L * (1e-30L + e.len()), "rotate(vector list) (scaled)", m); }
        }
        std::vector<FV> none; rotate(none, D, 1.0); vf::check(none.empty(), "rotate(empty list)", "not empty");
    });
    for (int k = -720; k <= 720; ++k) if (vf::begin(vf::cat("deg ", k))) { auto m = [&] { return vf::cat(k); }; eqn("toRadians", toRadians(double(k)), PI * k / 180, m); eqn("toDegrees", toDegrees(double(PI * k / 180)), k, m); eqn("toDegrees(toRadians)", toDegrees(toRadians(k / 7.0)), k / 7.0L, m); }
    return vf::finish();
}
