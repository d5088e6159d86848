// C01: membership predicates on a lattice of configurations against exact distances in local coordinates.
#include "geo.hh"
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
using namespace Frackit; using namespace ref;

using Pts = std::vector<V>;
static Pts grid(R lo, R hi, R h, R zlo, R zhi, R zh)
{ Pts r; for (R x = lo; x <= hi + 1e-9L; x += h) for (R y = lo; y <= hi + 1e-9L; y += h) for (R z = zlo; z <= zhi + 1e-9L; z += zh) r.push_back({x, y, z}); return r; }

//! dist: exact distance of a local point to the point set; size: characteristic length
template<class Query>
void probe(const std::string& what, const Pose& T, const Pts& pts, const std::function<R(const V&)>& dist, R size, Query&& q, R margin = 1e-3L, R accept = 0)
{
    // the reference distances do not depend on the pose
    static std::map<std::string, std::vector<R>> cache;
    auto& D = cache[vf::curKey.substr(0, vf::curKey.find('@')) + "|" + what + "|" + std::to_string(pts.size()) + (margin > 0.02L ? "t" : "")];
    if (D.empty()) for (const auto& p : pts) D.push_back(dist(p));
    for (std::size_t i = 0; i < pts.size(); ++i)
    {
        const auto& p = pts[i]; const R d = D[i];
        vf::step();
        bool expect;
        if (d < 1e-14L * size || d <= accept * size) expect = true;
        else if (d > margin * size) expect = false;
        else { vf::skip(); continue; }
        bool got = !expect;
        try { got = q(pt(T.map(p))); } catch (const std::exception& e) { vf::check(false, what, vf::cat("exception at ", str(p), ": ", e.what())); continue; }
        vf::check(got == expect, what, [&] { return vf::cat("local point ", str(p), " = world ", str(T.map(p)), ": contains is ", got, ", exact distance to the set ", double(d * T.s)); });
    }
    vf::outcome(what);
}
//! default tolerance, explicit tolerances, plane flag
template<class G> void probeAll(const std::string& fam, const Pose& T, const G& g, const Pts& pts, const std::function<R(const V&)>& dist, R size, bool relEps = false)
{
    const G& copy = g;
    probe(fam + ".contains(p)", T, pts, dist, size, [&](const FP& p) { return copy.contains(p); });
    for (R e : {1e-6L, 1e-3L})
        probe(fam + ".contains(p,eps)", T, pts, dist, size, [&](const FP& p) { return copy.contains(p, double(relEps ? e : e * size * T.s)); }, 12 * e);
    // generous absolute tolerance: points well within it belong to the set, points well outside do not
    if (!relEps && !std::is_same_v<G, Triangle<double, 3>> && !std::is_same_v<G, Quadrilateral<double, 3>> && !std::is_same_v<G, Polygon<double, 3>>) for (R e : {0.06L, 0.3L})
        probe(fam + ".contains(p,large eps)", T, pts, dist, size, [&](const FP& p) { return copy.contains(p, double(e * size * T.s)); }, 2 * e, 0.5L * e);
}
template<class G> void probeInPlane(const std::string& fam, const Pose& T, const G& g, const Pts& pts, const std::function<R(const V&)>& dist, R size)
{
    Pts in; for (auto& p : pts) if (p.z == 0) in.push_back(p);
    probe(fam + ".contains(p,true)", T, pts, dist, size, [&](const FP& p) { return g.contains(p, true); });
    probe(fam + ".contains(p,false)", T, in, dist, size, [&](const FP& p) { return g.contains(p, false); });
    probe(fam + ".contains(p,eps,false)", T, in, dist, size, [&](const FP& p) { return g.contains(p, double(1e-6L * size * T.s), false); });
}

static Pts edgePts(const Pts& c, R z = 0) { Pts r; for (size_t i = 0; i < c.size(); ++i) for (R t : {0.0L, 0.125L, 0.25L, 0.5L, 0.75L}) { V p = c[i] * (1 - t) + c[(i + 1) % c.size()] * t; r.push_back(p); } return r; }
//! points slightly inside/outside each edge and corner, and slightly out of plane
static Pts nearPts(const Pts& c) { Pts r; V m = polyCenter(c); for (auto& e : edgePts(c)) for (R f : {0.9L, 0.99L, 1.01L, 1.1L, -1.0L, -3.0L}) r.push_back(m + (e - m) * f); Pts o; for (auto& p : r) { o.push_back(p); o.push_back({p.x, p.y, 0.02L}); o.push_back({p.x, p.y, -0.02L}); } return o; }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    std::vector<Pose> poses;
    if (vf::thorough) poses = combine(allRotations(), {{0, 0, 0}, {10, -7, 3}, {-100, 50, 25}}, {1.0L, 1e-3L, 1e3L});
    else
    {
        auto app = [&](const std::vector<Pose>& q) { poses.insert(poses.end(), q.begin(), q.end()); };
        auto L = latticeRotations(), O = obliqueRotations();
        app(combine(L, {{0, 0, 0}}, {1.0L}));
        app(combine({L[1], L[10], O[0], O[4]}, {{10, -7, 3}, {-100, 50, 25}}, {1.0L, 1e-3L, 1e3L}));
        app(combine({O[1], O[2], O[3]}, {{-100, 50, 25}}, {1.0L}));
    }
    const Pts G1 = vf::thorough ? grid(-3, 3, 0.5L, -1, 1, 0.5L) : grid(-2.5L, 2.5L, 0.5L, -0.5L, 1, 0.5L);
    for (auto& T : poses)
    {
        auto on = [&](const std::string& k) { return vf::begin(k + "@" + T.name); };
        // ---- one-dimensional geometries
        for (auto [a, b] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {2, 0, 0}}, {{1, 0, 0}, {-1, 0, 0}}, {{-1, -1, 0}, {2, 1, 0}}, {{-1, 1, -1}, {1, -1, 1}}, {{0, 0, 0}, {0.25L, 0.5L, 0.25L}}, {{-2, -2, -1}, {2, 2, 1}}})
            if (on(vf::cat("segment", str(a), str(b))))
            {
                Pts p = G1; for (R t : {-1.0L, -0.01L, 0.0L, 0.01L, 0.25L, 1.0L / 3, 0.5L, 0.75L, 0.99L, 1.0L, 1.01L, 2.0L}) { V q = a + (b - a) * t; p.push_back(q); for (V o : {V{0.02L, 0, 0}, V{0, 0.02L, 0}, V{0, 0, 0.02L}}) { p.push_back(q + o); p.push_back(q - o); } }
                Segment<double, 3> s(pt(T.map(a)), pt(T.map(b))); R L = (b - a).len();
                probeAll("Segment", T, s, p, [&](const V& q) { return distSeg(q, a, b); }, L);
                probeAll("Segment reversed", T, s.getReversed(), p, [&](const V& q) { return distSeg(q, a, b); }, L);
                Pts col; for (R t : {-1.0L, -0.01L, 0.0L, 0.01L, 0.3L, 0.5L, 0.99L, 1.0L, 1.01L, 2.0L}) col.push_back(a + (b - a) * t);
                probe("Segment.contains(p,onLine)", T, col, [&](const V& q) { return distSeg(q, a, b); }, L, [&](const FP& q) { return s.contains(q, false) && s.contains(q, double(1e-6L * L * T.s), false); });
                // lines through the same points
                for (auto& l : {s.supportingLine(), Line<double, 3>(pt(T.map(b)), dir(T.rot(a - b)))})
                    probe("Line.contains", T, p, [&](const V& q) { return distLine(q, a, b - a); }, 1 / T.s < 1 ? 1 : 1, [&](const FP& q) { return T.s < 0.5L ? l.contains(q, 1e-10) : l.contains(q); });
                probe("Line.contains(eps)", T, p, [&](const V& q) { return distLine(q, a, b - a); }, 1, [&](const FP& q) { return s.supportingLine().contains(q, double(1e-4L * T.s)); });
            }
        // ---- planes
        for (V n : {V{0, 0, 1}, V{1, 0, 0}, V{1, 1, 0}, V{1, -2, 2}, V{-1, -1, -1}}) for (V o : {V{0, 0, 0}, V{1, -1, 0.5L}})
            if (on(vf::cat("plane", str(n), str(o))))
            {
                V b1 = std::abs(n.x) + std::abs(n.y) > 0 ? V{-n.y, n.x, 0} : V{1, 0, 0}; V b2 = n.cross(b1);
                Pts p = G1; for (R i = -2; i <= 2; ++i) for (R j = -2; j <= 2; ++j) for (R k : {0.0L, 0.01L, -0.01L}) p.push_back(o + b1 * i + b2 * j + n * k);
                auto d = [&](const V& q) { return std::abs((q - o).dot(n.unit())); };
                std::vector<Plane<double, 3>> pl{Plane<double, 3>(pt(T.map(o)), dir(T.rot(n))), Plane<double, 3>(pt(T.map(o)), pt(T.map(o + b1)), pt(T.map(o + b2))), Plane<double, 3>(pt(T.map(o - b1)), pt(T.map(o + b2 * 2)), pt(T.map(o + b1 * 3 + b2))), Plane<double, 3>(pt(T.map(o)), dir(T.rot(b1)), dir(T.rot(b2)), dir(T.rot(n)))};
                for (auto& P : pl)
                {
                    if (T.s >= 1) probe("Plane.contains", T, p, d, 1, [&](const FP& q) { return P.contains(q); });
                    probe("Plane.contains(eps)", T, p, d, 1, [&](const FP& q) { return P.contains(q, double(1e-6L * T.s)); });
                    // tolerance is a distance: just inside / outside
                    probe("Plane.contains tolerance", T, p, [&](const V& q) { return d(q) > 0.005L && d(q) < 0.05L ? 0 : d(q); }, 1, [&](const FP& q) { return P.contains(q, double(0.05L * T.s)); }, 0.06L);
                }
            }
        // ---- circle, ellipse, disk, arcs
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {3, 0.5L}, {0.25L, 0.25L}})
        {
            Pts c; for (int k = 0; k < 48; ++k) for (R f : {1.0L, 0.5L, 0.98L, 1.02L}) { R t = PI * k / 24; for (R z : {0.0L, 0.05L, -0.05L}) c.push_back({f * a * std::cos(t), f * b * std::sin(t), z * a}); }
            c.push_back({0, 0, 0}); c.push_back({a, 0, 0}); c.push_back({0, b, 0}); c.push_back({-a, 0, 0}); c.push_back({0, -b, 0}); Pts all = c; all.insert(all.end(), G1.begin(), G1.end());
            V o{0.5L, -0.25L, 1}; // center offset (local)
            auto sh = [&](Pts ps) { for (auto& p : ps) p = p + o; return ps; };
            if (a == b && on(vf::cat("circle", (double)a)))
            {
                Circle<double, 3> ci(pt(T.map(o)), dir(T.rot({0, 0, 1})), double(a * T.s));
                probeAll("Circle", T, ci, sh(all), [&](const V& q) { return distEllipse(q - o, a, a); }, a);
            }
            Ellipse<double, 3> el(pt(T.map(o)), dir(T.rot({1, 0, 0})), dir(T.rot({0, 1, 0})), double(a * T.s), double(b * T.s));
            if (on(vf::cat("ellipse", (double)a, "/", (double)b)))
            {
                if (T.s >= 1) probe("Ellipse.contains(p)", T, sh(all), [&](const V& q) { return distEllipse(q - o, a, b); }, a, [&](const FP& p) { return el.contains(p); });
                probe("Ellipse.contains(p,eps)", T, sh(all), [&](const V& q) { return distEllipse(q - o, a, b); }, a, [&](const FP& p) { return el.contains(p, 1e-6); });
                probe("Ellipse.contains(p,false)", T, sh(c), [&](const V& q) { V d = q - o; return d.z != 0 ? 0.5e-3L * a : distEllipse(d, a, b); }, a, [&](const FP& p) { return el.contains(p, false); });
            }
            if (on(vf::cat("disk", (double)a, "/", (double)b)))
            {
                Disk<double> d1(el), d2(pt(T.map(o)), dir(T.rot({-1, 0, 0})), dir(T.rot({0, 1, 0})), double(a * T.s), double(b * T.s));
                for (auto& d : {d1, d2})
                {
                    auto f = [&](const V& q) { return distDisk(q - o, a, b); };
                    if (T.s >= 1) { probe("Disk.contains(p)", T, sh(all), f, a, [&](const FP& p) { return d.contains(p); });
                                    Pts in; for (auto p : all) if (p.z == 0) in.push_back(p + o); probe("Disk.contains(p,false)", T, in, f, a, [&](const FP& p) { return d.contains(p, false); }); }
                    for (double e : {1e-6, 1e-5}) probe("Disk.contains(p,eps)", T, sh(all), f, a, [&](const FP& p) { return d.contains(p, e); }, T.s < 1 ? 0.012L : 1e-3L);
                }
            }
            // arcs between multiples of 30 degrees
            if (a != 3) for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j)
                if (T.s == 1 && (vf::thorough || !T.lattice || T.t.x != 0 || T.name[1] == '0') && on(vf::cat("arc", (double)a, "/", (double)b, ":", i * 30, "-", j * 30)))
                {
                    R p0 = PI * i / 6, p1 = PI * j / 6; if (j <= i) p1 += 2 * PI;
                    auto P = [&](int k) { return el.getPointFromAngle(M_PI * k / 6); };
                    if (i == j) { EllipseArc<double, 3> arc(el, P(i), P(i)); probe("EllipseArc(full).contains", T, sh(c), [&](const V& q) { return distArc(q - o, a, b, p0, p1); }, a, [&](const FP& p) { return arc.contains(p, 1e-6); }); continue; }
                    EllipseArc<double, 3> arc(el, P(i), P(j));
                    auto f = [&](const V& q) { return distArc(q - o, a, b, p0, p1); };
                    probe("EllipseArc.contains(eps)", T, sh(c), f, a, [&](const FP& p) { return arc.contains(p, 1e-6); });
                }
        }
        // ---- planar polygons
        struct Shape { const char* n; Pts c; };
        static const std::vector<Shape> shapes{
            {"tri-right", {{0, 0}, {2, 0}, {0, 2}}}, {"tri-obtuse", {{-2, 0}, {2, 0}, {2.5L, 1}}}, {"tri-thin", {{-2, -1}, {2, -0.5L}, {2, -0.25L}}}, {"tri-acute", {{-1, -1}, {1, -1}, {0, 1.5L}}},
            {"square", {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}}, {"rect", {{0, 0}, {2.5L, 0}, {2.5L, 0.5L}, {0, 0.5L}}}, {"rhombus", {{-2, 0}, {0, -1}, {2, 0}, {0, 1}}}, {"trapezoid", {{-2, -1}, {2, -1}, {0.5L, 1}, {-0.5L, 1}}},
            {"kite", {{0, -2}, {1, 0.5L}, {0, 1}, {-1, 0.5L}}}, {"parallelogram", {{0, 0}, {2, 0}, {3, 1}, {1, 1}}}, {"pentagon", {{-1, -1}, {1, -1}, {2, 0.5L}, {0, 2}, {-2, 0.5L}}},
            {"hexagon", {{-1, -1}, {0.5L, -1.5L}, {2, -0.5L}, {1.5L, 1}, {0, 2}, {-1.5L, 1}}}, {"octagon", {{-1, -2}, {1, -2}, {2, -1}, {2, 1}, {1, 2}, {-1, 2}, {-2, 1}, {-2, -1}}}};
        for (auto& s : shapes)
        {
            Pts p = G1; for (auto& q : edgePts(s.c)) p.push_back(q); for (auto& q : nearPts(s.c)) p.push_back(q);
            const int n = s.c.size(); R size = 0; for (auto& x : s.c) for (auto& y : s.c) size = std::max(size, (x - y).len());
            auto f = [&](const V& q) { return distPoly(q, s.c); };
            for (int rev = 0; rev < 2; ++rev) for (int st = 0; st < n; ++st)
            {
                if ((T.s != 1 || (!vf::thorough && T.lattice && T.name[1] != '0' && T.t.x == 0)) && (st || rev)) continue;
                if (!on(vf::cat(s.n, ":start", st, rev ? "reversed" : ""))) continue;
                std::vector<FP> c; for (int k = 0; k < n; ++k) c.push_back(pt(T.map(s.c[((rev ? -k : k) + st + 2 * n) % n])));
                Polygon<double, 3> poly(c);
                probeAll("Polygon", T, poly, p, f, size); probeInPlane("Polygon", T, poly, p, f, size);
                if (n == 3) { Triangle<double, 3> t(c[0], c[1], c[2]); probeAll("Triangle", T, t, p, f, size); probeInPlane("Triangle", T, t, p, f, size); }
                if (n == 4) { Quadrilateral<double, 3> q(c[0], c[1], c[3], c[2]); probeAll("Quadrilateral", T, q, p, f, size); probeInPlane("Quadrilateral", T, q, p, f, size); }
            }
        }
        // ---- solids
        for (auto [lo, hi] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {1, 1, 1}}, {{-1, -2, -0.5L}, {0.5L, 1, 1}}, {{-0.5L, 0.5L, -1}, {0, 2, 0.5L}}})
            if (T.lattice && on(vf::cat("box", str(lo), str(hi))))
            {
                V a = T.map(lo), b = T.map(hi); V mn{std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)}, mx{std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)};
                Pts p = G1; for (auto& q : grid(-3, 3, 0.75L, -2, 2, 0.5L)) p.push_back(q);
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (R f : {0.0L, 0.02L, -0.02L}) { auto m = [&](R l, R h, int c) { return c == 0 ? l - f : c == 1 ? (l + h) / 2 : h + f; }; p.push_back({m(lo.x, hi.x, i), m(lo.y, hi.y, j), m(lo.z, hi.z, k)}); }
                auto f = [&](const V& q) { return distBox(q, lo, hi); };
                probeAll("Box", T, Box<double>(double(mn.x), double(mn.y), double(mn.z), double(mx.x), double(mx.y), double(mx.z)), p, f, (hi - lo).len());
                probeAll("Box(points)", T, Box<double>(pt(mn), pt(mx)), p, f, (hi - lo).len());
            }
        for (auto [r, h] : std::vector<std::pair<R, R>>{{1, 2}, {2, 0.5L}, {0.5L, 3}})
        {
            Pts p; for (int k = 0; k < 24; ++k) for (R z : {-0.5L, -0.01L, 0.0L, 0.01L, 0.3L, 0.5L, 0.99L, 1.0L, 1.01L, 1.5L}) for (R f : {0.0L, 0.25L, 0.4L, 0.5L, 0.6L, 0.98L, 1.0L, 1.02L, 1.5L}) p.push_back({f * r * std::cos(PI * k / 12), f * r * std::sin(PI * k / 12), z * h});
            for (auto& q : G1) p.push_back(q);
            R size = 0.5L * (r + h); const auto ax = dir(T.rot({0, 0, 1})); const auto o = pt(T.map({0, 0, 0})); const Circle<double, 3> c(o, ax, double(r * T.s)); const Disk<double> d(o, dir(T.rot({1, 0, 0})), dir(T.rot({0, 1, 0})), double(r * T.s), double(r * T.s));
            if (on(vf::cat("cylinder", (double)r, "x", (double)h)))
            {
                auto f = [&](const V& q) { return distTube(q, 0, r, h); };
                probeAll("Cylinder(circle)", T, Cylinder<double>(c, double(h * T.s)), p, f, size);
                probeAll("Cylinder(disk)", T, Cylinder<double>(d, double(h * T.s)), p, f, size);
                probeAll("CylinderSurface.cylinder", T, CylinderSurface<double>(c, double(h * T.s)).cylinder(), p, f, size);
                if (T.name.rfind("L0+(0,0,0)", 0) == 0) { probeAll("Cylinder(r,h)", T, Cylinder<double>(double(r * T.s), double(h * T.s)), p, f, size);
                    Pts up = p; for (auto& q : up) q.z += 2; probeAll("Cylinder(r,h,z)", T, Cylinder<double>(double(r * T.s), double(h * T.s), double(2 * T.s)), up, [&](const V& q) { return distTube(q - V{0, 0, 2}, 0, r, h); }, size);
                    probeAll("CylinderSurface(r,h)", T, CylinderSurface<double>(double(r * T.s), double(h * T.s)), p, [&](const V& q) { return distTube(q, r, r, h); }, size);
                    probeAll("HollowCylinder(r,R,h)", T, HollowCylinder<double>(double(0.5L * r * T.s), double(r * T.s), double(h * T.s)), p, [&](const V& q) { return distTube(q, 0.5L * r, r, h); }, size); }
            }
            if (on(vf::cat("cylsurface", (double)r, "x", (double)h)))
            {
                auto f = [&](const V& q) { return distTube(q, r, r, h); };
                probeAll("CylinderSurface", T, CylinderSurface<double>(c, double(h * T.s)), p, f, size);
                probeAll("Cylinder.lateralFace", T, Cylinder<double>(d, double(h * T.s)).lateralFace(), p, f, size);
            }
            for (R q0 : {0.25L, 0.5L, 1.0L})
                if (on(vf::cat("hollow", (double)r, "x", (double)h, "in", (double)q0)))
                {
                    auto mk = [&] { return HollowCylinder<double>(o, ax, double(q0 * r * T.s), double(r * T.s), double(h * T.s)); };
                    auto hc = mk(); auto f = [&](const V& q) { return distTube(q, q0 * r, r, h); };
                    probe("HollowCylinder.contains(p)", T, p, f, size, [&](const FP& x) { return hc.contains(x); });
                    probe("HollowCylinder.contains(p,eps)", T, p, f, size, [&](const FP& x) { return hc.contains(x, double(1e-5L * size * T.s)); });
                    for (R e : {0.06L, 0.3L, 0.6L}) probe("HollowCylinder.contains(p,large eps)", T, p, f, size, [&](const FP& x) { return hc.contains(x, double(e * size * T.s)); }, 2 * e, 0.5L * e);
                    probeAll("HollowCylinder.fullCylinder", T, hc.fullCylinder(), p, [&](const V& q) { return distTube(q, 0, r, h); }, size);
                }
        }
        for (R r : {0.5L, 1.0L, 2.0L}) for (V o : {V{0, 0, 0}, V{1, -0.5L, 0.25L}})
            if (on(vf::cat("sphere", (double)r, str(o))))
            {
                Pts p = G1; for (auto& q : grid(-1, 1, 0.5L, -1, 1, 0.5L)) if (q.n2() > 0) for (R f : {0.5L, 0.99L, 1.0L, 1.01L, 1.5L}) p.push_back(o + q.unit() * (r * f));
                probeAll("Sphere", T, Sphere<double>(pt(T.map(o)), double(r * T.s)), p, [&](const V& q) { return std::max((R)0, (q - o).len() - r); }, r);
            }
    }
    return vf::finish();
}
