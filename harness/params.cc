// C02: parametrisations and projections on a lattice of configurations.
#include "geo.hh"
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
using namespace Frackit; using namespace ref;

static R tolOf(const Pose& T) { return T.s * (1e-10L + 1e-13L * T.t.len()); }
static void same(const std::string& what, const FP& p, const V& e, const Pose& T, const std::string& info)
{ vf::step(); V g = from(p); vf::check((g - e).len() <= tolOf(T), what, [&] { return vf::cat(info, ": got ", str(g), " expected ", str(e)); }); }
static R mod2pi(R a) { a = std::fmod(a, 2 * PI); if (a < 0) a += 2 * PI; return a; }
static R dAngle(R a, R b) { R d = mod2pi(a - b); return std::min(d, 2 * PI - d); }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    std::vector<Pose> poses = combine(allRotations(), {{0, 0, 0}, {10, -7, 3}, {-100, 50, 25}}, vf::thorough ? std::vector<R>{1, 1e-3L, 1e3L, 0.37L} : std::vector<R>{1, 1e-3L, 1e3L});
    for (auto& T : poses)
    {
        auto on = [&](const std::string& k) { return vf::begin(k + "@" + T.name); };
        // ---- segments, lines
        for (auto [a, b] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {2, 0, 0}}, {{1, 0, 0}, {-1, 0, 0}}, {{-1, -1, 0}, {2, 1, 0}}, {{-1, 1, -1}, {1, -1, 1}}, {{0, 0, 0}, {0.25L, 0.5L, 0.25L}}, {{-2, -2, -1}, {2, 2, 1}}})
            if (on(vf::cat("segment", str(a), str(b)))) vf::guarded("Segment", [&, a = a, b = b]
            {
                Segment<double, 3> s(pt(T.map(a)), pt(T.map(b))), r = s.getReversed();
                for (int k = 0; k <= 24; ++k) { R t = k / 24.0L; const auto p = s.getPoint(double(t));
                    same("Segment.getPoint", p, T.map(a + (b - a) * t), T, vf::cat("param ", k, "/24"));
                    same("Segment.getReversed.getPoint", r.getPoint(double(t)), T.map(b + (a - b) * t), T, vf::cat("param ", k, "/24"));
                    vf::check(s.contains(p), "Segment.contains(getPoint)", [&] { return vf::cat("param ", k, "/24"); }); }
                same("Segment.center", s.center(), T.map((a + b) * 0.5L), T, "center"); same("Segment.source", r.target(), T.map(a), T, "r.target"); same("Segment.source", r.source(), T.map(b), T, "r.source");
                vf::check((fromDir(s.direction()) - T.rot((b - a).unit())).len() < 1e-12L, "Segment.direction", "direction differs");
                const auto L = s.supportingLine(); vf::check((fromDir(L.direction()) - T.rot((b - a).unit())).len() < 1e-12L, "Segment.supportingLine", "direction differs");
                for (R x = -2; x <= 2; x += 1) for (R y = -2; y <= 2; y += 1) for (R z = -2; z <= 2; z += 1)
                { V q{x, y, z}, d = (b - a).unit(); V e = a + d * (q - a).dot(d); const auto pr = L.projection(pt(T.map(q)));
                  same("Line.projection", pr, T.map(e), T, vf::cat("of ", str(q))); same("Line.projection idempotent", L.projection(pr), T.map(e), T, vf::cat("of ", str(q)));
                  vf::check(L.contains(pr, double(1e-7L * T.s)), "Line.contains(projection)", [&] { return str(q); });
                  same("Line.projection (reversed)", r.supportingLine().projection(pt(T.map(q))), T.map(e), T, vf::cat("of ", str(q))); }
                // the same in 1d/2d world
                Segment<double, 2> s2(Point<double, 2>(double(a.x), double(a.y)), Point<double, 2>(double(b.x), double(b.y))); Segment<double, 1> s1(Point<double, 1>(double(a.x)), Point<double, 1>(double(b.x)));
                for (int k = 0; k <= 8; ++k) { R t = k / 8.0L; V e = a + (b - a) * t; auto p2 = s2.getPoint(double(t)); auto p1 = s1.getPoint(double(t)); vf::step();
                    vf::check(std::abs(p2.x() - e.x) + std::abs(p2.y() - e.y) < 1e-12L, "Segment2d.getPoint", "differs"); vf::check(std::abs(p1.x() - e.x) < 1e-12L, "Segment1d.getPoint", "differs"); }
            });
        // ---- planes
        for (V n : {V{0, 0, 1}, V{0, 0, -1}, V{1, 0, 0}, V{1, 1, 0}, V{1, -2, 2}, V{-1, -1, -1}, V{0, 1, 1e-3L}}) for (V o : {V{0, 0, 0}, V{1, -1, 0.5L}})
            if (on(vf::cat("plane", str(n), str(o)))) vf::guarded("Plane", [&]
            {
                V nu = n.unit(); V b1 = std::abs(n.x) + std::abs(n.y) > 0 ? V{-n.y, n.x, 0} : V{1, 0, 0}; V b2 = n.cross(b1);
                std::vector<Plane<double, 3>> pl{Plane<double, 3>(pt(T.map(o)), dir(T.rot(n))), Plane<double, 3>(pt(T.map(o)), pt(T.map(o + b1)), pt(T.map(o + b2))), Plane<double, 3>(pt(T.map(o)), pt(T.map(o + b2)), pt(T.map(o + b1))),
                    Plane<double, 3>(pt(T.map(o - b1)), pt(T.map(o + b2 * 2)), pt(T.map(o + b1 * 3 + b2))), Plane<double, 3>(pt(T.map(o)), dir(T.rot(b1)), dir(T.rot(b2)), dir(T.rot(n)))};
                for (size_t i = 0; i < pl.size(); ++i)
                {
                    auto& P = pl[i]; V gn = fromDir(P.normal()), g1 = fromDir(P.base1()), g2 = fromDir(P.base2()), wn = T.rot(nu);
                    vf::check(gn.cross(wn).len() < 1e-12L, "Plane.normal", [&] { return vf::cat("normal ", str(gn), " expected +-", str(wn)); });
                    if (i == 0 || i == 1 || i == 4) vf::check((gn - wn).len() < 1e-12L, "Plane.normal orientation", [&] { return vf::cat("normal ", str(gn), " expected ", str(wn), " constructor ", i); });
                    if (i == 2) vf::check((gn + wn).len() < 1e-12L, "Plane.normal orientation", [&] { return vf::cat("normal ", str(gn), " expected -", str(wn), " constructor ", i); });
                    vf::check(std::abs(g1.len() - 1) < 1e-12L && std::abs(g2.len() - 1) < 1e-12L && std::abs(g1.dot(g2)) < 1e-12L && std::abs(g1.dot(gn)) < 1e-12L && std::abs(g2.dot(gn)) < 1e-12L && g1.cross(g2).dot(gn) > 0.999L, "Plane bases", [&] { return vf::cat("not a right-handed orthonormal frame: ", str(g1), str(g2), str(gn)); });
                    auto proj = [&](const V& q) { return q - nu * (q - o).dot(nu); };
                    for (R x = -2; x <= 2; x += 1) for (R y = -2; y <= 2; y += 1) for (R z = -2; z <= 2; z += 1)
                    { V q{x, y, z}; const auto pr = P.projection(pt(T.map(q))); same("Plane.projection", pr, T.map(proj(q)), T, vf::cat("of ", str(q), " constructor ", i)); same("Plane.projection idempotent", P.projection(pr), T.map(proj(q)), T, str(q));
                      vf::check(P.contains(pr, double(1e-7L * T.s)), "Plane.contains(projection)", [&] { return str(q); }); }
                    for (V d : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{1, 1, 1}, V{-2, 1, 0}, V{0, 1, -1}}) for (V q : {V{0, 0, 0}, V{1, 2, -1}, o, o + nu, o + nu * T.s, o - nu * (1 / T.s)})
                    {
                        Segment<double, 3> s(pt(T.map(q)), pt(T.map(q + d))); const auto ps = P.projection(s);
                        same("Plane.projection(segment)", ps.source(), T.map(proj(q)), T, "source"); same("Plane.projection(segment)", ps.target(), T.map(proj(q + d)), T, "target");
                        if (d.unit().cross(nu).len() < 1e-2L) continue;
                        const auto Lp = P.projection(s.supportingLine()); V w = from(Lp.supportingPoint()), wd = fromDir(Lp.direction()), e0 = T.map(proj(q)), e1 = T.rot((proj(q + d) - proj(q)).unit()); vf::step();
                        vf::check(distLine(w, e0, e1) <= tolOf(T) * 100 && (wd - e1).len() < 1e-8L, "Plane.projection(line)", [&] { return vf::cat("of line ", str(q), str(d), ": point ", str(w), " dir ", str(wd), " expected ", str(e0), str(e1)); });
                    }
                }
            });
        // ---- circles
        for (R r : {1.0L, 2.5L, 0.125L}) for (V n : {V{0, 0, 1}, V{0, 0, -1}, V{1, 2, -2}, V{0, 1, 0}})
            if (on(vf::cat("circle", (double)r, str(n)))) vf::guarded("Circle", [&]
            {
                V o{0.5L, -0.25L, 1}; Circle<double, 3> c(pt(T.map(o)), dir(T.rot(n)), double(r * T.s));
                V b1 = fromDir(c.base1()), b2 = fromDir(c.base2()), wn = T.rot(n.unit());
                vf::check(b1.cross(b2).dot(wn) > 1 - 1e-12L && std::abs(b1.dot(wn)) < 1e-12L && std::abs(b2.dot(wn)) < 1e-12L && std::abs(b1.dot(b2)) < 1e-12L, "Circle bases", "not a right-handed frame with the normal");
                for (int k = 0; k <= 48; ++k) { R t = k / 48.0L, a = 2 * PI * t; V e = T.map(o) + (b1 * std::cos(a) + b2 * std::sin(a)) * (r * T.s);
                    const auto p = c.getPoint(double(t)); same("Circle.getPoint", p, e, T, vf::cat("param ", k, "/48")); vf::check(c.contains(p), "Circle.contains(getPoint)", [&] { return vf::cat("param ", k, "/48"); });
                    same("Circle.getPointFromAngle", c.getPointFromAngle(double(a)), e, T, vf::cat("angle ", (double)a)); same("Circle.getPointFromAngle", c.getPointFromAngle(double(a + 2 * PI)), e, T, vf::cat("angle ", (double)a, "+2pi")); }
            });
        // ---- ellipses, arcs, disks
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {3, 0.5L}, {0.25L, 0.25L}, {100, 1}})
        {
            V o{0.5L, -0.25L, 1};
            for (int m = 0; m < 4; ++m) // signs of the axes
            {
                V ax{m & 1 ? -1.0L : 1.0L, 0, 0}, ay{0, m & 2 ? -1.0L : 1.0L, 0};
                auto mk = [&, a = a, b = b] { return Ellipse<double, 3>(pt(T.map(o)), dir(T.rot(ax)), dir(T.rot(ay)), double(a * T.s), double(b * T.s)); };
                auto loc = [&, a = a, b = b](R t) { return o + ax * (a * std::cos(t)) + ay * (b * std::sin(t)); };
                if (on(vf::cat("ellipse", (double)a, ",", (double)b, ",", m))) vf::guarded("Ellipse", [&, a = a, b = b]
                {
                    auto E = mk(); Disk<double> D(E);
                    for (int k = 0; k < 96; ++k)
                    {
                        R t = k / 96.0L, ang = 2 * PI * t; V e = T.map(loc(ang)); const auto p = E.getPoint(double(t));
                        same("Ellipse.getPoint", p, e, T, vf::cat("param ", k, "/96")); same("Ellipse.getPointFromAngle", E.getPointFromAngle(double(ang)), e, T, vf::cat("angle ", k, "/96")); same("Ellipse.getPointFromAngle", E.getPointFromAngle(double(ang + 2 * PI)), e, T, vf::cat("angle 2pi+", k, "/96"));
                        vf::check(E.contains(p), "Ellipse.contains(getPoint)", [&] { return vf::cat("param ", k, "/96"); });
                        for (int chk = 0; chk < 2; ++chk)
                        {
                            const double ga = E.getAngle(p, chk), gp = E.getParam(p, chk); vf::step(2);
                            vf::check(dAngle(ga, ang) < 1e-6L && ga > -1e-9 && ga < 2 * PI + 1e-9L, "Ellipse.getAngle", [&] { return vf::cat("angle of the point at ", (double)ang, " is ", ga); });
                            vf::check(dAngle(2 * PI * gp, ang) < 1e-6L && gp > -1e-9 && gp < 1 + 1e-9, "Ellipse.getParam", [&] { return vf::cat("param of the point at ", (double)t, " is ", gp); });
                        }
                        for (int j = 0; j <= 4; ++j) { R f = j / 4.0L; V q = T.map(o + (loc(ang) - o) * f); const auto dp = D.getPoint(double(t), double(f)); same("Disk.getPoint", dp, q, T, vf::cat("params ", k, "/96,", j, "/4")); vf::check(D.contains(dp), "Disk.contains(getPoint)", [&] { return vf::cat("params ", k, "/96,", j, "/4"); }); }
                    }
                    // parameters a hair off the axes must come back as they are
                    for (int q = 0; q < 4; ++q) for (R d : {1e-2L, 1e-3L, 1e-4L, 1e-5L, 3e-6L}) for (int sg = -1; sg <= 1; sg += 2)
                    {
                        R ang = mod2pi(PI * q / 2 + sg * d); V e = T.map(loc(ang)); const auto p = E.getPoint(double(ang / (2 * PI)));
                        same("Ellipse.getPoint", p, e, T, vf::cat("axis ", q, " off by ", double(sg * d))); same("Ellipse.getPointFromAngle", E.getPointFromAngle(double(ang)), e, T, vf::cat("axis ", q, " off by ", double(sg * d)));
                        for (int chk = 0; chk < 2; ++chk)
                        {
                            const double ga = E.getAngle(p, chk), gp = E.getParam(p, chk); vf::step(2);
                            vf::check(dAngle(ga, ang) < 1e-6L && ga > -1e-9 && ga < 2 * PI + 1e-9L, "Ellipse.getAngle near an axis", [&] { return vf::cat("angle of the point at ", (double)ang, " is ", ga); });
                            vf::check(dAngle(2 * PI * gp, ang) < 1e-6L && gp > -1e-9 && gp < 1 + 1e-9, "Ellipse.getParam near an axis", [&] { return vf::cat("param of the point at ", (double)ang, " is ", gp); });
                        }
                    }
                    same("Ellipse.getPoint", E.getPoint(1.0), T.map(loc(0)), T, "param 1"); same("Disk.getPoint", D.getPoint(1.0, 1.0), T.map(loc(0)), T, "params 1,1");
                    for (V q : {o, o + ax * (a / 2), o + ax * (2 * a), o + V{0, 0, a}, o + ax * a + V{0, 0, a}, o + ay * (b * 1.01L)}) { vf::step();
                        vf::check(vf::throws([&] { E.getAngle(pt(T.map(q))); }), "Ellipse.getAngle off the ellipse", [&] { return vf::cat("no error for ", str(q)); }); vf::check(vf::throws([&] { E.getParam(pt(T.map(q))); }), "Ellipse.getParam off the ellipse", [&] { return vf::cat("no error for ", str(q)); }); }
                    const auto BE = D.boundingEllipse(); for (int k = 0; k < 8; ++k) same("Disk.boundingEllipse", BE.getPoint(k / 8.0), T.map(loc(PI * k / 4)), T, vf::cat("param ", k, "/8"));
                });
                for (int i = 0; i < 16; i += 1) if (m == 0 || i % 4 == 1) if (on(vf::cat("arc", (double)a, ",", (double)b, ",", m, ",", i)))
                    vf::guarded("EllipseArc", [&] { auto E = mk(); for (int j = 0; j < 16; ++j)
                    {
                        R s = PI * i / 8, d = i == j ? 2 * PI : mod2pi(PI * (j - i) / 8); EllipseArc<double, 3> A(E, pt(T.map(loc(s))), pt(T.map(loc(PI * j / 8))));
                        vf::check(A.isFullEllipse() == (i == j), "EllipseArc.isFullEllipse", [&] { return vf::cat("target ", j); });
                        vf::check(dAngle(A.sourceAngleOnEllipse(), s) < 1e-6L, "EllipseArc.sourceAngle", [&] { return vf::cat(A.sourceAngleOnEllipse(), " expected ", (double)s); });
                        vf::check(dAngle(A.targetAngleOnEllipse(), PI * j / 8) < 1e-6L, "EllipseArc.targetAngle", [&] { return vf::cat(A.targetAngleOnEllipse(), " expected ", double(PI * j / 8)); });
                        for (int k = 0; k <= 12; ++k) { R t = k / 12.0L; const auto p = A.getPoint(double(t)); V e = T.map(loc(s + d * t)), g = from(p); vf::step();
                            vf::check((g - e).len() <= tolOf(T) * 1e4L * a, "EllipseArc.getPoint", [&] { return vf::cat("target ", j, " param ", k, "/12: got ", str(g), " expected ", str(e)); });
                            vf::check(A.contains(p, 1e-6), "EllipseArc.contains(getPoint)", [&] { return vf::cat("target ", j, " param ", k, "/12"); }); }
                        same("EllipseArc.source", A.source(), T.map(loc(s)), T, "source"); same("EllipseArc.target", A.target(), T.map(loc(PI * j / 8)), T, "target");
                        for (int k = 0; k < 8; ++k) same("EllipseArc.supportingEllipse", A.supportingEllipse().getPoint(k / 8.0), T.map(loc(PI * k / 4)), T, vf::cat("param ", k, "/8"));
                    } });
                // arcs that start or end a hair off an axis, and arcs of small span
                for (int q = 0; q < 4; ++q) if (on(vf::cat("arcaxis", (double)a, ",", (double)b, ",", m, ",", q))) vf::guarded("EllipseArc", [&, a = a]
                {
                    auto E = mk(); const std::vector<R> ds{0, 1e-4L, -1e-4L, 1e-3L, -1e-3L, 1e-2L, -1e-2L, 0.2L, 1.7L, -2.5L};
                    for (R ds1 : ds) for (R ds2 : ds) if (std::min(std::abs(ds1), std::abs(ds2)) < 0.1L)
                    {
                        R s = mod2pi(PI * q / 2 + ds1), t = mod2pi(PI * q / 2 + ds2); if (ds1 != ds2 && (loc(s) - loc(t)).len() < 1e-6L * a) continue;
                        const bool full = ds1 == ds2; R d = full ? 2 * PI : mod2pi(t - s); EllipseArc<double, 3> A(E, pt(T.map(loc(s))), pt(T.map(loc(t)))); const auto info = vf::cat("axis ", q, " source ", (double)ds1, " target ", (double)ds2);
                        vf::check(A.isFullEllipse() == full, "EllipseArc.isFullEllipse", info);
                        vf::check(dAngle(A.sourceAngleOnEllipse(), s) < 1e-6L, "EllipseArc.sourceAngle", [&] { return vf::cat(info, ": ", A.sourceAngleOnEllipse(), " expected ", (double)s); });
                        vf::check(dAngle(A.targetAngleOnEllipse(), t) < 1e-6L, "EllipseArc.targetAngle", [&] { return vf::cat(info, ": ", A.targetAngleOnEllipse(), " expected ", (double)t); });
                        for (int k = 0; k <= 6; ++k) { R f = k / 6.0L; const auto p = A.getPoint(double(f)); V e = T.map(loc(s + d * f)), g = from(p); vf::step();
                            vf::check((g - e).len() <= tolOf(T) * 1e4L * a, "EllipseArc.getPoint", [&] { return vf::cat(info, " param ", k, "/6: got ", str(g), " expected ", str(e)); });
                            vf::check(A.contains(p, 1e-6), "EllipseArc.contains(getPoint)", [&] { return vf::cat(info, " param ", k, "/6"); }); }
                        if (!full && d < 6) for (R f : {1.25L, 1 + (2 * PI / d - 1) / 2}) if (d * (f - 1) > 1e-5L && d * f < 2 * PI - 1e-5L) vf::check(!A.contains(pt(T.map(loc(s + d * f))), 1e-6), "EllipseArc.contains off the arc", [&] { return vf::cat(info, " factor ", (double)f); });
                    }
                });
            }
        }
        // ---- cylinder surfaces: points of the bounding circles, tangent planes
        for (auto [r, h] : std::vector<std::pair<R, R>>{{1, 2}, {0.5L, 5}, {3, 0.25L}}) for (V n : {V{0, 0, 1}, V{2, -1, 2}, V{-1, 0, 0}})
            if (on(vf::cat("cylinder", (double)r, ",", (double)h, str(n)))) vf::guarded("CylinderSurface", [&, r = r, h = h]
            {
                V o{0.5L, -0.25L, 1}, nu = n.unit(); Circle<double, 3> c(pt(T.map(o)), dir(T.rot(n)), double(r * T.s)); CylinderSurface<double> S(c, double(h * T.s)); Cylinder<double> C(c, double(h * T.s)); const auto S2 = C.lateralFace();
                V b1 = fromDir(c.base1()), b2 = fromDir(c.base2());
                for (const CylinderSurface<double>* s : {(const CylinderSurface<double>*)&S, (const CylinderSurface<double>*)&S2})
                {
                    vf::check((fromDir(s->base1()) - b1).len() < 1e-12L && (fromDir(s->base2()) - b2).len() < 1e-12L && (fromDir(s->base3()) - T.rot(nu)).len() < 1e-12L && (fromDir(s->direction()) - T.rot(nu)).len() < 1e-12L, "CylinderSurface bases", "frame differs from that of the bottom circle");
                    for (int k = 0; k <= 24; ++k) { R a = PI * k / 12; V rad = b1 * std::cos(a) + b2 * std::sin(a);
                        for (int j = 0; j <= 4; ++j) { V e = T.map(o) + (T.rot(nu) * (h * j / 4) + rad * r) * T.s; auto P = s->getTangentPlane(pt(e)); vf::step(); V gn = fromDir(P.normal());
                            vf::check((gn - rad).len() < 1e-9L, "CylinderSurface.getTangentPlane normal", [&] { return vf::cat("at ", k, ",", j, ": ", str(gn), " expected ", str(rad)); }); vf::check(P.contains(pt(e), double(1e-9L * T.s)), "CylinderSurface.getTangentPlane point", "plane misses the point");
                            vf::check(s->contains(pt(e)), "CylinderSurface.contains", [&] { return vf::cat(k, ",", j); }); }
                        same("CylinderSurface.lowerBoundingCircle", s->lowerBoundingCircle().getPoint(k / 24.0), T.map(o) + rad * (r * T.s), T, vf::cat(k, "/24"));
                        same("CylinderSurface.upperBoundingCircle", s->upperBoundingCircle().getPoint(k / 24.0), T.map(o + nu * h) + rad * (r * T.s), T, vf::cat(k, "/24")); }
                    for (int k = 0; k <= 4; ++k) same("CylinderSurface.centerSegment", s->centerSegment().getPoint(k / 4.0), T.map(o + nu * (h * k / 4)), T, vf::cat(k, "/4"));
                }
            });
    }
    return vf::finish();
}
