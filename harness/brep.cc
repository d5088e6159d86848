// C04: B-rep conversion and bounding boxes.
#include "geo.hh"
#include <frackit/precision/precision.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/occ/geomutilities.hh>
#include <frackit/occ/gputilities.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/intersection/bboxintersection.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/area.hh>
#include <frackit/magnitude/volume.hh>
#include <BRepCheck_Analyzer.hxx>
#include <BRepExtrema_DistShapeShape.hxx>
#include <BRepClass3d_SolidClassifier.hxx>
#include <TopExp.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
using namespace Frackit; using namespace ref;
using Pts = std::vector<V>; using Dist = std::function<R(const V&)>;
static int count(const TopoDS_Shape& s, TopAbs_ShapeEnum k) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, k, m); return m.Extent(); }
static R occDist(const TopoDS_Shape& s, const V& p)
{
    if (s.ShapeType() == TopAbs_SOLID) { BRepClass3d_SolidClassifier c(s, OCCUtilities::point(pt(p)), 1e-9); if (c.State() == TopAbs_IN || c.State() == TopAbs_ON) return 0; }
    BRepExtrema_DistShapeShape d(s, OCCUtilities::getShape(pt(p))); return d.IsDone() ? (R)d.Value() : -1;
}
struct Info { int v, e, f; R mag; TopAbs_ShapeEnum type; Pts verts; };

//! support: exact extent of the point set in local direction d (max of p.d)
template<class G> void test(const std::string& fam, const Pose& T, const G& g, const Info& I, const Pts& probes, const Dist& dist, const std::function<R(const V&)>& support)
{
    const auto shape = OCCUtilities::getShape(g); const R tol = T.s * (1e-6L + 1e-12L * T.t.len()); vf::step();
    vf::check(!shape.IsNull() && shape.ShapeType() == I.type, fam + " shape type", [&] { return vf::cat("type ", (int)shape.ShapeType()); });
    vf::check(BRepCheck_Analyzer(shape).IsValid(), fam + " shape valid", "BRepCheck reports an invalid shape");
    const int nv = count(shape, TopAbs_VERTEX), ne = count(shape, TopAbs_EDGE), nf = count(shape, TopAbs_FACE);
    vf::check(nv == I.v && ne == I.e && nf == I.f, fam + " sub-shapes", [&] { return vf::cat(nv, " vertices, ", ne, " edges, ", nf, " faces"); });
    if constexpr (!std::is_same_v<std::decay_t<decltype(shape)>, TopoDS_Vertex>) { int pw = I.type == TopAbs_SOLID ? 3 : I.type == TopAbs_FACE ? 2 : 1; R m = computeMagnitude(shape), e = I.mag * std::pow(T.s, (R)pw); vf::check(std::abs(m - e) <= 1e-4L * e, fam + " shape magnitude", [&] { return vf::cat("magnitude ", (double)m, " expected ", (double)e); }); }
    for (auto& q : I.verts) { vf::step(); bool hit = false; for (auto& v : OCCUtilities::getVertices(shape)) hit |= (from(OCCUtilities::point(v)) - T.map(q)).len() < tol; vf::check(hit, fam + " vertices", [&] { return vf::cat("no vertex at the corner ", str(q)); }); }
    const TopoDS_Shape S = shape;
    for (auto& p : probes) { R e = dist(p) * T.s, d = occDist(S, T.map(p)); vf::step(); vf::check(d >= 0 && std::abs(d - e) <= tol * 10 + 1e-6L * e, fam + " distance to the shape", [&] { return vf::cat("local point ", str(p), ": distance ", (double)d, " expected ", (double)e); }); }
    // bounding box of the geometry and of the shape
    const auto b1 = getBoundingBox(g); const auto b2 = OCCUtilities::getBoundingBox(shape);
    for (auto* b : {&b1, &b2})
    {
        R got[6] = {-(R)b->xMin(), (R)b->xMax(), -(R)b->yMin(), (R)b->yMax(), -(R)b->zMin(), (R)b->zMax()};
        for (int k = 0; k < 6; ++k) { V w; (k / 2 == 0 ? w.x : k / 2 == 1 ? w.y : w.z) = k & 1 ? 1 : -1; V dl = T.invRot(w); R ex = (support(dl) + T.t.dot(w)) * T.s; vf::step();
            vf::check(got[k] >= ex - 1e-12L * (1 + std::abs(ex)), fam + " bounding box encloses", [&] { return vf::cat("side ", k, ": ", (double)got[k], " but the geometry extends to ", (double)ex); });
            vf::check(got[k] <= ex + 3e-7L + 1e-3L * T.s, fam + " bounding box tight", [&] { return vf::cat("side ", k, ": ", (double)got[k], " but the geometry extends to ", (double)ex); }); }
    }
    vf::outcome(fam);
}
static R supPts(const Pts& c, const V& d) { R m = -1e300L; for (auto& p : c) m = std::max(m, p.dot(d)); return m; }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto L = latticeRotations(), O = obliqueRotations(); std::vector<Pose> poses;
    auto app = [&](const std::vector<Pose>& q) { poses.insert(poses.end(), q.begin(), q.end()); };
    if (vf::thorough) app(combine(allRotations(), {{0, 0, 0}, {10, -7, 3}, {-100, 50, 25}}, {1.0L, 0.1L, 100.0L}));
    else { app(combine(allRotations(), {{0, 0, 0}}, {1.0L})); app(combine({L[5], O[0], O[4]}, {{10, -7, 3}, {-100, 50, 25}}, {1.0L, 0.1L, 100.0L})); }
    Pts G; for (R x = -2; x <= 3; x += 1.25L) for (R y = -2; y <= 3; y += 1.25L) for (R z = -1; z <= 2; z += 0.75L) G.push_back({x, y, z});
    for (auto& T : poses)
    {
        auto on = [&](const std::string& k) { return vf::begin(k + "@" + T.name); };
        if (on("point")) vf::guarded("Point", [&] { V p{1, 2, -3}; test("Point", T, pt(T.map(p)), {1, 0, 0, 0, TopAbs_VERTEX, {p}}, G, [&](const V& q) { return (q - p).len(); }, [&](const V& d) { return p.dot(d); }); });
        for (auto [a, b] : std::vector<std::pair<V, V>>{{{0, 0, 0}, {2, 0, 0}}, {{-1, 1, 0.5L}, {1, -0.5L, 1}}}) if (on(vf::cat("segment", str(a)))) vf::guarded("Segment", [&, a = a, b = b] { Pts p = G; for (int k = 0; k <= 4; ++k) p.push_back(a + (b - a) * (k / 4.0L)); test("Segment", T, Segment<double, 3>(pt(T.map(a)), pt(T.map(b))), {2, 1, 0, (b - a).len(), TopAbs_EDGE, {a, b}}, p, [&](const V& q) { return distSeg(q, a, b); }, [&](const V& d) { return supPts({a, b}, d); }); });
        for (auto [a, b] : std::vector<std::pair<R, R>>{{1, 1}, {2, 1}, {1.5L, 0.25L}, {2, 0.002L}}) for (int m = 0; m < 4; ++m)
        {
            V o{0.5L, -0.25L, 1}, ax{m & 1 ? -1.0L : 1.0L, 0, 0}, ay{0, m & 2 ? -1.0L : 1.0L, 0}; auto loc = [&, a = a, b = b](R t) { return o + ax * (a * std::cos(t)) + ay * (b * std::sin(t)); }; auto lp = [&](const V& q) { V d = q - o; return V{d.dot(ax), d.dot(ay), d.z}; };
            R len = 0; { V pr = loc(0); for (int k = 1; k <= 20000; ++k) { V c = loc(2 * PI * k / 20000); len += (c - pr).len(); pr = c; } }
            auto sup = [&, a = a, b = b](const V& d) { return o.dot(d) + std::hypot(a * ax.dot(d), b * ay.dot(d)); };
            Pts p; for (size_t i = 0; i < G.size(); i += 2) p.push_back(G[i]); for (int k = 0; k < 8; ++k) { p.push_back(loc(PI * k / 4 + 0.1L)); p.push_back(o + (loc(PI * k / 4) - o) * 0.5L); } p.push_back(o);
            Ellipse<double, 3> E(pt(T.map(o)), dir(T.rot(ax)), dir(T.rot(ay)), double(a * T.s), double(b * T.s));
            if (on(vf::cat("ellipse", (double)a, ",", (double)b, ",", m))) { vf::guarded("Ellipse", [&, a = a, b = b] { test("Ellipse", T, E, {1, 1, 0, len, TopAbs_WIRE, {}}, p, [&, a = a, b = b](const V& q) { return distEllipse(lp(q), a, b); }, sup); });
                vf::guarded("Disk", [&, a = a, b = b] { test("Disk", T, Disk<double>(E), {1, 1, 1, PI * a * b, TopAbs_FACE, {}}, p, [&, a = a, b = b](const V& q) { return distDisk(lp(q), a, b); }, sup); });
                if (a == b) vf::guarded("Circle", [&, a = a, b = b] { test("Circle", T, Circle<double, 3>(pt(T.map(o)), dir(T.rot(ax.cross(ay))), double(a * T.s)), {1, 1, 0, len, TopAbs_WIRE, {}}, p, [&, a = a, b = b](const V& q) { return distEllipse(lp(q), a, b); }, sup); }); }
            for (int i = 0; i < 8; ++i) if (m == 0 || (i & 3) == 1) if (on(vf::cat("arc", (double)a, ",", (double)b, ",", m, ",", i))) for (int j : {0, 1, 3, 4, 6, 7}) vf::guarded("EllipseArc", [&, a = a, b = b]
            {
                R p0 = PI * i / 4, p1 = PI * (j > i ? j : j + 8) / 4; EllipseArc<double, 3> A(E, pt(T.map(loc(p0))), pt(T.map(loc(p1)))); R al = 0; V pr = loc(p0); for (int k = 1; k <= 5000; ++k) { V c = loc(p0 + (p1 - p0) * k / 5000); al += (c - pr).len(); pr = c; }
                Pts q; for (size_t k = 0; k < p.size(); k += 3) q.push_back(p[k]); for (int k = 0; k <= 4; ++k) q.push_back(loc(p0 + (p1 - p0) * k / 4));
                test("EllipseArc", T, A, {i == j ? 1 : 2, 1, 0, al, TopAbs_EDGE, {loc(p0), loc(p1)}}, q, [&, a = a, b = b](const V& w) { return distArc(lp(w), a, b, p0, p1); },
                     [&, a = a, b = b](const V& d) { R A1 = a * ax.dot(d), B1 = b * ay.dot(d), t = std::atan2(B1, A1); R best = std::max(loc(p0).dot(d), loc(p1).dot(d)); for (int k = -1; k <= 2; ++k) { R tt = t + 2 * PI * k; if (tt >= p0 && tt <= p1) best = std::max(best, loc(tt).dot(d)); } return best; });
            });
        }
        // quadrilaterals, polygons (also non-convex: the shape is well defined)
        int idx = 0; Pts reg12, clip; for (int k = 0; k < 12; ++k) reg12.push_back({1.5L * std::cos(PI * k / 6 + 0.2L), 1.5L * std::sin(PI * k / 6 + 0.2L), 0});
        for (R e : {0.02L, 0.0005L}) { clip = {{0, 0, 0}, {1, 0, 0}, {1, 1 - e, 0}, {1 - e, 1, 0}, {0, 1, 0}}; if (e < 0.01L) clip = {{0, 0, 0}, {2, 0, 0}, {2, e, 0}, {0, e, 0}}; reg12.insert(reg12.end(), clip.begin(), clip.end()); }
        const Pts clipped(reg12.begin() + 12, reg12.begin() + 17), thin(reg12.begin() + 17, reg12.end()); reg12.resize(12);
        for (Pts c : std::vector<Pts>{clipped, thin, reg12, {{0, 0, 0}, {2, 0, 0}, {2, 1, 0}, {0, 1, 0}}, {{0, 0, 0}, {0, 2, 0}, {1, 1, 0}, {1, 0, 0}}, {{-1, -1, 0.5L}, {2, 0, 0.5L}, {1, 2, 0.5L}, {-1, 1, 0.5L}}, {{0, 0, 0}, {2, 0, 0}, {1, 2, 0}}, {{0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {1, 2, 0}, {-1, 1, 0}}, {{1, 0, 0}, {0, 1, 0}, {-1, 1, 0}, {-2, 0, 0}, {-1, -1, 0}, {0, -1, 0}}})
        {
            ++idx; if (!on(vf::cat("polygon", idx))) continue;
            Pts p; for (size_t i = 0; i < G.size(); i += 2) p.push_back(G[i]); V m = polyCenter(c); for (size_t i = 0; i < c.size(); ++i) { p.push_back(c[i]); p.push_back((c[i] + c[(i + 1) % c.size()]) * 0.5L); p.push_back((c[i] + m) * 0.5L); p.push_back(c[i] + (c[i] - m) * 0.25L); }
            Pts cc = c; if ((c[1] - c[0]).cross(c[2] - c[0]).z < 0) { cc = Pts(c.rbegin(), c.rend()); }
            auto dist = [&](const V& q) { return distPoly(q, cc); }; auto sup = [&](const V& d) { return supPts(c, d); }; const int n = c.size();
            for (int sh = 0; sh < n; ++sh) for (int rev = 0; rev < 2; ++rev) { Pts r; for (int i = 0; i < n; ++i) r.push_back(c[(sh + (rev ? n - i : i)) % n]); std::vector<FP> w; for (auto& q : r) w.push_back(pt(T.map(q)));
                Pts pp = sh || rev ? Pts(p.end() - 6, p.end()) : p;
                vf::guarded("Polygon", [&] { test("Polygon", T, Polygon<double, 3>(w), {n, n, 1, polyArea(cc), TopAbs_FACE, c}, pp, dist, sup); });
                if (n == 4) vf::guarded("Quadrilateral", [&] { test("Quadrilateral", T, Quadrilateral<double, 3>(w[0], w[1], w[3], w[2]), {4, 4, 1, polyArea(cc), TopAbs_FACE, c}, pp, dist, sup); }); }
        }
        // cylinders, spheres
        for (auto [r, h] : std::vector<std::pair<R, R>>{{1, 2}, {0.5L, 3}, {0.01L, 2}, {1.5L, 0.01L}}) if (on(vf::cat("cylinder", (double)r, ",", (double)h))) vf::guarded("Cylinder", [&, r = r, h = h]
        {
            Circle<double, 3> c(pt(T.map({0, 0, 0})), dir(T.rot({0, 0, 1})), double(r * T.s)); Cylinder<double> C(c, double(h * T.s)); Pts p = G; for (int k = 0; k < 8; ++k) for (R z : {0.0L, 0.5L, 1.0L, 1.2L}) for (R f : {0.5L, 1.0L, 1.5L}) p.push_back({f * r * std::cos(PI * k / 4), f * r * std::sin(PI * k / 4), z * h});
            auto sup = [&, r = r, h = h](const V& d) { return r * std::hypot(d.x, d.y) + std::max((R)0, h * d.z); };
            test("Cylinder", T, C, {2, 3, 3, PI * r * r * h, TopAbs_SOLID, {}}, p, [&, r = r, h = h](const V& q) { return distTube(q, 0, r, h); }, sup);
            test("CylinderSurface", T, C.lateralFace(), {2, 3, 1, 2 * PI * r * h, TopAbs_FACE, {}}, p, [&, r = r, h = h](const V& q) { return distTube(q, r, r, h); }, sup);
            Sphere<double> S(pt(T.map({0.5L, 0, 1})), double(r * T.s)); test("Sphere", T, S, {2, 3, 1, 4 * PI / 3 * r * r * r, TopAbs_SOLID, {}}, p, [&, r = r](const V& q) { return std::max((R)0, (q - V{0.5L, 0, 1}).len() - r); }, [&, r = r](const V& d) { return V{0.5L, 0, 1}.dot(d) + r; });
        });
    }
    // boxes (axis-aligned only)
    for (R s : {1.0L, 0.1L, 100.0L}) for (V t : {V{0, 0, 0}, V{10, -7, 3}}) for (V d : {V{1, 1, 1}, V{2, 1, 0.5L}, V{0.25L, 3, 1}, V{2, 0.01L, 1}, V{0.003L, 1, 2}}) if (vf::begin(vf::cat("box", str(t), str(d), (double)s))) vf::guarded("Box", [&]
    { Pose T; T.t = t; T.s = s; V lo, hi = d; Pts c; for (int k = 0; k < 8; ++k) c.push_back({k & 1 ? d.x : 0, k & 2 ? d.y : 0, k & 4 ? d.z : 0}); Pts p = G; p.insert(p.end(), c.begin(), c.end()); p.push_back(d * 0.5L); test("Box", T, Box<double>(pt(T.map(lo)), pt(T.map(hi))), {8, 12, 6, d.x * d.y * d.z, TopAbs_SOLID, c}, p, [&](const V& q) { return distBox(q, lo, hi); }, [&](const V& w) { return supPts(c, w); }); });
    // overlap test of boxes: every pair of intervals with end points on a lattice, in each direction, touching included
    std::vector<std::pair<R, R>> iv; for (int a = 0; a < 5; ++a) for (int b = a + 1; b < 6; ++b) iv.push_back({a, b});
    for (R s : {1.0L, 1e-3L, 1e3L}) for (R off : {0.0L, 100.0L}) for (int dirn = 0; dirn < 3; ++dirn) for (auto& i1 : iv) if (vf::begin(vf::cat("bboxes", (double)s, ",", (double)off, ",", dirn, ",", (double)i1.first, ",", (double)i1.second))) for (auto& i2 : iv) for (auto& j2 : iv)
    {
        auto mk = [&](std::pair<R, R> i, std::pair<R, R> j) { R lo[3] = {0, 0, 0}, hi[3] = {2, 2, 2}; lo[dirn] = i.first; hi[dirn] = i.second; lo[(dirn + 1) % 3] = j.first; hi[(dirn + 1) % 3] = j.second; for (int k = 0; k < 3; ++k) { lo[k] = (lo[k] + off) * s; hi[k] = (hi[k] + off) * s; } return Box<double>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); };
        std::pair<R, R> j1{1, 3}; auto b1 = mk(i1, j1), b2 = mk(i2, j2); R g1 = std::max(i1.first - i2.second, i2.first - i1.second), g2 = std::max(j1.first - j2.second, j2.first - j1.second); bool touch = g1 <= 0 && g2 <= 0; vf::step(4);
        auto m = [&] { return vf::cat("intervals ", (double)i1.first, "-", (double)i1.second, "/", (double)i2.first, "-", (double)i2.second, ", 1-3/", (double)j2.first, "-", (double)j2.second); };
        vf::check(doIntersect(b1, b2) == touch, "doIntersect(bbox,bbox)", m); vf::check(doIntersect(b2, b1) == touch, "doIntersect(bbox,bbox)", m); vf::check(doIntersect(b1, b2, double(1e-6L * s)) == touch, "doIntersect(bbox,bbox,eps)", m);
        bool t2 = g1 < 1.5L && g2 < 1.5L; vf::check(doIntersect(b1, b2, double(1.5L * s)) == t2, "doIntersect(bbox,bbox,large eps)", m);
    }
    // conversions from and to the gp package
    for (R x = -2; x <= 2; ++x) for (R y = -2; y <= 2; ++y) if (vf::begin(vf::cat("gp", (double)x, ",", (double)y))) for (R z = -2; z <= 2; ++z)
    {
        V v{x + 0.25L, y, z - 0.5L}; auto m = [&] { return str(v); }; vf::step(5); using namespace OCCUtilities;
        vf::check((from(point(point(pt(v)))) - v).len() == 0, "point(gp_Pnt)", m); vf::check((from(vector<double, 3>(vector(vec(v)))) - v).len() == 0, "vector(gp_Vec)", m); vf::check((fromDir(direction(direction(dir(v)))) - v.unit()).len() < 1e-15L, "direction(gp_Dir)", m); vf::check((from(point(getShape(pt(v)))) - v).len() == 0, "point(TopoDS_Vertex)", m);
        auto p2 = point(Point<double, 2>(double(v.x), double(v.y))); vf::check(p2.X() == (double)v.x && p2.Y() == (double)v.y && p2.Z() == 0, "point(2d)", m); auto p1 = point(Point<double, 1>((double)v.x)); vf::check(p1.X() == (double)v.x && p1.Y() == 0 && p1.Z() == 0, "point(1d)", m);
        auto d2 = direction(Direction<double, 2>(Vector<double, 2>(double(v.x), double(v.y)))); V e2 = V{v.x, v.y, 0}.unit(); vf::check(std::abs(d2.X() - e2.x) + std::abs(d2.Y() - e2.y) + std::abs(d2.Z()) < 1e-14L, "direction(2d)", m);
    }
    return vf::finish();
}
