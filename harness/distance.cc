// C11: minimum distances of all pairs of distance-supporting geometries and shapes.
#define HAVE2D 1
#include "ents.hh"
static std::function<double(double)> kernel;
template<class F> static void call(const std::string& what, R e, R tol, F&& f)
{
    vf::step(); double g; try { g = f(); } catch (const std::exception& x) { vf::check(false, what + " exception", x.what()); return; } catch (...) { vf::check(false, what + " exception", "OCC exception"); return; }
    if (kernel && std::isfinite(g) && g >= 0 && std::abs((R)g - e) > tol) { double k = e; try { k = kernel(g); } catch (...) {} if (std::abs((R)k - e) > tol) { vf::check(false, "kernel " + what, [&] { return vf::cat("BRepExtrema_DistShapeShape returns ", k, " for the same operands (got ", g, ", expected ", (double)e, ")"); }); return; } }
    vf::check(std::isfinite(g) && g >= 0 && std::abs((R)g - e) <= tol, what, [&] { return vf::cat("got ", g, " expected ", (double)e); });
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; const auto SS = stdShapes(); Frame F0;
    std::vector<Ent> E{{'p', "pt"}, {'s', "seg", 2, 0, 0}, {'s', "segd", 1, -2, 2}, {'B', "box", 2, 1, 3}, {'C', "cyl", 1, 1, 3}, {'S', "ball", 1, 1}, {'c', "circ", 1, 1}, {'e', "ell", 2, 1}, {'a', "arc", 2, 1, 0.5L, 2.5L}, {'a', "arcw", 1, 1, 2, 5}, {'L', "tube", 1, 1, 3}};
    for (auto& s : SS) if (s.name != "disk1x0.25" && s.name != "quad-rhomb") E.push_back({s.kind, s.name, s.a, s.b, 0, 0, s});
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<Pose> R0{L[0], L[4], L[7], L[13], O[0], O[2], O[3], O[4]}; std::vector<V> off; for (R x : {-3.0L, -1.0L, 0.0L, 0.5L, 2.0L, 5.0L}) for (R y : {-2.0L, 0.0L, 1.0L, 4.0L}) for (R z : {-4.0L, -1.0L, 0.0L, 0.25L, 3.0L}) off.push_back({x, y, z});
    int cnt = 0; for (auto& a : E) for (auto& b : E) for (auto& q : R0) for (auto& o : off) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; if (!vf::thorough && (t ? cnt % 457 != 0 : cnt % 67 != 0)) continue; if (vf::thorough && cnt % (t ? 31 : 3)) continue;
        const Pose& P = T[t]; if (!vf::begin(vf::cat(a.name, "/", b.name, "/", q.name, "/", str(o), "@", P.name))) continue;
        Frame F(q, o); const std::string n = std::string(fam(a.k)) + "-" + fam(b.k); if ((a.k == 'B' && !P.lattice) || (b.k == 'B' && !(P.lattice && q.lattice))) { vf::skip(); continue; }
        R d = refDist(a, F0, b, F); if (d < 0) { vf::skip(); vf::outcome(n + " no oracle"); continue; } const R sz = std::max(a.size(), b.size()), tol = (2e-6L * sz) * P.s + (P.s < 0.1L ? 1e-5L : 3e-7L); vf::outcome(n + (d < 1e-9L ? " zero" : " positive")); d *= P.s; kernel = [&](double got) { double w = double(d); double same = -1; withEnt(a, F0, P, [&](const auto& x) { withEnt(b, F, P, [&](const auto& y) { const TopoDS_Shape k1 = OCCUtilities::getShape(x), k2 = OCCUtilities::getShape(y); const double v = BRepExtrema_DistShapeShape(k1, k2).Value(); if (std::abs(v - got) <= 1e-9 * std::abs(got) && shapeIs(k1, a, F0, P) && shapeIs(k2, b, F, P)) same = v; }); }); if (same >= 0) return same; for (R spin : {0.0L, PI / 2, PI}) for (R e : {0.0L, 1e-9L, -3e-9L}) for (int sw = 0; sw < 2; ++sw) { Frame G = F; G.t = G.t + V{e, -e, 2 * e}; const TopoDS_Shape k1 = kernelShape(a, F0, P, spin), k2 = kernelShape(b, G, P, spin); const double v = (sw ? BRepExtrema_DistShapeShape(k2, k1) : BRepExtrema_DistShapeShape(k1, k2)).Value(); if (std::abs(v - double(d)) > std::abs(w - double(d))) w = v; } return w; };
        vf::guarded("setup", [&] { withEnt(a, F0, P, [&](const auto& x) { withEnt(b, F, P, [&](const auto& y) {
            call(n, d, tol, [&] { return computeDistance(x, y); });
            const int w = cnt / 67 % 5; if (w == 0) call(n + " shape-geo", d, tol, [&] { const TopoDS_Shape s = OCCUtilities::getShape(x); return computeDistance(s, y); }); if (w == 1) call(n + " geo-shape", d, tol, [&] { const TopoDS_Shape s = OCCUtilities::getShape(y); return computeDistance(x, s); });
            if (w == 2) call(n + " shape-shape", d, tol, [&] { const TopoDS_Shape s = OCCUtilities::getShape(x), r = OCCUtilities::getShape(y); return computeDistance(s, r); });
            if (w == 3) { using Y = std::decay_t<decltype(y)>; using X = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<Y, EmptyIntersection<3>>) { if constexpr (!std::is_same_v<Y, FP>) { std::variant<FP, Y> va = y; call(n + " variant", d, tol, [&] { return computeDistance(x, va); }); }
                // minimum over several geometries, in any order
                Frame F2(q, o + V{7, 1, -2}); R d2 = refDist(a, F0, b, F2); if (d2 >= 0) withEnt(b, F2, P, [&](const auto& y2) { if constexpr (std::is_same_v<std::decay_t<decltype(y2)>, Y>) { R m = std::min(d, d2 * P.s); call(n + " vector", m, tol, [&] { std::vector<Y> v; v.push_back(y); v.push_back(y2); return computeDistance(x, v); }); call(n + " vector rev", m, tol, [&] { std::vector<Y> v; v.push_back(y2); v.push_back(y); return computeDistance(x, v); }); } }); } }
        }); }); }); kernel = nullptr;
    }
    // points close to the boundaries, tips and rims of all entities: every order of magnitude of the gap
    for (auto& b : E) if (b.k != 'p') for (size_t t = 0; t < T.size(); ++t)
    {
        const Pose& P = T[t]; if (!vf::thorough && t && (t + b.name.size()) % 3) continue; if (b.k == 'B' && !P.lattice) continue; if (!vf::begin(vf::cat("near/", b.name, "@", P.name))) continue; const Ent a{'p', "pt"}; const std::string n = std::string("point near ") + fam(b.k); int c = 0;
        for (auto& cv : curves(b, F0)) for (int i = 0; i <= 8; ++i) for (R gap : {3e-2L, 1e-2L, 1e-3L, 1e-4L, 1e-5L}) for (auto& v : {V{1, 0, 0}, V{-1, 0, 0}, V{0, 1, 0}, V{0, -1, 0}, V{0, 0, 1}, V{0, 0, -1}, V{0.6L, -0.8L, 0}, V{-0.48L, 0.6L, 0.64L}})
        {
            if (!vf::thorough && c++ % 4 != int(t % 4)) continue; const V p = cv.first(cv.second.first + (cv.second.second - cv.second.first) * i / 8) + v * gap; Frame FP_; FP_.t = p; const R d = sceneDist(b, F0, p) * P.s, tol = 1e-6L * b.size() * P.s * 0 + (P.s < 0.1L ? 1e-6L : 3e-7L * std::max((R)1, P.s));
            kernel = [&](double got) { double w = double(d); withEnt(b, F0, P, [&](const auto& y) { const TopoDS_Shape k1 = OCCUtilities::getShape(pt(P.map(p))), k2 = OCCUtilities::getShape(y); const double u = BRepExtrema_DistShapeShape(k1, k2).Value(); if (std::abs(u - got) <= 1e-9 * std::abs(got) && shapeIs(k2, b, F0, P)) w = u; }); return w; };
            vf::guarded("setup", [&] { withEnt(b, F0, P, [&](const auto& y) { const FP q = pt(P.map(p)); call(n, d, tol, [&] { return computeDistance(q, y); }); if (c % 3 == 0) call(n + " swapped", d, tol, [&] { return computeDistance(y, q); }); }); });
        }
    }
    kernel = nullptr;
    for (size_t t = 0; t < T.size(); ++t) for (R len : {1.0L, 10.0L, 0.03L}) for (auto& u : std::vector<V>{{1, 0, 0}, {0, -1, 0}, {0, 0.6L, 0.8L}, {2 / 3.0L, -2 / 3.0L, 1 / 3.0L}}) if (vf::begin(vf::cat("tip/", (double)len, str(u), "@", T[t].name)))
    {
        const Pose& P = T[t]; const V o{0.5L, -1, 0.25L}, dd = u * len, w = (std::abs(u.z) < 0.5L ? V{0, 0, 1} : V{1, 0, 0}).cross(u).unit(); Segment<double, 3> s(pt(P.map(o)), pt(P.map(o + dd)));
        for (int end = 0; end < 2; ++end) for (R gap : {-1e-1L, -1e-3L, 0.0L, 1e-6L, 1e-5L, 1e-4L, 1e-3L, 1e-2L, 1e-1L, 1.0L}) for (R side : {0.0L, 1e-5L, 1e-3L, 0.1L, 2.0L})
        {
            const V p = (end ? o + dd : o) + u * ((end ? 1 : -1) * gap * len) + w * (side * len); const FP q = pt(P.map(p)); const R d = distSeg(p, o, o + dd) * P.s, tl = (1e-14L * (len + 20) + 1e-15L * P.t.len()) * P.s * 20 + 1.1e-7L * len * P.s;
            call("point-segment tip", d, tl, [&] { return computeDistance(q, s); }); call("segment-point tip", d, tl, [&] { return computeDistance(s, q); });
        }
    }
    // points against lines and segments in one, two and three dimensions (closed form)
    for (size_t t = 0; t < T.size(); ++t) for (int dx = -2; dx <= 2; ++dx) for (int dy = -2; dy <= 2; ++dy) for (int dz = -2; dz <= 2; ++dz) if ((dx || dy || dz) && vf::begin(vf::cat("line/", dx, dy, dz, "@", T[t].name)))
    {
        const Pose& P = T[t]; const V o{0.5L, -1, 0.25L}, dd{(R)dx, (R)dy, (R)dz}; Line<double, 3> l(pt(P.map(o)), dir(P.rot(dd))); Segment<double, 3> s(pt(P.map(o)), pt(P.map(o + dd)));
        for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) for (int z = -3; z <= 3; ++z) { V p{(R)x, (R)y * 0.75L, (R)z * 0.5L}; FP q = pt(P.map(p)); const R tol = (1e-13L * 20 + 1e-15L * P.t.len()) * P.s * 10; const R dl = distLine(p, o, dd) * P.s, ds = distSeg(p, o, o + dd) * P.s; const R tl = tol + 1e-7L * dd.len() * P.s * 0; call("point-line", dl, tl, [&] { return computeDistance(q, l); }); call("line-point", dl, tl, [&] { return computeDistance(l, q); });
            // a point whose projection is within the tolerance of an end counts as projecting onto the segment
            call("point-segment exact", ds, tl + 1e-12L * P.s, [&] { return computeDistance(q, s); }); call("segment-point exact", ds, tl + 1e-12L * P.s, [&] { return computeDistance(s, q); }); call("point-point exact", (p - o).len() * P.s, tl, [&] { return computeDistance(q, s.source()); }); }
    }
    if (vf::begin("lowdim")) for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) for (int u = -3; u <= 3; ++u) for (int v = -3; v <= 3; ++v)
    {
        Point<double, 2> a(x * 1.0, y * 0.5), b(u * 1.0, v * 0.25); call("point2-point2", std::hypot((R)(x - u), y * 0.5L - v * 0.25L), 1e-14L, [&] { return computeDistance(a, b); }); Point<double, 1> c(x * 0.5), d(u * 1.0); call("point1-point1", std::abs(x * 0.5L - u), 1e-14L, [&] { return computeDistance(c, d); });
        if (x != u || y * 0.5 != v * 0.25) for (int k = -3; k <= 3; ++k) for (int m = -3; m <= 3; ++m) { Point<double, 2> p(k * 1.5, m * 1.25); V P{k * 1.5L, m * 1.25L, 0}, A{(R)x, y * 0.5L, 0}, B{(R)u, v * 0.25L, 0}; (void)P; (void)A; (void)B;
#ifdef HAVE2D
            Segment<double, 2> s(a, b); call("point2-segment2", distSeg(P, A, B), 1e-12L, [&] { return computeDistance(p, s); });
#endif
        }
    }
    return vf::finish();
}
