// C13: magnitude of the part of an entity that lies in a domain.
#include "contref.hh"
#include <BRepAlgoAPI_Cut.hxx>
#include <BRepAlgoAPI_Common.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <frackit/magnitude/containedmagnitude.hh>
static R full(const Ent& e) { switch (e.k) { case 'p': return 0; case 's': return V{e.a, e.b, e.c}.len(); case 'D': return PI * e.a * e.b; case 'Q': case 'P': return polyArea(e.S.ring); case 'L': return 2 * PI * e.a * e.c; } return e.a * 6; }
static std::function<double()> kernel;
template<class F> static void call(const std::string& what, R e, R tol, F&& f)
{ vf::step(); double g; try { g = f(); } catch (const std::exception& x) { vf::check(false, what + " exception", x.what()); return; } catch (...) { vf::check(false, what + " exception", "OCC exception"); return; } if (kernel && std::isfinite(g) && std::abs((R)g - e) > tol) { double k = e; try { k = kernel(); } catch (...) {} if (std::abs((R)k - e) > tol) { vf::check(false, "kernel " + what, [&] { return vf::cat("BRepAlgoAPI_Common yields ", k, " for the same operands (got ", g, ", expected ", (double)e, ")"); }); return; } }
  vf::check(std::isfinite(g) && std::abs((R)g - e) <= tol, what, [&] { return vf::cat("got ", g, " expected ", (double)e); }); }
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const auto O = obliqueRotations(), L = latticeRotations(); Pose I; I.name = "I"; const auto SS = stdShapes(); Frame F0;
    std::vector<Ent> D{{'B', "box", 2, 1, 3}, {'B', "cube", 2, 2, 2}, {'C', "cyl", 1, 1, 3}, {'C', "flat", 2, 2, 1}, {'S', "ball", 1.5L, 1.5L}, {'H', "hollow", 1.5L, 0.75L, 3}};
    std::vector<Ent> E{{'p', "pt"}, {'s', "seg", 4, 0, 0}, {'s', "segd", 1, -2, 2}, {'s', "short", 0.25L, 0.25L, 0.125L}, {'c', "circ", 1, 1}, {'e', "ell", 2, 1}, {'a', "arc", 2, 1, 0.5L, 2.5L}, {'L', "tube", 0.5L, 0.5L, 2}}; for (auto& s : SS) E.push_back({s.kind, s.name, s.a, s.b, 0, 0, s}); { auto s = bigShapes(); E.push_back({s[0].kind, "bigdisk", 40, 40, 0, 0, s[0]}); E.push_back({s[2].kind, "bigquad", 0, 0, 0, 0, s[2]}); }
    std::vector<Pose> T{I}; { auto q = combine({L[7], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-1L, 1e2L}); T.insert(T.end(), q.begin(), q.end()); }
    std::vector<Pose> R0{L[0], L[4], L[7], O[0], O[2], O[3], O[4]}; std::vector<V> off; for (R x : {-2.0L, 0.0L, 0.3L, 1.0L, 5.0L}) for (R y : {-1.0L, 0.0L, 0.4L}) for (R z : {-1.0L, 0.0L, 0.7L, 3.0L}) off.push_back({x, y, z});
    int cnt = 0; for (auto& e : E) for (auto& d : D) for (auto& q : R0) for (auto& o : off) for (size_t t = 0; t < T.size(); ++t)
    {
        ++cnt; const int s0 = e.k == 'p' ? 97 : 13, s1 = 211; if (!vf::thorough && (t ? cnt % s1 != 0 : cnt % s0 != 0)) continue; if (vf::thorough && cnt % (t ? 23 : 3)) continue;
        const Pose& P = T[t]; if (d.k == 'B' && !P.lattice) continue; if (!vf::begin(vf::cat(e.name, "/", d.name, "/", q.name, "/", str(o), "@", P.name))) continue;
        vf::guarded("setup", [&] {
        Frame F(q, o); const std::string n = std::string(fam(e.k)) + " in " + (d.k == 'H' ? "hollow" : fam(d.k)); Ent di{'C', "", d.b, d.b, d.c}, dout = d; if (d.k == 'H') dout.k = 'C';
        auto ref = [&](const Frame& G) { return containedRef(e, G, dout) - (d.k == 'H' ? containedRef(e, G, di) : 0); };
        R m = ref(F);
        // contacts that change the measure discontinuously (entity along the domain's surface) are judged only in exact poses
        bool stable = true; const R jump = 1e-4L * (1 + full(e)); for (const V& v : {V{1, 0, 0}, V{-1, 0, 0}, V{0, 1, 0}, V{0, -1, 0}, V{0, 0, 1}, V{0, 0, -1}}) { Frame G = F; G.t = G.t + v * 1e-6L; if (std::abs(ref(G) - m) > jump) stable = false; }
        if (!stable) { vf::skip(); vf::outcome(n + " discontinuous (not judged)"); return; }
        vf::outcome(n + (m < 1e-9L ? " zero" : m > full(e) - 1e-3L && !isCurve(e) ? " full" : " partial")); const bool line = e.k == 's' || isCurve(e); const R sc = line ? P.s : P.s * P.s, tol = (1e-4L * (full(e) + 0.1L)) * sc; m *= sc;
        kernel = [&] { double worst = double(m); for (double fuzzy : {-1.0, 1e-8, 1e-7, 2e-7}) for (R ep : {0.0L, 1e-8L}) { Frame G = F; G.t = G.t + V{ep, -ep, 2 * ep}; TopTools_ListOfShape a, b; a.Append(kernelShape(e, G, P)); TopoDS_Shape dom = d.k == 'H' ? BRepAlgoAPI_Cut(kernelShape(dout, F0, P), kernelShape(di, F0, P)).Shape() : kernelShape(d, F0, P); b.Append(dom); BRepAlgoAPI_Common c; c.SetArguments(a); c.SetTools(b); if (fuzzy > 0) c.SetFuzzyValue(fuzzy * double(P.s)); c.SetRunParallel(false); c.Build(); GProp_GProps g; if (line) BRepGProp::LinearProperties(c.Shape(), g); else BRepGProp::SurfaceProperties(c.Shape(), g); if (std::abs(g.Mass() - double(m)) > std::abs(worst - double(m))) worst = g.Mass(); } return worst; };
        withEnt(e, F, P, [&](const auto& g) {
            using G = std::decay_t<decltype(g)>; auto all = [&](const std::string& w, const auto& dom) {
                if constexpr (!std::is_same_v<G, Box<double>> && !std::is_same_v<G, Cylinder<double>> && !std::is_same_v<G, Sphere<double>>)
                {
                    if constexpr (!std::is_same_v<G, CylinderSurface<double>>) call(n + w, m, tol, [&] { return computeContainedMagnitude(g, dom); });
                    if constexpr (std::is_same_v<G, Disk<double>> || std::is_same_v<G, Quadrilateral<double, 3>>) if (cnt / 13 % 4 == 0) call(n + w + " erased", m, tol, [&] { return computeContainedMagnitude(std::shared_ptr<Geometry>(std::make_shared<G>(g)), dom); });
                    if constexpr (!std::is_same_v<G, FP>) if (cnt / 13 % 4 == 1 || e.k == 'L') { const auto s = OCCUtilities::getShape(g); call(n + w + " shape", m, tol, [&] { return computeContainedMagnitude(s, dom); }); }
                } };
            if (d.k == 'H') { const TopoDS_Shape c = BRepAlgoAPI_Cut(kernelShape(dout, F0, P), kernelShape(di, F0, P)).Shape(); auto so = OCCUtilities::getSolids(c); if (so.size() == 1) all(" solid", so[0]); return; }
            withEnt(d, F0, P, [&](const auto& dom) { using X = std::decay_t<decltype(dom)>; if constexpr (std::is_same_v<X, Box<double>> || std::is_same_v<X, Cylinder<double>> || std::is_same_v<X, Sphere<double>>) { if (cnt / 13 % 2) all("", dom); else { const TopoDS_Solid s = OCCUtilities::getShape(dom); all(" solid", s); } } });
        }); });
    }
    return vf::finish();
}
