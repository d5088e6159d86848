// Explicit-state model of entity networks: entities are rectangles (unions of unit squares), sub-domains unions of unit
// cubes of an integer lattice. The real networks (built in any pose) are mapped back onto model states.
#pragma once
#include <set>
#include <map>
#include <array>
#include <optional>
#include <algorithm>
#include <iostream>
#include "geo.hh"
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepCheck_Analyzer.hxx>
#include <TopExp_Explorer.hxx>
#include <TopExp.hxx>
#include <TopoDS.hxx>
#include <BRep_Tool.hxx>
#include <TopTools_DataMapIteratorOfDataMapOfShapeInteger.hxx>
using namespace Frackit; using namespace ref;
namespace net {
using Sq = std::array<int, 4>;   // axis, plane, u, v   (u, v along the next two axes, cyclically)
using Cube = std::array<int, 3>;
using Edge = std::array<int, 4>; // direction, x, y, z
using Cells = std::set<Sq>; using Cubes = std::set<Cube>;
struct Rect { int ax, c, u0, u1, v0, v1; };
struct Box3 { int lo[3], hi[3]; };
inline std::string name(const Rect& r) { return vf::cat("xyz"[r.ax], r.c, "[", r.u0, r.u1, ",", r.v0, r.v1, "]"); }
inline std::string name(const Box3& b) { return vf::cat("[", b.lo[0], b.hi[0], "|", b.lo[1], b.hi[1], "|", b.lo[2], b.hi[2], "]"); }
inline Cells cells(const Rect& r) { Cells s; for (int u = r.u0; u < r.u1; ++u) for (int v = r.v0; v < r.v1; ++v) s.insert({r.ax, r.c, u, v}); return s; }
inline Cubes cubes(const Box3& b) { Cubes s; for (int x = b.lo[0]; x < b.hi[0]; ++x) for (int y = b.lo[1]; y < b.hi[1]; ++y) for (int z = b.lo[2]; z < b.hi[2]; ++z) s.insert({x, y, z}); return s; }
inline std::array<int, 3> at(int ax, int c, int u, int v) { std::array<int, 3> p; p[ax] = c; p[(ax + 1) % 3] = u; p[(ax + 2) % 3] = v; return p; }
inline std::array<Edge, 4> edges(const Sq& q)
{
    const int a = q[0], du = (a + 1) % 3, dv = (a + 2) % 3; auto e = [&](int d, int u, int v) { auto p = at(a, q[1], u, v); return Edge{d, p[0], p[1], p[2]}; };
    return {e(du, q[2], q[3]), e(du, q[2], q[3] + 1), e(dv, q[2], q[3]), e(dv, q[2] + 1, q[3])};
}
inline std::array<Cube, 2> sides(const Sq& q) { auto p = at(q[0], q[1], q[2], q[3]); Cube a = p, b = p; a[q[0]] -= 1; return {a, b}; }
inline std::array<Sq, 6> squares(const Cube& c) { std::array<Sq, 6> r; for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) r[2 * a + s] = {a, c[a] + s, c[(a + 1) % 3], c[(a + 2) % 3]}; return r; }
inline Cells boundary(const Cubes& D) { Cells r; for (auto& c : D) for (auto& q : squares(c)) { auto s = sides(q); if (D.count(s[0]) != D.count(s[1])) r.insert(q); } return r; }
inline std::set<Edge> edgesOf(const Cells& s) { std::set<Edge> r; for (auto& q : s) for (auto& e : edges(q)) r.insert(e); return r; }

//! a cutting set: cells by orientation, with the closure's edges
struct Tool { Cells c; std::set<Edge> perp[3]; // perp[a]: edges of cells not orthogonal to a
    explicit Tool(const Cells& s) : c(s) { for (auto& q : s) for (auto& e : edges(q)) for (int a = 0; a < 3; ++a) if (a != q[0]) perp[a].insert(e); }
    bool cuts(const Sq& A, const Sq& B, const Edge& g) const { return c.count(A) != c.count(B) || perp[A[0]].count(g); } };
inline std::vector<Cells> components(const Cells& S, const std::vector<Tool>& T)
{
    std::vector<Cells> r; Cells left = S;
    while (!left.empty())
    {
        Cells comp; std::vector<Sq> st{*left.begin()}; left.erase(left.begin());
        while (!st.empty())
        {
            Sq A = st.back(); st.pop_back(); comp.insert(A);
            for (int k = 0; k < 4; ++k)
            {
                Sq B = A; B[k / 2 + 2] += k % 2 ? 1 : -1; if (!left.count(B)) continue;
                const auto ea = edges(A), eb = edges(B); Edge g{}; for (auto& x : ea) for (auto& y : eb) if (x == y) g = x;
                if (std::any_of(T.begin(), T.end(), [&](const Tool& t) { return t.cuts(A, B, g); })) continue;
                left.erase(B); st.push_back(B);
            }
        }
        r.push_back(comp);
    }
    return r;
}
inline std::vector<Cubes> components(const Cubes& S, const Cells& walls)
{
    std::vector<Cubes> r; Cubes left = S;
    while (!left.empty())
    {
        Cubes comp; std::vector<Cube> st{*left.begin()}; left.erase(left.begin());
        while (!st.empty())
        {
            Cube A = st.back(); st.pop_back(); comp.insert(A);
            for (auto& q : squares(A)) { if (walls.count(q)) continue; for (auto& B : sides(q)) if (left.count(B)) { left.erase(B); st.push_back(B); } }
        }
        r.push_back(comp);
    }
    return r;
}

struct SubNet { int id; std::vector<Rect> rects; };
struct SubDom { int id; Box3 box; bool confining; };
//! what is currently set in a builder
struct Scene { std::vector<SubDom> doms; std::vector<SubNet> nets; bool confineUnion = true;
    SubNet& of(int id) { for (auto& n : nets) if (n.id == id) return n; nets.push_back({id, {}}); return nets.back(); }
    std::string str() const { std::string r; for (auto& d : doms) r += vf::cat("D", d.id, d.confining ? "c" : "n", name(d.box)); r += confineUnion ? "" : "!u"; for (auto& n : nets) { r += vf::cat("|", n.id, ":"); for (auto& e : n.rects) r += name(e); } return r; } };
using Owner = std::pair<int, int>; // sub-network id, entity index (1-based, insertion order)
struct Expected { std::map<Cells, std::set<Owner>> frags; std::map<Owner, Cells> ents; std::map<int, std::vector<Cubes>> doms;
    bool judged = true; /* entity along the surface of a confining domain: seams of the fused union may split it */ };
//! reference network; contained: domains are fragmented, too
inline Expected expected(const Scene& s, bool contained)
{
    Expected r; Cubes uni; for (auto& d : s.doms) for (auto& c : cubes(d.box)) uni.insert(c);
    for (auto& n : s.nets)
    {
        const SubDom* d = nullptr; for (auto& x : s.doms) if (x.id == n.id) d = &x;
        std::optional<Cubes> conf; if (d && d->confining) conf = cubes(d->box); else if (d && s.confineUnion) conf = uni;
        for (size_t i = 0; i < n.rects.size(); ++i)
        {
            Cells c; for (auto& q : cells(n.rects[i])) { auto sd = sides(q); if (!conf || conf->count(sd[0]) || conf->count(sd[1])) { c.insert(q); if (conf && d && !d->confining && s.doms.size() > 1 && conf->count(sd[0]) != conf->count(sd[1])) r.judged = false; } }
            r.ents[{n.id, int(i) + 1}] = c;
        }
    }
    // the confined-away part of an entity touches another entity of the same sub-network: whether it splits it is not judged
    for (auto& n : s.nets) for (size_t i = 0; i < n.rects.size(); ++i) { const auto all = edgesOf(cells(n.rects[i])), kept = edgesOf(r.ents[{n.id, int(i) + 1}]); for (size_t j = 0; j < n.rects.size(); ++j) if (j != i) for (auto& g : edgesOf(r.ents[{n.id, int(j) + 1}])) if (all.count(g) && !kept.count(g)) r.judged = false; }
    std::vector<Tool> dt; if (contained) for (auto& d : s.doms) dt.emplace_back(boundary(cubes(d.box)));
    for (auto& e : r.ents)
    {
        std::vector<Tool> T = dt; for (auto& f : r.ents) if (f.first != e.first) T.emplace_back(f.second);
        for (auto& c : components(e.second, T)) r.frags[c].insert(e.first);
    }
    if (contained)
    {
        Cells walls; for (auto& e : r.ents) walls.insert(e.second.begin(), e.second.end());
        for (auto& d : s.doms) { auto b = boundary(cubes(d.box)); walls.insert(b.begin(), b.end()); }
        for (auto& d : s.doms) r.doms[d.id] = components(cubes(d.box), walls);
    }
    return r;
}

// ---------------------------------------------------------------- construction of real operands
inline FP corner(const Rect& r, const Pose& P, int i, int j) { auto p = at(r.ax, r.c, i ? r.u1 : r.u0, j ? r.v1 : r.v0); return pt(P.map({(R)p[0], (R)p[1], (R)p[2]})); }
inline TopoDS_Face faceOf(const Rect& r, const Pose& P)
{ BRepBuilderAPI_MakePolygon m; for (auto ij : {std::pair<int, int>{0, 0}, {1, 0}, {1, 1}, {0, 1}}) { auto c = corner(r, P, ij.first, ij.second); m.Add(gp_Pnt(c.x(), c.y(), c.z())); } m.Close(); return BRepBuilderAPI_MakeFace(m.Wire()); }
inline Quadrilateral<double, 3> quadOf(const Rect& r, const Pose& P) { return Quadrilateral<double, 3>(corner(r, P, 0, 0), corner(r, P, 1, 0), corner(r, P, 0, 1), corner(r, P, 1, 1)); }
inline Polygon<double, 3> polyOf(const Rect& r, const Pose& P) { return Polygon<double, 3>(std::vector<FP>{corner(r, P, 0, 0), corner(r, P, 1, 0), corner(r, P, 1, 1), corner(r, P, 0, 1)}); }
inline TopoDS_Solid solidOf(const Box3& b, const Pose& P)
{
    V o = P.map({(R)b.lo[0], (R)b.lo[1], (R)b.lo[2]}); gp_Ax2 ax(gp_Pnt(o.x, o.y, o.z), gp_Dir(P.cz.x, P.cz.y, P.cz.z), gp_Dir(P.cx.x, P.cx.y, P.cx.z));
    return TopoDS::Solid(BRepPrimAPI_MakeBox(ax, double((b.hi[0] - b.lo[0]) * P.s), double((b.hi[1] - b.lo[1]) * P.s), double((b.hi[2] - b.lo[2]) * P.s)).Solid());
}
inline bool axisBox(const Pose& P) { return P.cx.x == 1 && P.cy.y == 1 && P.cz.z == 1; }
inline Box<double> boxOf(const Box3& b, const Pose& P) { V l = P.map({(R)b.lo[0], (R)b.lo[1], (R)b.lo[2]}), h = P.map({(R)b.hi[0], (R)b.hi[1], (R)b.hi[2]}); return Box<double>(l.x, l.y, l.z, h.x, h.y, h.z); }
//! kind: 0 quadrilateral, 1 polygon, 2 face
template<class F> void withRect(const Rect& r, const Pose& P, int kind, F&& f) { if (kind % 3 == 0) f(quadOf(r, P)); else if (kind % 3 == 1) f(polyOf(r, P)); else f(faceOf(r, P)); }
template<class F> void withBox(const Box3& b, const Pose& P, int kind, F&& f) { if (kind % 2 == 0 && axisBox(P)) f(boxOf(b, P)); else f(solidOf(b, P)); }

// ---------------------------------------------------------------- abstraction of real shapes
struct Bad { std::string what; };
inline std::array<int, 3> lattice(const gp_Pnt& p, const Pose& P)
{ V q = P.inv({(R)p.X(), (R)p.Y(), (R)p.Z()}); std::array<int, 3> r{(int)std::lround(q.x), (int)std::lround(q.y), (int)std::lround(q.z)}; if (V{q.x - r[0], q.y - r[1], q.z - r[2]}.len() > 1e-4L) throw Bad{vf::cat("vertex off the lattice: ", str(q))}; return r; }
struct RealEdge { std::array<int, 3> a, b; TopoDS_Edge e; bool internal; int dir() const { for (int d = 0; d < 3; ++d) if (a[d] != b[d]) return d; return 0; }
    bool covers(const Edge& g) const { const int d = dir(); if (g[0] != d) return false; for (int k = 0; k < 3; ++k) { if (k == d) { if (g[1 + k] < std::min(a[k], b[k]) || g[1 + k] + 1 > std::max(a[k], b[k])) return false; } else if (g[1 + k] != a[k]) return false; } return true; } };
inline std::vector<RealEdge> realEdges(const TopoDS_Shape& f, const Pose& P)
{
    std::vector<RealEdge> r;
    for (TopExp_Explorer x(f, TopAbs_EDGE); x.More(); x.Next())
    {
        TopoDS_Edge e = TopoDS::Edge(x.Current()); TopoDS_Vertex v, w; TopExp::Vertices(e, v, w); RealEdge q{lattice(BRep_Tool::Pnt(v), P), lattice(BRep_Tool::Pnt(w), P), e, e.Orientation() == TopAbs_INTERNAL || e.Orientation() == TopAbs_EXTERNAL};
        int nd = 0; for (int d = 0; d < 3; ++d) nd += q.a[d] != q.b[d]; if (nd != 1) throw Bad{"edge not along the lattice"};
        r.push_back(q);
    }
    return r;
}
//! the unit squares a face covers
inline Cells cellsOf(const TopoDS_Face& face, const Pose& P)
{
    const TopoDS_Face f = TopoDS::Face(face.Oriented(TopAbs_FORWARD)); // faces inside of solids have internal orientation
    auto E = realEdges(f, P); if (E.empty()) throw Bad{"face without edges"}; int ax = -1; for (int a = 0; a < 3; ++a) { bool all = true; for (auto& e : E) all = all && e.a[a] == E[0].a[a] && e.b[a] == E[0].a[a]; if (all) ax = a; } if (ax < 0) throw Bad{"face not in a lattice plane"};
    const int du = (ax + 1) % 3, dv = (ax + 2) % 3; int u0 = 1 << 20, u1 = -u0, v0 = u0, v1 = -u0; for (auto& e : E) for (auto* p : {&e.a, &e.b}) { u0 = std::min(u0, (*p)[du]); u1 = std::max(u1, (*p)[du]); v0 = std::min(v0, (*p)[dv]); v1 = std::max(v1, (*p)[dv]); }
    Cells r; for (int u = u0; u < u1; ++u) for (int v = v0; v < v1; ++v) { int n = 0; for (auto& e : E) if (!e.internal && e.dir() == dv && e.a[du] > u && std::min(e.a[dv], e.b[dv]) <= v && std::max(e.a[dv], e.b[dv]) >= v + 1) ++n; if (n % 2) r.insert({ax, E[0].a[ax], u, v}); }
    GProp_GProps g; BRepGProp::SurfaceProperties(f, g); if (std::abs((R)g.Mass() / (P.s * P.s) - (R)r.size()) > 1e-4L) throw Bad{vf::cat("face area ", double(g.Mass() / (P.s * P.s)), " but ", r.size(), " unit squares")};
    return r;
}
inline Cubes cubesOf(const TopoDS_Solid& s, const Pose& P)
{
    std::vector<Cells> F; int z0 = 1 << 20, z1 = -z0; for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) { auto o = x.Current().Orientation(); if (o == TopAbs_INTERNAL || o == TopAbs_EXTERNAL) continue; F.push_back(cellsOf(TopoDS::Face(x.Current()), P)); if ((*F.back().begin())[0] == 2) { z0 = std::min(z0, (*F.back().begin())[1]); z1 = std::max(z1, (*F.back().begin())[1]); } }
    Cubes r; std::map<std::pair<int, int>, std::vector<int>> col; for (auto& f : F) for (auto& q : f) if (q[0] == 2) col[{q[2], q[3]}].push_back(q[1]);
    for (auto& c : col) for (int z = z0; z < z1; ++z) { int n = 0; for (int h : c.second) n += h > z; if (n % 2) r.insert({c.first.first, c.first.second, z}); }
    GProp_GProps g; BRepGProp::VolumeProperties(s, g); if (std::abs(std::abs((R)g.Mass()) / (P.s * P.s * P.s) - (R)r.size()) > 1e-4L) throw Bad{vf::cat("volume ", double(g.Mass() / (P.s * P.s * P.s)), " but ", r.size(), " unit cubes")};
    return r;
}
inline std::string show(const Cells& c) { std::string r = "{"; for (auto& q : c) r += vf::cat("xyz"[q[0]], q[1], "(", q[2], ",", q[3], ")"); return r + "}"; }
struct Real { struct Frag { TopoDS_Face f; Cells c; int sd = -1, index = 0; }; std::vector<Frag> frags; std::map<int, std::vector<std::pair<TopoDS_Solid, Cubes>>> doms; };
inline void abstractFrags(const TopTools_ListOfShape& l, const TopTools_DataMapOfShapeInteger& m, int sd, const Pose& P, Real& r)
{
    for (const auto& s : l)
    {
        if (s.ShapeType() != TopAbs_FACE) throw Bad{vf::cat("fragment of shape type ", int(s.ShapeType()))};
        Real::Frag f; f.f = TopoDS::Face(s); f.c = cellsOf(f.f, P); f.sd = sd; if (!BRepCheck_Analyzer(s).IsValid()) throw Bad{"invalid fragment"}; if (!m.Find(s, f.index)) throw Bad{"fragment without index"}; r.frags.push_back(f);
    }
    int n = 0; for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(m); it.More(); it.Next()) { ++n; bool in = false; for (const auto& s : l) in = in || s.IsSame(it.Key()); if (!in) throw Bad{"index map contains a shape that is not in the list of fragments"}; }
}
inline Real abstractNet(const EntityNetwork& n, const Pose& P) { Real r; abstractFrags(n.entityFragments(), n.entityFragmentsIndexMap(), -1, P, r); return r; }
inline Real abstractNet(const ContainedEntityNetwork& n, const std::vector<int>& netIds, const Pose& P)
{
    Real r; for (int id : netIds) abstractFrags(n.subDomainEntityFragments(Id(id)), n.subDomainEntityFragmentsIndexMap(Id(id)), id, P, r);
    for (const auto& id : n.subDomainIds()) { auto& v = r.doms[id.get()]; for (const auto& s : n.subDomainFragments(id)) { if (s.ShapeType() != TopAbs_SOLID) throw Bad{"domain fragment is not a solid"}; if (!BRepCheck_Analyzer(s).IsValid()) throw Bad{"invalid domain fragment"}; v.push_back({TopoDS::Solid(s), cubesOf(TopoDS::Solid(s), P)}); } }
    return r;
}
// ---------------------------------------------------------------- comparison
struct Report { std::string what, msg; };
//! fragments equal those of the model (each exactly once, per sub-network in contained networks)
inline std::optional<Report> compareFragments(const Real& r, const Expected& x, bool contained)
{
    std::map<std::pair<int, Cells>, int> got; for (auto& f : r.frags) ++got[{f.sd, f.c}];
    std::map<std::pair<int, Cells>, int> exp; for (auto& f : x.frags) { if (contained) { for (auto& o : f.second) exp[{o.first, f.first}] = 1; } else exp[{-1, f.first}] = 1; }
    for (auto& g : got) { if (g.second > 1) return Report{"duplicate fragment", vf::cat(g.second, "x ", show(g.first.second))}; if (!exp.count(g.first)) return Report{"wrong fragment", vf::cat("unexpected fragment ", show(g.first.second), " in ", g.first.first, "; ", got.size(), " fragments, expected ", exp.size())}; }
    for (auto& e : exp) if (!got.count(e.first)) return Report{"missing fragment", vf::cat("no fragment ", show(e.first.second), " in ", e.first.first)};
    return {};
}
//! indices: of the owner (insertion order in its sub-network); for merged networks unique per entity. Coincident parts: one of the owners
inline std::optional<Report> compareIndices(const Real& r, const Expected& x, bool contained, bool single)
{
    std::map<int, std::set<Owner>> cand; // global index -> possible owners (merged networks)
    for (auto& f : r.frags)
    {
        auto it = x.frags.find(f.c); if (it == x.frags.end()) { std::set<Owner> o; for (auto& e : x.ents) if (std::includes(e.second.begin(), e.second.end(), f.c.begin(), f.c.end())) o.insert(e.first); if (o.empty()) return Report{"fragment outside of all entities", show(f.c)}; it = x.frags.end();
            if (contained) { if (!o.count({f.sd, f.index})) return Report{"index", vf::cat("fragment ", show(f.c), " has index ", f.index)}; } continue; }
        if (contained) { if (!it->second.count({f.sd, f.index})) return Report{"index", vf::cat("fragment ", show(f.c), " of sub-domain ", f.sd, " has index ", f.index, ", expected ", it->second.lower_bound({f.sd, 0})->second)}; }
        else if (single) { if (!it->second.count({it->second.begin()->first, f.index})) return Report{"index", vf::cat("fragment ", show(f.c), " has index ", f.index, ", expected ", it->second.begin()->second)}; }
        else { auto c = cand.find(f.index); if (c == cand.end()) cand[f.index] = it->second; else { std::set<Owner> k; for (auto& o : c->second) if (it->second.count(o)) k.insert(o); if (k.empty()) return Report{"index", vf::cat("index ", f.index, " is used for fragments of different entities")}; c->second = k; } }
    }
    if (!contained && !single) { std::map<Owner, int> used; for (auto& c : cand) if (c.second.size() == 1) { if (used.count(*c.second.begin())) return Report{"index", "fragments of one entity have different indices"}; used[*c.second.begin()] = c.first; } }
    return {};
}
//! shared edges (and shared faces of solids) are the same topological entity
inline std::optional<Report> conforming(const Real& r, const Pose& P)
{
    std::map<Edge, std::vector<int>> at; std::vector<std::vector<RealEdge>> E; for (size_t i = 0; i < r.frags.size(); ++i) { E.push_back(realEdges(r.frags[i].f, P)); for (auto& g : edgesOf(r.frags[i].c)) at[g].push_back(i); }
    for (auto& a : at)
    {
        std::vector<std::pair<int, TopoDS_Edge>> on; for (int i : a.second) { bool f = false; for (auto& e : E[i]) if (e.covers(a.first)) { on.push_back({i, e.e}); f = true; break; } if (!f) on.push_back({i, TopoDS_Edge()}); }
        for (size_t i = 0; i < on.size(); ++i) for (size_t j = i + 1; j < on.size(); ++j) { auto &A = r.frags[on[i].first], &B = r.frags[on[j].first]; if (A.c == B.c) { if (!A.f.IsSame(B.f)) return Report{"coincident fragments are not shared", show(A.c)}; continue; }
            if (on[i].second.IsNull() || on[j].second.IsNull() || !on[i].second.IsSame(on[j].second)) return Report{"not conforming", vf::cat("edge at (", a.first[1], ",", a.first[2], ",", a.first[3], ") direction ", a.first[0], " is not shared by ", show(A.c), " and ", show(B.c))}; }
    }
    if (r.doms.empty()) return {};
    std::map<Sq, std::vector<TopoDS_Face>> faces; std::map<Sq, std::set<std::string>> where;
    for (auto& f : r.frags) for (auto& q : f.c) faces[q].push_back(f.f);
    for (auto& d : r.doms) for (auto& s : d.second)
    {
        Cells on; for (TopExp_Explorer x(s.first, TopAbs_FACE); x.More(); x.Next()) { auto f = TopoDS::Face(x.Current()); for (auto& q : cellsOf(f, P)) { faces[q].push_back(f); on.insert(q); } }
        for (auto& f : r.frags) for (auto& q : f.c) { auto sd = sides(q); if ((s.second.count(sd[0]) || s.second.count(sd[1])) && !on.count(q)) return Report{"not conforming", vf::cat("entity fragment ", show(f.c), " is not on a face of the domain fragment that contains it")}; }
    }
    for (auto& q : faces) for (auto& f : q.second) if (!f.IsSame(q.second[0])) return Report{"not conforming", vf::cat("faces over ", show({q.first}), " are not shared")};
    return {};
}
inline std::optional<Report> compareDomains(const Real& r, const Expected& x)
{
    if (r.doms.size() != x.doms.size()) return Report{"sub-domains", vf::cat(r.doms.size(), " sub-domains, expected ", x.doms.size())};
    for (auto& d : x.doms)
    {
        auto it = r.doms.find(d.first); if (it == r.doms.end()) return Report{"sub-domains", vf::cat("sub-domain ", d.first, " is missing")};
        std::multiset<Cubes> g, e; for (auto& s : it->second) g.insert(s.second); for (auto& s : d.second) e.insert(s); if (g != e) { std::string t; for (auto& s : g) t += vf::cat(s.size(), " "); t += "expected "; for (auto& s : e) t += vf::cat(s.size(), " "); return Report{"sub-domain fragments", vf::cat("sub-domain ", d.first, ": volumes ", t)}; }
        for (auto& o : r.doms) if (o.first != d.first) for (auto& a : o.second) for (auto& b : it->second) if (a.second == b.second && !a.first.IsSame(b.first)) return Report{"sub-domain fragments", "coincident fragments of two sub-domains are not shared"};
    }
    return {};
}
//! shared: equal rectangles are added as the very same shape object
template<class Builder> void fill(Builder& b, const Scene& s, const Pose& P, int kind, bool shared = false)
{
    std::map<std::string, TopoDS_Face> pool;
    int k = kind; for (auto& d : s.doms) withBox(d.box, P, k++, [&](const auto& g) { if (d.confining) b.addConfiningSubDomain(g, Id(d.id)); else b.addSubDomain(g, Id(d.id)); });
    b.setConfineToSubDomainUnion(s.confineUnion);
    for (auto& n : s.nets) for (auto& r : n.rects) if (shared) { auto& f = pool[name(r)]; if (f.IsNull()) f = faceOf(r, P); b.addSubDomainEntity(f, Id(n.id)); } else withRect(r, P, k++, [&](const auto& g) { b.addSubDomainEntity(g, Id(n.id)); });
}
} // namespace net
