// C26: files written for networks are read back (geometry file by the kernel and numbered as Gmsh numbers them, mesh file
// by a parser of the subset of the .geo language) and compared with the network that was written.
#include "net.hh"
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
#include <BRepTools.hxx>
#include <fstream>
#include <sys/stat.h>
using namespace net;
struct Silence { std::streambuf* o; std::ostringstream s; Silence() : o(std::cout.rdbuf(s.rdbuf())) {} ~Silence() { std::cout.rdbuf(o); } };
// ---------------------------------------------------------------- the network that was written
struct View { TopTools_IndexedMapOfShape faces, solids, edges, verts; std::vector<std::set<Owner>> fOwn; std::vector<std::set<int>> sOwn; bool contained = false;
    void face(const TopoDS_Shape& f, std::optional<Owner> o) { int i = faces.Add(f); if (fOwn.size() < size_t(i)) fOwn.resize(i); if (o) fOwn[i - 1].insert(*o); TopExp::MapShapes(f, TopAbs_EDGE, edges); TopExp::MapShapes(f, TopAbs_VERTEX, verts); } };
static View view(const EntityNetwork& n) { View v; for (const auto& s : n.entityFragments()) { int i = -1; n.entityFragmentsIndexMap().Find(s, i); v.face(s, Owner{-1, i}); } return v; }
static View view(const ContainedEntityNetwork& n)
{
    View v; v.contained = true;
    for (const auto& id : n.subDomainIds()) { for (const auto& s : n.subDomainFragments(id)) { int i = v.solids.Add(s); if (v.sOwn.size() < size_t(i)) v.sOwn.resize(i); v.sOwn[i - 1].insert(id.get()); for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) v.face(x.Current(), {}); }
        for (const auto& s : n.subDomainEntityFragments(id)) { int i = -1; n.subDomainEntityFragmentsIndexMap(id).Find(s, i); v.face(s, Owner{int(id.get()), i}); } }
    return v;
}
// ---------------------------------------------------------------- the geometry file
struct FileShapes { TopTools_IndexedMapOfShape so, sh, f, w, e, v; int top = 0;
    void vert(const TopoDS_Shape& s) { v.Add(s); }
    void edge(const TopoDS_Shape& s) { if (e.Contains(s)) return; e.Add(s); for (TopExp_Explorer x(s, TopAbs_VERTEX); x.More(); x.Next()) vert(x.Current()); }
    void wire(const TopoDS_Shape& s) { if (w.Contains(s)) return; w.Add(s); for (TopExp_Explorer x(s, TopAbs_EDGE); x.More(); x.Next()) edge(x.Current()); }
    void face(const TopoDS_Shape& s) { if (f.Contains(s)) return; f.Add(s); for (TopExp_Explorer x(s.Oriented(TopAbs_FORWARD), TopAbs_WIRE); x.More(); x.Next()) wire(x.Current()); }
    void shell(const TopoDS_Shape& s) { if (sh.Contains(s)) return; sh.Add(s); for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) face(x.Current()); }
    void solid(const TopoDS_Shape& s) { if (so.Contains(s)) return; so.Add(s); for (TopExp_Explorer x(s, TopAbs_SHELL); x.More(); x.Next()) shell(x.Current()); }
    explicit FileShapes(const TopoDS_Shape& s)
    {   for (TopExp_Explorer x(s, TopAbs_SOLID); x.More(); x.Next()) solid(x.Current());
        for (TopExp_Explorer x(s, TopAbs_SHELL, TopAbs_SOLID); x.More(); x.Next()) shell(x.Current());
        for (TopExp_Explorer x(s, TopAbs_FACE, TopAbs_SHELL); x.More(); x.Next()) face(x.Current());
        for (TopExp_Explorer x(s, TopAbs_WIRE, TopAbs_FACE); x.More(); x.Next()) wire(x.Current());
        for (TopExp_Explorer x(s, TopAbs_EDGE, TopAbs_WIRE); x.More(); x.Next()) edge(x.Current());
        for (TopExp_Explorer x(s, TopAbs_VERTEX, TopAbs_EDGE); x.More(); x.Next()) vert(x.Current()); } };
struct Sig { std::array<R, 10> q; R dist(const Sig& o) const { R d = 0; for (int i = 0; i < 10; ++i) d = std::max(d, std::abs(q[i] - o.q[i])); return d; } };
//! size, center and second moments, normalised by the length scale s around the origin o
static Sig sig(const TopoDS_Shape& x, int dim, const V& o, R s)
{
    GProp_GProps g(gp_Pnt(o.x, o.y, o.z)); if (dim == 3) BRepGProp::VolumeProperties(x.Oriented(TopAbs_FORWARD), g); else if (dim == 2) BRepGProp::SurfaceProperties(x.Oriented(TopAbs_FORWARD), g); else if (dim == 1) BRepGProp::LinearProperties(x, g);
    Sig r{}; if (dim == 0) { auto p = BRep_Tool::Pnt(TopoDS::Vertex(x)); r.q = {(p.X() - o.x) / s, (p.Y() - o.y) / s, (p.Z() - o.z) / s}; return r; }
    R m = g.Mass(), sg = m < 0 ? -1 : 1, n = dim == 3 ? s * s * s : dim == 2 ? s * s : s; auto c = g.CentreOfMass(); auto I = g.MatrixOfInertia();
    r.q = {std::abs(m) / n, (c.X() - o.x) / s, (c.Y() - o.y) / s, (c.Z() - o.z) / s, sg * I(1, 1) / (n * s * s), sg * I(2, 2) / (n * s * s), sg * I(3, 3) / (n * s * s), sg * I(1, 2) / (n * s * s), sg * I(1, 3) / (n * s * s), sg * I(2, 3) / (n * s * s)};
    return r;
}
//! one-to-one matching of network shapes (a) and file shapes (b): index into a for each b
static std::vector<int> match(const TopTools_IndexedMapOfShape& a, const TopTools_IndexedMapOfShape& b, int dim, const V& o, R s, const std::string& what)
{
    if (a.Extent() != b.Extent()) throw Bad{vf::cat(what, ": ", b.Extent(), " in the file, ", a.Extent(), " in the network")};
    std::vector<Sig> A; for (int i = 1; i <= a.Extent(); ++i) A.push_back(sig(a(i), dim, o, s)); std::vector<int> r; std::vector<char> used(A.size());
    for (int i = 1; i <= b.Extent(); ++i) { Sig g = sig(b(i), dim, o, s); int k = -1; R best = 1e-6L; for (size_t j = 0; j < A.size(); ++j) if (!used[j] && A[j].dist(g) < best) { best = A[j].dist(g); k = j; } if (k < 0) throw Bad{vf::cat(what, ": number ", i, " of the file is not part of the network")}; used[k] = 1; r.push_back(k); }
    return r;
}
// ---------------------------------------------------------------- the mesh file
struct Geo { std::string merge; std::map<std::string, R> vars; std::map<std::string, std::map<long, std::vector<long>>> phys; struct Len { std::string kind; std::vector<long> ids; R size; }; std::vector<Len> len; };
struct Parser { std::string t; size_t i = 0; 
    void ws() { for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') ++i; } else if (t.compare(i, 2, "/*") == 0) { i = t.find("*/", i); i = i == std::string::npos ? t.size() : i + 2; } else return; } }
    bool eat(const std::string& s) { ws(); if (t.compare(i, s.size(), s)) return false; i += s.size(); return true; }
    void need(const std::string& s) { if (!eat(s)) throw Bad{vf::cat("geo file: expected '", s, "' at '", t.substr(i, 30), "'")}; }
    std::string ident() { ws(); size_t b = i; while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) ++i; if (b == i) throw Bad{vf::cat("geo file: identifier expected at '", t.substr(i, 30), "'")}; return t.substr(b, i - b); }
    R number() { ws(); const char* b = t.c_str() + i; char* e; R v = strtold(b, &e); if (e == b) throw Bad{vf::cat("geo file: number expected at '", t.substr(i, 30), "'")}; i += e - b; return v; }
    std::vector<long> list() { std::vector<long> r; need("{"); if (eat("}")) return r; do { R v = number(); if (v != std::floor(v)) throw Bad{"geo file: tag is not an integer"}; r.push_back(long(v)); } while (eat(",")); need("}"); return r; }
    Geo parse() { Geo g; for (ws(); i < t.size(); ws()) {
            std::string k = ident();
            if (k == "Merge") { need("\""); size_t e = t.find('"', i); if (e == std::string::npos || !g.merge.empty()) throw Bad{"geo file: Merge"}; g.merge = t.substr(i, e - i); i = e + 1; need(";"); }
            else if (k == "Physical") { std::string kind = ident(); if (kind == "Line") kind = "Curve"; need("("); R n = number(); need(")"); bool add = eat("+="); if (!add) need("="); auto l = list(); need(";"); auto& m = g.phys[kind]; if (m.count(long(n)) && !add) throw Bad{vf::cat("geo file: Physical ", kind, "(", long(n), ") is defined twice")}; m[long(n)].insert(m[long(n)].end(), l.begin(), l.end()); }
            else if (k == "Characteristic" || k == "MeshSize") { if (k == "Characteristic") need("Length"); need("{"); need("PointsOf"); need("{"); std::string kind = ident(); auto l = list(); need(";"); need("}"); need("}"); need("="); ws(); R v; if (isdigit((unsigned char)t[i]) || t[i] == '.' || t[i] == '-') v = number(); else { auto n = ident(); if (!g.vars.count(n)) throw Bad{"geo file: undefined variable " + n}; v = g.vars[n]; } need(";"); g.len.push_back({kind, l, v}); }
            else { need("="); g.vars[k] = number(); need(";"); } }
        return g; } };
// ---------------------------------------------------------------- comparison
static void judge(const View& n, const std::string& name, bool geo, R sizeE, R sizeB, const V& o, R s)
{
    BRep_Builder bb; TopoDS_Shape c; if (!BRepTools::Read(c, (name + ".brep").c_str(), bb)) throw Bad{"geometry file is not readable"};
    if (c.ShapeType() != TopAbs_COMPOUND) throw Bad{"geometry file does not contain a compound"};
    FileShapes F(c); auto sm = match(n.solids, F.so, 3, o, s, "solids"); auto fm = match(n.faces, F.f, 2, o, s, "faces"); match(n.edges, F.e, 1, o, s, "edges"); match(n.verts, F.v, 0, o, s, "vertices");
    if (!geo) return;
    std::ifstream in(name + ".geo"); std::stringstream ss; ss << in.rdbuf(); Parser ps; ps.t = ss.str(); if (!in) throw Bad{"no mesh file"}; Geo g = ps.parse();
    std::string dir = name.find('/') == std::string::npos ? "" : name.substr(0, name.rfind('/') + 1); struct stat a, b, t; if (stat((name + ".brep").c_str(), &t)) throw Bad{"no geometry file"};
    bool ok = (!stat(g.merge.c_str(), &a) && a.st_ino == t.st_ino) || (!stat((dir + g.merge).c_str(), &b) && b.st_ino == t.st_ino); if (!ok) throw Bad{"Merge does not name the geometry file: " + g.merge};
    auto groups = [&](const std::string& kind, int max) { std::vector<std::vector<long>> of(max + 1); for (auto& p : g.phys[kind]) for (long id : p.second) { if (id < 1 || id > max) throw Bad{vf::cat("Physical ", kind, ": tag ", id, " of ", max)}; of[id].push_back(p.first); } for (auto& p : g.phys[kind]) { if (p.second.empty()) throw Bad{"empty physical group"}; std::set<long> u(p.second.begin(), p.second.end()); if (u.size() != p.second.size()) throw Bad{vf::cat("Physical ", kind, "(", p.first, ") contains a tag twice")}; } return of; };
    for (auto& k : g.phys) if (k.first != "Volume" && k.first != "Surface" && k.first != "Curve") throw Bad{"unexpected physical group " + k.first};
    auto gv = groups("Volume", F.so.Extent()), gf = groups("Surface", F.f.Extent()), ge = groups("Curve", F.e.Extent());
    // domains
    for (int i = 1; i <= F.so.Extent(); ++i) { auto& own = n.sOwn[sm[i - 1]]; if (gv[i].empty()) throw Bad{vf::cat("domain fragment ", i, " is in no physical volume")}; for (long k : gv[i]) if (!own.count(k)) throw Bad{vf::cat("domain fragment ", i, " is in physical volume ", k, " but belongs to sub-domain ", *own.begin())}; }
    // entities
    std::map<long, std::set<Owner>> cand;
    for (int i = 1; i <= F.f.Extent(); ++i)
    {
        auto& own = n.fOwn[fm[i - 1]]; if (own.empty() && !gf[i].empty()) throw Bad{vf::cat("face ", i, " is in physical surface ", gf[i][0], " but is not part of an entity")};
        if (!own.empty() && gf[i].empty()) throw Bad{vf::cat("entity fragment ", i, " is in no physical surface")};
        if (own.size() <= 1 && gf[i].size() > 1) throw Bad{vf::cat("entity fragment ", i, " is in ", gf[i].size(), " physical surfaces")};
        for (long k : gf[i]) { if (!n.contained && own.begin()->second != k) throw Bad{vf::cat("entity fragment ", i, " of entity ", own.begin()->second, " is in physical surface ", k)};
            auto it = cand.find(k); if (it == cand.end()) cand[k] = own; else { std::set<Owner> x; for (auto& q : own) if (it->second.count(q)) x.insert(q); it->second = x; if (x.empty()) throw Bad{vf::cat("physical surface ", k, " contains fragments of different entities")}; } }
    }
    std::map<Owner, long> tagOf; for (auto& c : cand) if (c.second.size() == 1 && !tagOf.insert({*c.second.begin(), c.first}).second) throw Bad{vf::cat("one entity has the physical surfaces ", tagOf[*c.second.begin()], " and ", c.first)};
    // intersections
    std::vector<std::set<Owner>> at(F.e.Extent() + 1); std::vector<char> two(F.e.Extent() + 1); std::vector<std::vector<int>> ff(F.e.Extent() + 1);
    for (int i = 1; i <= F.f.Extent(); ++i) { auto& own = n.fOwn[fm[i - 1]]; if (own.empty()) continue; TopTools_IndexedMapOfShape es; TopExp::MapShapes(F.f(i), TopAbs_EDGE, es); for (int k = 1; k <= es.Extent(); ++k) { int j = F.e.FindIndex(es(k)); if (!j) throw Bad{"edge"}; for (int f2 : ff[j]) { bool common = false; for (auto& q : n.fOwn[fm[f2 - 1]]) common = common || own.count(q); if (!common) two[j] = 1; } ff[j].push_back(i); at[j].insert(own.begin(), own.end()); } }
    std::map<long, std::set<Owner>> inter;
    for (int j = 1; j <= F.e.Extent(); ++j)
    {
        if (two[j] && ge[j].empty()) throw Bad{vf::cat("intersection edge ", j, " is in no physical line")};
        if (ge[j].size() > 1) throw Bad{vf::cat("intersection edge ", j, " is in ", ge[j].size(), " physical lines")};
        if (at[j].size() <= 1 && !ge[j].empty()) throw Bad{vf::cat("edge ", j, " is in physical line ", ge[j][0], " but is not an intersection of entities")};
        for (long k : ge[j]) { auto it = inter.find(k); if (it == inter.end()) inter[k] = at[j]; else { std::set<Owner> x; for (auto& q : at[j]) if (it->second.count(q)) x.insert(q); it->second = x; if (x.size() < 2) throw Bad{vf::cat("physical line ", k, " contains intersections of different entities")}; } }
    }
    // mesh sizes of the vertices
    std::map<int, R> size; for (auto& l : g.len) for (long id : l.ids) { const bool vol = l.kind == "Volume"; if (!vol && l.kind != "Surface") throw Bad{"mesh size of " + l.kind}; if (id < 1 || id > (vol ? F.so.Extent() : F.f.Extent())) throw Bad{"mesh size: invalid tag"}; TopTools_IndexedMapOfShape vs; TopExp::MapShapes(vol ? F.so(id) : F.f(id), TopAbs_VERTEX, vs); for (int k = 1; k <= vs.Extent(); ++k) size[F.v.FindIndex(vs(k))] = l.size; }
    std::set<int> ent; for (int i = 1; i <= F.f.Extent(); ++i) if (!n.fOwn[fm[i - 1]].empty()) { TopTools_IndexedMapOfShape vs; TopExp::MapShapes(F.f(i), TopAbs_VERTEX, vs); for (int k = 1; k <= vs.Extent(); ++k) ent.insert(F.v.FindIndex(vs(k))); }
    for (int i = 1; i <= F.v.Extent(); ++i) { const R want = ent.count(i) ? sizeE : sizeB; if (!size.count(i)) throw Bad{vf::cat("vertex ", i, " has no mesh size")}; if (std::abs(size[i] - want) > 1e-4L * want) throw Bad{vf::cat("mesh size ", double(size[i]), " at a vertex ", ent.count(i) ? "of an entity" : "of the domain boundary", ", expected ", double(want))}; }
}
template<class Net> void writeAndJudge(const Net& net, int kind, const V& o, R s, std::string& cls)
{
    const View v = view(net); static const double sz[4][2] = {{1, 1}, {0.25, 3}, {1e-3, 0.1}, {123.456, 7.5}}; const double a = sz[kind % 4][0], b = sz[kind % 4][1]; mkdir("out", 0755);
    { GmshWriter w(net); const std::string name = kind % 5 == 4 ? "out/net" : "net"; cls = "gmsh file";
      if (kind % 7 == 3) { w.write(name, 2.0, 3.0); }
      if (kind % 6 == 5) { w.write(name, a); judge(v, name, true, a, a, o, s); } else if (kind % 6 == 4) { w.write(name, 2, 5); judge(v, name, true, 2, 5, o, s); } else { w.write(name, a, b); judge(v, name, true, a, b, o, s); } }
    { cls = "brep file"; BRepWriter w(net); w.write("plain"); judge(v, "plain", false, 0, 0, o, s); }
    cls.clear(); vf::outcome(vf::cat(v.contained ? "contained, " : "", v.solids.Extent(), " solids, ", v.faces.Extent() > 12 ? ">12" : vf::cat(v.faces.Extent()), " faces"));
}
static bool empty(const View& v) { return v.faces.Extent() == 0; }
template<class F> void state(F&& f)
{
    vf::step(); std::string cls = "build", err; bool ok = false;
    { Silence q; try { f(cls); ok = true; } catch (const Bad& e) { err = e.what; } catch (const std::exception& e) { err = e.what(); cls = "exception " + cls; } catch (...) { err = "OCC exception"; cls = "exception " + cls; } }
    vf::check(ok, cls + (err.rfind("edge ", 0) == 0 ? " (not an intersection)" : ""), err);
}
int main(int argc, char** argv)
{
    vf::init(argc, argv); int cnt = 0;
    const std::vector<Rect> cat{{2, 1, 0, 3, 0, 3}, {2, 1, 1, 3, 1, 3}, {2, 2, 0, 2, 0, 3}, {0, 1, 0, 3, 0, 3}, {0, 1, 0, 2, 1, 3}, {0, 2, 1, 3, 0, 2}, {1, 1, 0, 3, 0, 3}, {1, 2, 1, 3, 0, 2}, {1, 1, 1, 2, 1, 2}, {0, 3, 0, 3, 0, 3}, {2, 0, -1, 2, 1, 2}, {1, 1, -1, 4, -1, 4}, {0, 2, -1, 1, 1, 4}};
    Pose I; I.name = "I"; auto L = latticeRotations(); auto O = obliqueRotations(); std::vector<Pose> T{I}; { auto q = combine({L[5], O[0], O[4]}, {{10, -7, 3}}, {1.0L, 1e-2L, 1e3L}); T.insert(T.end(), q.begin(), q.end()); }
    const int n = cat.size(), ids[] = {1, 5, 2};
    auto plain = [&](const Scene& s, const Pose& P, int kind) { state([&](std::string& cls) { EntityNetworkBuilder<double> b; fill(b, s, P, kind); const auto& net = b.build(); if (empty(view(net))) return; writeAndJudge(net, kind, P.t, P.s, cls); }); };
    auto contained = [&](const Scene& s, const Pose& P, int kind) { state([&](std::string& cls) { ContainedEntityNetworkBuilder<double> b; fill(b, s, P, kind); const auto& net = b.build(); writeAndJudge(net, kind, P.t, P.s, cls); }); };
    // entities only, single sub-network, reversed faces included
    for (int m = 1; m < (1 << 10); ++m) { int c = __builtin_popcount(m); if (c > (vf::thorough ? 6 : 4)) continue; for (int t = 0; t < (vf::thorough ? 3 : 1); ++t) { Scene s; for (int i = 0; i < 10; ++i) if (m >> i & 1) s.of(0).rects.push_back(cat[i]); ++cnt; const Pose& P = cnt % 3 ? I : T[cnt / 3 % T.size()]; if (vf::begin(vf::cat("plain/", s.str(), "@", P.name))) plain(s, P, cnt); } }
    for (int m = 1; m < (1 << 10); ++m) { int c = __builtin_popcount(m); if (c > 4 || c < 2) continue; ++cnt; if (cnt % 3 && !vf::thorough) continue; if (!vf::begin(vf::cat("reversed/", m))) continue;
        state([&](std::string& cls) { EntityNetworkBuilder<double> b; int k = cnt; for (int i = 0; i < 10; ++i) if (m >> i & 1) { auto f = faceOf(cat[i], I); if (k++ % 2) f.Reverse(); b.addEntity(f); } writeAndJudge(b.build(), cnt, I.t, 1, cls); }); }
    // merged sub-networks and contained networks
    const Box3 full{{0, 0, 0}, {3, 3, 3}}, left{{0, 0, 0}, {1, 3, 3}}, right{{1, 0, 0}, {3, 3, 3}}, part{{1, 0, 0}, {3, 2, 2}}, inner{{1, 1, 1}, {2, 2, 2}}, ov1{{0, 0, 0}, {2, 2, 3}}, ov2{{1, 1, 0}, {3, 3, 3}}, far{{3, 3, 3}, {4, 4, 4}}, mid{{1, 0, 0}, {2, 3, 3}}, end{{2, 0, 0}, {3, 3, 2}};
    std::vector<std::vector<std::pair<int, Box3>>> D{{{1, full}}, {{5, part}}, {{1, left}, {5, right}}, {{1, left}, {5, part}}, {{1, full}, {5, inner}}, {{1, ov1}, {5, ov2}}, {{1, ov1}, {5, far}}, {{1, left}, {5, mid}, {2, end}}, {{5, ov1}, {2, full}, {1, inner}}};
    for (size_t d = 0; d < D.size(); ++d) for (int conf = 0; conf < (1 << D[d].size()); ++conf) for (int u = 0; u < 2; ++u)
    {
        Scene base; base.confineUnion = !u; for (size_t k = 0; k < D[d].size(); ++k) base.doms.push_back({D[d][k].first, D[d][k].second, bool(conf >> k & 1)});
        for (int as = 0; as < 81; ++as) for (int i = 0; i < n; ++i)
        {
            if (as < 3) { Scene s = base; s.of(ids[as]).rects = {cat[i]}; ++cnt; if ((vf::thorough || cnt % 9 == 0) && vf::begin(vf::cat("one/", s.str(), "@", T[cnt / 3 % T.size()].name))) contained(s, T[cnt / 3 % T.size()], cnt); }
            for (int j = 0; j < n; ++j) for (int k = -1; k < n; ++k) for (int l = -1; l < n; ++l)
            {
                if (k < 0 && (as >= 9 || l >= 0)) continue; if (l < 0 && as >= 27) continue; ++cnt; if (cnt % (vf::thorough ? 997 : 40009)) continue;
                Scene s = base; int a[4] = {as % 3, as / 3 % 3, as / 9 % 3, as / 27}, e[4] = {i, j, k, l}; for (int q = 0; q < (k < 0 ? 2 : l < 0 ? 3 : 4); ++q) s.of(ids[a[q]]).rects.push_back(cat[e[q]]);
                const Pose& P = T[cnt / 7 % 2 ? 0 : cnt / 14 % T.size()]; if (vf::begin(vf::cat("set/", s.str(), "@", P.name))) contained(s, P, cnt);
                if (vf::begin(vf::cat("merged/", s.str(), "@", P.name))) plain(s, P, cnt);
            }
        }
    }
    // curved entities and domains
    for (int dk = 0; dk < 4; ++dk) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = -1; c < 6; ++c) for (int conf = 0; conf < 2; ++conf)
    {
        ++cnt; if (cnt % (vf::thorough ? 1 : 11)) continue; if (!vf::begin(vf::cat("curved/", dk, "/", a, b, c, "/", conf))) continue;
        using P3 = Point<double, 3>; using D3 = Direction<double, 3>; using V3 = Vector<double, 3>; auto dir = [](double x, double y, double z) { return D3(V3(x, y, z)); };
        auto disk = [&](int k) { static const double C[6][3] = {{0, 0, 0.1}, {0.2, 0, 0.9}, {0, 0.1, 1.3}, {0.5, 0.1, 1}, {-0.3, 0.2, 1.7}, {0.1, -0.4, 0.6}}; D3 e1 = k % 2 ? dir(1, 0, 0) : dir(0.6, 0.8, 0), e2 = k % 2 ? dir(0, 0.6, 0.8) : dir(-0.8, 0.6, 0); if (k == 2) { e1 = dir(0, 0, 1); e2 = dir(0.6, 0.8, 0); } return Disk<double>(P3(C[k][0], C[k][1], C[k][2]), e1, e2, k == 3 ? 0.6 : 1.7, k == 3 ? 0.4 : 1.2); };
        auto add = [&](auto& bd) { bd.addSubDomainEntity(disk(a), Id(1)); bd.addSubDomainEntity(disk(b), dk == 3 ? Id(2) : Id(1)); if (c >= 0) bd.addSubDomainEntity(disk(c), Id(1)); };
        if (a == b || b == c || a == c) { vf::skip(); continue; }
        auto sub = [&](auto& bd, const auto& g, int id) { if (conf) bd.addConfiningSubDomain(g, Id(id)); else bd.addSubDomain(g, Id(id)); };
        auto doms = [&](auto& bd) { bd.setConfineToSubDomainUnion(false); if (dk == 0) sub(bd, Cylinder<double>(0.8, 2.0), 1); if (dk == 1) sub(bd, Sphere<double>(P3(0, 0, 1), 1.1), 1); if (dk == 2) sub(bd, Box<double>(-0.9, -0.8, 0.0, 0.7, 1.0, 1.9), 1); if (dk == 3) { sub(bd, Cylinder<double>(0.8, 1.0), 1); sub(bd, Cylinder<double>(Disk<double>(P3(0, 0, 1), dir(1, 0, 0), dir(0, 1, 0), 0.8, 0.8), 1.0), 2); } };
        state([&](std::string& cls) { EntityNetworkBuilder<double> bd; doms(bd); add(bd); const auto& net = bd.build(); if (!empty(view(net))) writeAndJudge(net, cnt, {0, 0, 0}, 1, cls); ContainedEntityNetworkBuilder<double> cb; doms(cb); add(cb); writeAndJudge(cb.build(), cnt, {0, 0, 0}, 1, cls); });
    }
    return vf::finish();
}
