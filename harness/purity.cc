// C30: every history of queries, copies, assignments, moves, destructions and translations over two objects of a kind.
// The expected answers are those of an object on which nothing else was ever done: each one is computed in a process of its own.
#include <bits/stdc++.h>
#include <memory>
#include <sys/wait.h>
#include "dfs.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/distance/distance.hh>
using namespace Frackit;
#ifndef SAN
#define SAN 0
#endif
using FP = Point<double, 3>; using FV = Vector<double, 3>; using FD = Direction<double, 3>; using FS = Segment<double, 3>; using FL = Line<double, 3>; using FPl = Plane<double, 3>; using FC = Circle<double, 3>; using FE = Ellipse<double, 3>; using FA = EllipseArc<double, 3>;
using FQ = Quadrilateral<double, 3>; using FT = Triangle<double, 3>; using FPoly = Polygon<double, 3>; using FDk = Disk<double>; using FCS = CylinderSurface<double>; using FCy = Cylinder<double>; using FH = HollowCylinder<double>; using FB = Box<double>; using FSp = Sphere<double>;
using Rec = std::vector<double>;
static FP P(double x, double y, double z) { return FP(x, y, z); } static FD D(double x, double y, double z) { return FD(FV(x, y, z)); }
//---------------------------------------------------------------- answers as numbers
static void put(Rec& r, double x) { r.push_back(x); }
static void put(Rec& r, bool x) { r.push_back(x); }
static void put(Rec& r, std::size_t x) { r.push_back(x); }
static void put(Rec& r, const FP& p) { for (double x : {p.x(), p.y(), p.z()}) r.push_back(x); }
static void put(Rec& r, const FD& p) { for (double x : {p.x(), p.y(), p.z()}) r.push_back(x); }
static void put(Rec& r, const FV& p) { for (double x : {p.x(), p.y(), p.z()}) r.push_back(x); }
static void put(Rec& r, const std::string& s) { for (char c : s) r.push_back(c); }
static void put(Rec& r, const FS& s) { put(r, s.source()); put(r, s.target()); }
static void put(Rec& r, const FL& s) { put(r, s.supportingPoint()); put(r, s.direction()); }
static void put(Rec& r, const FPl& s) { put(r, s.supportingPoint()); put(r, s.normal()); put(r, s.base1()); put(r, s.base2()); }
template<class E> static void ell(Rec& r, const E& e) { put(r, e.center()); put(r, e.majorAxis()); put(r, e.minorAxis()); put(r, e.normal()); put(r, e.majorAxisLength()); put(r, e.minorAxisLength()); }
static void put(Rec& r, const FE& e) { ell(r, e); } static void put(Rec& r, const FC& e) { ell(r, e); } static void put(Rec& r, const FDk& e) { ell(r, e); }
static void put(Rec& r, const FQ& q) { for (int i = 0; i < 4; ++i) put(r, q.corner(i)); put(r, q.center()); put(r, q.supportingPlane()); }
static void put(Rec& r, const FCS& q) { put(r, q.upperBoundingCircle()); put(r, q.lowerBoundingCircle()); put(r, q.height()); }
static void put(Rec& r, const FCy& q) { put(r, q.topFace()); put(r, q.bottomFace()); put(r, q.height()); }
static const std::vector<FP>& probes() { static const std::vector<FP> p{P(0, 0, 0), P(.5, .5, .5), P(1, 0, 0), P(1, 0, 1), P(0, 1, 2), P(2, 0, 0), P(.25, .25, 0), P(1, 1, 1), P(0, 0, 2.0000001), P(3, -1, 1.5)}; return p; }
template<class T> struct Query { std::string name; std::function<Rec(const T&)> f; };
template<class T> struct Ref { std::string name; std::function<const void*(const T&)> p; std::function<Rec(const T&)> f; std::function<Rec(const void*)> at; };
template<class T> struct Kind
{
    std::string name; std::vector<std::function<std::unique_ptr<T>()>> make; std::vector<Query<T>> q; std::vector<Ref<T>> refs; std::vector<std::function<void(const T&)>> mutate;
    template<class F> Kind& query(const std::string& n, F f) { q.push_back({n, [f](const T& t) { Rec r; f(r, t); return r; }}); return *this; }
    //! accessor that hands out a reference to a part
    template<class F> Kind& ref(const std::string& n, F f)
    {
        using R = std::decay_t<decltype(f(std::declval<const T&>()))>;
        refs.push_back({n, [f](const T& t) -> const void* { return &f(t); }, [f](const T& t) { Rec r; put(r, f(t)); return r; }, [](const void* p) { Rec r; put(r, *static_cast<const R*>(p)); return r; }});
        q.push_back({n, [f](const T& t) { Rec r; put(r, f(t)); return r; }});
        mutate.push_back([f](const T& t) { auto x = f(t); if constexpr (std::is_same_v<R, FP>) x += FV(1., -2., 3.); else { auto y = f(t); x = y; } (void)x; });
        return *this;
    }
    template<class F> Kind& val(const std::string& n, F f)
    {
        using R = std::decay_t<decltype(f(std::declval<const T&>()))>;
        q.push_back({n, [f](const T& t) { Rec r; put(r, f(t)); return r; }});
        if constexpr (std::is_same_v<R, FP>) mutate.push_back([f](const T& t) { auto x = f(t); x += FV(1., -2., 3.); x -= FV(.5, .5, .5); });
        return *this;
    }
    Kind& contains(bool flag = false)
    {
        q.push_back({"contains(p)", [](const T& t) { Rec r; for (auto& p : probes()) put(r, t.contains(p)); return r; }});
        q.push_back({"contains(p, eps)", [](const T& t) { Rec r; for (auto& p : probes()) for (double e : {1e-7, 1e-1}) put(r, t.contains(p, e)); return r; }});
        return *this;
    }
    template<class... A> Kind& value(A... a) { make.push_back([a...] { return std::make_unique<T>(a...); }); return *this; }
};
//! answers of a pristine object, in a process that never did anything else
template<class T> static std::vector<std::vector<Rec>> pristine(const Kind<T>& k)
{
    std::vector<std::vector<Rec>> res;
    for (auto& m : k.make)
    {
        res.emplace_back();
        for (auto& q : k.q)
        {
            int fd[2]; if (pipe(fd)) _exit(3); std::cout.flush(); fflush(stdout); pid_t pid = fork();
            if (pid == 0) { auto o = m(); Rec r = q.f(*o); std::size_t n = r.size(), b = n * sizeof(double), off = 0; while (off < b) { auto w = write(fd[1], reinterpret_cast<char*>(r.data()) + off, b - off); if (w <= 0) _exit(4); off += w; } _exit(0); }
            close(fd[1]); Rec r; double x; char* p = reinterpret_cast<char*>(&x); std::size_t have = 0; while (true) { auto n = read(fd[0], p + have, sizeof x - have); if (n <= 0) break; have += n; if (have == sizeof x) { r.push_back(x); have = 0; } }
            close(fd[0]); int st; waitpid(pid, &st, 0); if (st) { std::cerr << "pristine process of " << k.name << " " << q.name << " failed" << std::endl; _exit(5); } res.back().push_back(r);
        }
    }
    return res;
}
static bool same(const Rec& a, const Rec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::abs(a[i] - b[i]) <= 1e-13 * (1 + std::abs(b[i])))) return false; return true; }
template<class T> struct World
{
    static inline const Kind<T>* K; static inline std::vector<std::vector<Rec>> fresh; static inline int mode; // mode 0: all operations; 1: life cycle with all queries merged into one
    static constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
    std::vector<int> ops; int a = 0, b = 1; // model: value held by the slots, -1: nothing
    //! life-cycle operations
    enum { NEWA0, NEWA1, NEWA2, DELA, DELB, MOVEAB, MOVECTOR, COPYAB, COPYBA, COPYCTOR, SELF, SWAP, HOLD, MUT, ALL, NLIFE };
    static const char* nm(int o) { static const char* N[] = {"a = new 0", "a = new 1", "a = new 2", "destroy a", "destroy b", "b = move(a)", "b(move(a))", "b = a", "a = b", "b(a)", "a = a", "swap", "hold parts of b", "translate parts of a", "all queries of a"}; return N[o]; }
    static int numOps() { return NLIFE + (mode == 0 ? int(K->q.size()) : 0); }
    static std::string describe(const std::string& p) { std::string r; for (char c : p) { int o = vf::Histories<World>::opOf(c); r += o < NLIFE ? std::string(nm(o)) + "; " : "a." + K->q[o - NLIFE].name + "; "; } return r; }
    bool apply(int op)
    {
        if (!copyable && (op == COPYAB || op == COPYBA || op == COPYCTOR || op == SELF)) return false;
        const bool needA = op == DELA || op == MOVEAB || op == MOVECTOR || op == COPYAB || op == COPYCTOR || op == SELF || op == MUT || op == ALL || op >= NLIFE, needB = op == DELB || op == COPYBA || op == HOLD || op == MOVEAB || op == COPYAB;
        if ((needA && a < 0) || (needB && b < 0)) return false; if (op == SWAP && (a < 0 || b < 0)) return false;
        if (op == NEWA2 && K->make.size() < 3) return false;
        if (!ops.empty() && ops.back() == op && (op == HOLD || op == MUT || op == ALL || op == SELF)) return false;
        ops.push_back(op);
        switch (op) { case NEWA0: a = 0; break; case NEWA1: a = 1; break; case NEWA2: a = 2; break; case DELA: a = -1; break; case DELB: b = -1; break; case MOVEAB: case MOVECTOR: b = a; a = -1; break; case COPYAB: case COPYCTOR: b = a; break; case COPYBA: a = b; break; case SWAP: std::swap(a, b); break; }
        return true;
    }
    static std::string h() { return K->name + ": " + describe(vf::curKey.substr(vf::curKey.rfind(':') + 1)); }
    void expect(const T& o, int v, size_t i, const char* who) const { const Rec r = K->q[i].f(o); vf::check(same(r, fresh[v][i]), K->name + "." + K->q[i].name, [&] { return h() + "-> " + who + "." + K->q[i].name + " of value " + std::to_string(v) + " differs from a fresh object: " + show(r) + " instead of " + show(fresh[v][i]); }); }
    static std::string show(const Rec& r) { std::ostringstream s; for (size_t i = 0; i < r.size() && i < 12; ++i) s << r[i] << " "; return s.str(); }
    void observe()
    {
        World w; std::unique_ptr<T> A = K->make[0](), B = K->make[1](); struct Held { const void* p; Rec r; const Ref<T>* f; }; std::vector<Held> held;
        vf::guarded("history", [&] {
            for (int op : ops)
            {
                w.apply(op); if (op != HOLD && op < MUT && op != NEWA0 && op != NEWA1 && op != NEWA2 && op != DELA && op != COPYBA && op != SELF) held.clear(); // b changes
                switch (op) {
                    case NEWA0: case NEWA1: case NEWA2: A = K->make[op - NEWA0](); break;
                    case DELA: A.reset(); break; case DELB: B.reset(); break;
                    case MOVEAB: if (!B) B = K->make[1](); *B = std::move(*A); A.reset(); break;
                    case MOVECTOR: B = std::make_unique<T>(std::move(*A)); A.reset(); break;
                    case COPYAB: if constexpr (copyable) { const T& s = *A; *B = s; } break;
                    case COPYBA: if constexpr (copyable) { if (!A) A = std::make_unique<T>(*B); else { const T& s = *B; *A = s; } } break;
                    case COPYCTOR: if constexpr (copyable) { const T& s = *A; auto n = std::make_unique<T>(s); B = std::move(n); } break;
                    case SELF: if constexpr (copyable) { T& s = *A; *A = s; } break;
                    case SWAP: { using std::swap; swap(*A, *B); break; }
                    case HOLD: held.clear(); for (auto& f : K->refs) held.push_back({f.p(*B), f.f(*B), &f}); break;
                    case MUT: for (auto& m : K->mutate) m(*A); break;
                    case ALL: for (size_t i = K->q.size(); i-- > 0;) K->q[i].f(*A); break;
                    default: expect(*A, w.a, op - NLIFE, "a");
                }
            }
            for (auto& x : held) { vf::check(same(x.f->at(x.p), x.r), K->name + ": held " + x.f->name, [&] { return h(); }); vf::check(x.f->p(*B) == x.p, K->name + ": identity of " + x.f->name, [&] { return h(); }); }
            if (a >= 0) for (size_t i = 0; i < K->q.size(); ++i) expect(*A, a, i, "a");
            if (b >= 0) for (size_t i = K->q.size(); i-- > 0;) expect(*B, b, i, "b");
            if (a >= 0) for (size_t i = K->q.size(); i-- > 0;) expect(*A, a, i, "a");
        });
    }
};
template<class T> static void explore(const Kind<T>& k)
{
    using W = World<T>; W::K = &k; W::fresh = pristine(k);
    const int nq = k.q.size();
    for (size_t v = 1; v < k.make.size(); ++v) for (int i = 0; i < nq; ++i) if (W::fresh[0][i].empty()) { std::cerr << "no answer" << std::endl; _exit(6); }
    { W::mode = 0; vf::Histories<W> h{k.name, (nq <= 12 ? 4 : 3) + (vf::thorough ? 1 : 0) - SAN}; h.run(W()); }
    { W::mode = 1; vf::Histories<W> h{k.name + ".life", (vf::thorough ? 6 : 5) - SAN}; h.run(W()); }
    vf::outcome(k.name);
}
#define A(n) [](const auto& t) -> decltype(auto) { return t.n(); }
int main(int argc, char** argv)
{
    vf::init(argc, argv); vf::caseTimeout = 600;
    const FD X = D(1, 0, 0), Y = D(0, 1, 0), Z = D(0, 0, 1), O = D(1, 2, 2), O1 = D(2, 1, -2), O2 = D(2, -2, 1);
    { Kind<FH> k; k.name = "HollowCylinder"; k.value(P(0, 0, 0), Z, .5, 1., 2.).value(P(1, 2, 3), O, .25, 2., 1.).value(1., 1.5, 3.);
      k.val("name", A(name)).ref("bottomInnerCircle", A(bottomInnerCircle)).ref("topInnerCircle", A(topInnerCircle)).ref("bottomOuterCircle", A(bottomOuterCircle)).ref("topOuterCircle", A(topOuterCircle)).ref("innerLateralFace", A(innerLateralFace)).ref("outerLateralFace", A(outerLateralFace)).ref("axis", A(axis)).ref("base1", A(base1));
      k.val("fullCylinder", A(fullCylinder)).val("centerSegment", A(centerSegment)).query("sizes", [](Rec& r, const FH& t) { put(r, t.height()); put(r, t.innerRadius()); put(r, t.outerRadius()); put(r, t.volume()); put(r, computeMagnitude(t)); }).contains(); explore(k); }
    { Kind<FCy> k; k.name = "Cylinder"; k.value(1., 2.).value(FC(P(1, 2, 3), O, 2.), 1.).value(FDk(P(0, 1, 0), Y, Z, 1.5, 1.5), .5);
      k.ref("topFace", A(topFace)).ref("bottomFace", A(bottomFace)).ref("direction", A(direction)).ref("base1", A(base1)).ref("base2", A(base2)).ref("base3", A(base3)).val("lateralFace", A(lateralFace)).val("centerSegment", A(centerSegment)).query("sizes", [](Rec& r, const FCy& t) { put(r, t.height()); put(r, t.radius()); put(r, t.volume()); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FCS> k; k.name = "CylinderSurface"; k.value(1., 2.).value(FC(P(1, 2, 3), O, 2.), 1.).value(FC(P(0, 1, 0), Y, 1.5), .5);
      k.ref("upperBoundingCircle", A(upperBoundingCircle)).ref("lowerBoundingCircle", A(lowerBoundingCircle)).ref("direction", A(direction)).ref("base1", A(base1)).ref("base3", A(base3)).val("cylinder", A(cylinder)).val("centerSegment", A(centerSegment));
      k.query("getTangentPlane", [](Rec& r, const FCS& t) { put(r, t.getTangentPlane(t.lowerBoundingCircle().getPoint(.3))); put(r, t.getTangentPlane(t.upperBoundingCircle().getPoint(.8))); }).query("sizes", [](Rec& r, const FCS& t) { put(r, t.height()); put(r, t.radius()); put(r, t.area()); put(r, computeMagnitude(t)); put(r, defaultEpsilon(t)); }).contains(); explore(k); }
    { Kind<FDk> k; k.name = "Disk"; k.value(P(0, 0, 0), X, Y, 1., 1.).value(P(1, 2, 3), O, O1, 2., .5).value(FE(P(0, 1, 0), Y, Z, 1.5, .25));
      k.ref("center", A(center)).ref("majorAxis", A(majorAxis)).ref("minorAxis", A(minorAxis)).ref("normal", A(normal)).val("boundingEllipse", A(boundingEllipse)).val("supportingPlane", A(supportingPlane)).query("getPoint", [](Rec& r, const FDk& t) { for (double a : {0., .3, .9}) for (double b : {0., .5, 1.}) put(r, t.getPoint(a, b)); }).query("sizes", [](Rec& r, const FDk& t) { put(r, t.area()); put(r, t.majorAxisLength()); put(r, t.minorAxisLength()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FE> k; k.name = "Ellipse"; k.value(P(0, 0, 0), X, Y, 1., 1.).value(P(1, 2, 3), O, O1, 2., .5).value(P(0, 1, 0), Y, Z, 1.5, .25);
      k.ref("center", A(center)).ref("majorAxis", A(majorAxis)).ref("minorAxis", A(minorAxis)).ref("normal", A(normal)).val("supportingPlane", A(supportingPlane)).query("points", [](Rec& r, const FE& t) { for (double a : {0., .3, .9}) { auto p = t.getPoint(a); put(r, p); put(r, t.getPointFromAngle(a * 6)); put(r, t.getParam(p)); put(r, t.getAngle(p)); } }).query("sizes", [](Rec& r, const FE& t) { put(r, defaultEpsilon(t)); put(r, t.majorAxisLength()); put(r, t.minorAxisLength()); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FA> k; k.name = "EllipseArc"; auto arc = [&](FE e, double a, double b) { k.value(e, e.getPoint(a), e.getPoint(b)); }; arc(FE(P(0, 0, 0), X, Y, 1., 1.), 0., .25); arc(FE(P(1, 2, 3), O, O1, 2., .5), .7, .2); arc(FE(P(0, 1, 0), Y, Z, 1.5, .25), 0., 0.);
      k.ref("source", A(source)).ref("target", A(target)).ref("supportingEllipse", A(supportingEllipse)).ref("center", A(center)).query("points", [](Rec& r, const FA& t) { for (double a : {0., .3, .9, 1.}) put(r, t.getPoint(a)); }).query("angles", [](Rec& r, const FA& t) { put(r, t.sourceAngleOnEllipse()); put(r, t.targetAngleOnEllipse()); put(r, t.isFullEllipse()); put(r, t.name()); }).query("contains on arc", [](Rec& r, const FA& t) { for (double a = 0; a < .99; a += .05) { put(r, t.contains(t.supportingEllipse().getPoint(a))); put(r, t.contains(t.supportingEllipse().getPoint(a), 1e-6, false)); } }).contains(); explore(k); }
    { Kind<FC> k; k.name = "Circle"; k.value(P(0, 0, 0), Z, 1.).value(P(1, 2, 3), O, 2.).value(P(0, 1, 0), Y, .5);
      k.ref("center", A(center)).ref("base1", A(base1)).ref("base2", A(base2)).ref("normal", A(normal)).val("supportingPlane", A(supportingPlane)).query("points", [](Rec& r, const FC& t) { for (double a : {0., .3, .9}) { put(r, t.getPoint(a)); put(r, t.getPointFromAngle(a * 6)); } }).query("sizes", [](Rec& r, const FC& t) { put(r, t.radius()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FPl> k; k.name = "Plane"; k.value(P(0, 0, 0), Z).value(P(1, 2, 3), O, O1, O2).value(P(0, 1, 0), P(1, 1, 1), P(0, 0, 2));
      k.ref("supportingPoint", A(supportingPoint)).ref("normal", A(normal)).ref("base1", A(base1)).ref("base2", A(base2)).query("projection(p)", [](Rec& r, const FPl& t) { for (auto& p : probes()) put(r, t.projection(p)); }).query("projection(line, segment)", [](Rec& r, const FPl& t) { put(r, t.projection(FL(P(0, 1, 0), D(1, 1, 3)))); put(r, t.projection(FS(P(1, 1, 1), P(2, 0, 5)))); }).query("name", [](Rec& r, const FPl& t) { put(r, t.name()); }).contains(); explore(k); }
    { Kind<FL> k; k.name = "Line"; k.value(P(0, 0, 0), Z).value(P(1, 2, 3), O).value(P(0, 1, 0), Y); k.ref("supportingPoint", A(supportingPoint)).ref("direction", A(direction)).query("projection", [](Rec& r, const FL& t) { for (auto& p : probes()) put(r, t.projection(p)); }).query("name", [](Rec& r, const FL& t) { put(r, t.name()); }).contains(); explore(k); }
    { Kind<FS> k; k.name = "Segment"; k.value(P(0, 0, 0), P(1, 1, 1)).value(P(1, 2, 3), P(0, 0, 2)).value(P(2, 0, 0), P(0, 0, 0)); k.ref("source", A(source)).ref("target", A(target)).val("center", A(center)).val("direction", A(direction)).val("supportingLine", A(supportingLine)).query("points", [](Rec& r, const FS& t) { for (double a : {0., .3, 1.}) put(r, t.getPoint(a)); }).query("sizes", [](Rec& r, const FS& t) { put(r, t.length()); put(r, t.squaredLength()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FPoly> k; k.name = "Polygon"; auto mk = [&](std::vector<FP> c) { k.value(c); }; mk({P(0, 0, 0), P(1, 0, 0), P(1, 1, 0), P(0, 1, 0)}); mk({P(0, 0, 0), P(2, 0, 0), P(3, 1, 1), P(1, 2, 2), P(-1, 1, 1)}); mk({P(0, 0, 1), P(1, 0, 1), P(0, 2, 1)});
      k.ref("corner(0)", [](const FPoly& t) -> const FP& { return t.corner(0); }).ref("corner(2)", [](const FPoly& t) -> const FP& { return t.corner(2); }).ref("center", A(center)).val("supportingPlane", A(supportingPlane)).query("edges", [](Rec& r, const FPoly& t) { for (size_t i = 0; i < t.numEdges(); ++i) put(r, t.edge(i)); put(r, t.numCorners()); }).query("sizes", [](Rec& r, const FPoly& t) { put(r, t.area()); put(r, t.isConvex()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FQ> k; k.name = "Quadrilateral"; k.value(P(0, 0, 0), P(1, 0, 0), P(0, 1, 0), P(1, 1, 0)).value(P(0, 0, 0), P(2, 0, 1), P(0, 3, 0), P(1, 2, .5)).value(P(0, 0, 0), P(4, 0, 0), P(0, 4, 0), P(1, 1, 0));
      k.ref("corner(0)", [](const FQ& t) -> const FP& { return t.corner(0); }).ref("corner(3)", [](const FQ& t) -> const FP& { return t.corner(3); }).ref("center", A(center)).val("supportingPlane", A(supportingPlane)).query("edges", [](Rec& r, const FQ& t) { for (int i = 0; i < 4; ++i) put(r, t.edge(i)); }).query("sizes", [](Rec& r, const FQ& t) { put(r, t.area()); put(r, t.isConvex()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FT> k; k.name = "Triangle"; k.value(P(0, 0, 0), P(1, 0, 0), P(0, 1, 0)).value(P(0, 0, 0), P(2, 0, 1), P(0, 3, 0)).value(P(1, 1, 1), P(4, 0, 0), P(0, 4, 0));
      k.ref("corner(0)", [](const FT& t) -> const FP& { return t.corner(0); }).ref("corner(2)", [](const FT& t) -> const FP& { return t.corner(2); }).ref("center", A(center)).ref("normal", A(normal)).val("supportingPlane", A(supportingPlane)).query("edges", [](Rec& r, const FT& t) { for (int i = 0; i < 3; ++i) put(r, t.edge(i)); }).query("sizes", [](Rec& r, const FT& t) { put(r, t.area()); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FSp> k; k.name = "Sphere"; k.value(P(0, 0, 0), 1.).value(P(1, 2, 3), 3.).value(P(0, 1, 0), .5); k.ref("center", A(center)).query("sizes", [](Rec& r, const FSp& t) { put(r, t.radius()); put(r, t.volume()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); put(r, t.name()); }).contains(); explore(k); }
    { Kind<FB> k; k.name = "Box"; k.value(0., 0., 0., 1., 1., 1.).value(-1., 0., .5, 2., 1., 3.).value(P(1, 1, 1), P(2, 4, 8)); k.val("center", A(center)).query("corners", [](Rec& r, const FB& t) { for (int i = 0; i < 8; ++i) put(r, t.corner(i)); }).query("edges", [](Rec& r, const FB& t) { for (int i = 0; i < 12; ++i) put(r, t.edge(i)); }).query("faces", [](Rec& r, const FB& t) { for (int i = 0; i < 6; ++i) put(r, t.face(i)); }).query("sizes", [](Rec& r, const FB& t) { put(r, t.volume()); put(r, defaultEpsilon(t)); put(r, computeMagnitude(t)); for (double x : {t.xMin(), t.yMin(), t.zMin(), t.xMax(), t.yMax(), t.zMax()}) put(r, x); put(r, t.name()); }).contains(); explore(k); }
    return vf::finish();
}
