// C17: every operation history of SamplingStatus against a map-based reference model.
#include <bits/stdc++.h>
#include <iostream>
#include <iomanip>
#include <string>
#include <frackit/sampling/status.hh>
#include "dfs.hh"
using namespace Frackit;

static std::ostringstream sink;
struct Capture { std::streambuf* old; std::ostringstream o; Capture() : old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };

static const int IDS[] = {0, 1, 7};
struct World
{
    SamplingStatus s;
    std::map<int, long> count, target; long rejected = 0; bool rejUnspec = false, header = false, bad = false;
    std::set<int> sampledWithoutTarget;
    static int numIds;
    // ops: per id: target 0,1,2 | inc | resetCounter | getCount  ; then rej, resetCounters, reset, print, finished
    static constexpr int PER = 6;
    static int numOps() { return numIds * PER + 5; }
    static std::string describe(const std::string& p)
    {
        std::string r; for (char c : p) { int op = vf::Histories<World>::opOf(c); static const char* g[] = {"reject", "resetCounters", "reset", "print", "finished"};
            if (op >= numIds * PER) r += std::string(g[op - numIds * PER]) + "; ";
            else { int id = IDS[op / PER], k = op % PER; r += k < 3 ? vf::cat("setTarget(", id, ",", k, "); ") : k == 3 ? vf::cat("inc(", id, "); ") : k == 4 ? vf::cat("resetCounter(", id, "); ") : vf::cat("getCount(", id, "); "); } }
        return r;
    }
    bool apply(int op)
    {
        Capture c; bool ok = true; std::string err;
        try {
        if (op < numIds * PER)
        {
            int id = IDS[op / PER], k = op % PER;
            if (k < 3) { s.setTargetCount(Id(id), k); target[id] = k; }
            else if (k == 3) { s.increaseCounter(Id(id)); count[id]++; }
            else if (k == 4) { s.resetCounter(Id(id)); count[id] = 0; }
            else { auto n = s.getCount(Id(id)); ok = long(n) == cnt(id); err = "getCount"; }
        }
        else switch (op - numIds * PER)
        {
            case 0: s.increaseRejectedCounter(); rejected++; break;
            case 1: s.resetCounters(); for (auto& p : count) p.second = 0; if (rejected) rejUnspec = true; break;
            case 2: s.reset(); count.clear(); target.clear(); rejected = 0; rejUnspec = false; header = false; break;
            case 3: s.print(); header = true; break;
            case 4: { bool f = s.finished(); ok = f == allFinished(); err = "finished()"; } break;
        }
        } catch (const std::exception& e) { ok = false; err = std::string("exception ") + e.what(); }
        if (!ok && !bad) { bad = true; std::cout.rdbuf(c.old); vf::fail("operation", describe(vf::curKey.substr(vf::curKey.find(':') + 1)) + " -> " + err); }
        return !bad;
    }
    long cnt(int id) const { auto i = count.find(id); return i == count.end() ? 0 : i->second; }
    bool allFinished() const { for (auto& t : target) if (cnt(t.first) < t.second) return false; return true; }
    std::string canon() const { std::string r; for (int i = 0; i < numIds; ++i) { auto t = target.find(IDS[i]); r += vf::cat(cnt(IDS[i]), "/", t == target.end() ? -1 : t->second, " "); } return r + vf::cat(rejected, rejUnspec, header); }
    void observe()
    {
        auto d = [&](const std::string& m) { return [&, m] { return describe(vf::curKey.substr(vf::curKey.find(':') + 1)) + ": " + m; }; };
        vf::guarded("observer", [&] {
            { SamplingStatus c(s); bool f; { Capture cc; f = c.finished(); } vf::check(f == allFinished(), "finished()", d(vf::cat("finished() is ", f))); vf::outcome(f ? "all finished" : "not finished"); }
            long total = 0;
            for (int i = 0; i < numIds; ++i)
            {
                int id = IDS[i]; total += cnt(id);
                SamplingStatus c(s);
                vf::check(long(c.getCount(Id(id))) == cnt(id), "getCount(id)", d(vf::cat("getCount(", id, ")=", c.getCount(Id(id)), " expected ", cnt(id))));
                auto t = target.find(id);
                if (t != target.end())
                {
                    SamplingStatus c2(s); bool f = c2.finished(Id(id));
                    vf::check(f == (cnt(id) >= t->second), "finished(id)", d(vf::cat("finished(", id, ") is ", f)));
                    vf::outcome(f ? "id finished" : "id not finished");
                }
            }
            { SamplingStatus c(s); vf::check(long(c.getCount()) == total, "getCount()", d(vf::cat("getCount()=", c.getCount(), " expected ", total))); }
            checkPrint(d);
        });
    }
    template<class D> void checkPrint(D&& d)
    {
        SamplingStatus c(s); std::string out, out2; long total = 0, tt = 0;
        for (auto& p : count) total += p.second;
        for (auto& p : target) tt += p.second;
        try { Capture cc; c.print(); out = cc.o.str(); cc.o.str(""); c.print(true); out2 = cc.o.str(); }
        catch (const std::exception& e) { vf::check(false, "print", d(std::string("print() throws ") + e.what())); return; }
        auto hasHeader = [](const std::string& o) { return o.find("Accepted count") != std::string::npos; };
        vf::check(hasHeader(out) == !header, "print", d("header printed " + std::string(hasHeader(out) ? "again" : "not at all")));
        vf::check(hasHeader(out2), "print", d("forced header missing"));
        // the values: <accepted> | <rejected> | <ratio> | <progress>
        std::string line = out.substr(hasHeader(out) ? out.rfind("#\n") + 2 : 0); for (auto& ch : line) if (ch == '|') ch = ' ';
        std::istringstream is(line); std::string a, r, q, p; is >> a >> r >> q >> p;
        vf::check(a == std::to_string(total), "print", d("accepted count printed as " + a));
        vf::check(r == std::to_string(rejected) || (rejUnspec && r == std::to_string(std::min(rejected, 0L))) || rejUnspec, "print", d("rejected count printed as " + r));
        if (tt > 0) vf::check(std::abs(std::atof(p.c_str()) - 100.0 * total / tt) < 0.01, "print", d("progress printed as " + p));
        if (total + rejected > 0 && !rejUnspec) vf::check(std::abs(std::atof(q.c_str()) - 100.0 * total / (total + rejected)) < 0.01, "print", d("ratio printed as " + q));
        // printing has no influence on the observable state
        bool same; { Capture cc; same = long(c.getCount()) == total && c.finished() == allFinished(); }
        vf::check(same, "print", d("printing changed the status"));
    }
};
int World::numIds = 2;

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    World::numIds = 2;
    { vf::Histories<World> h{"two", vf::thorough ? 6 : 5}; h.run(World()); }
    World::numIds = 3;
    { vf::Histories<World> h{"three", vf::thorough ? 5 : 4}; h.run(World()); }
    { vf::Histories<World> h{"deep", 0}; h.bfs(World(), vf::thorough ? 14 : 9, vf::thorough ? 2000000 : 150000); }
    // long runs: counters far beyond the targets, every printed line well-formed
    World::numIds = 3;
    for (int target : {0, 1, 2, 3, 7, 1000}) for (int rej : {0, 1, 999, 12345}) for (int ids : {1, 3})
    {
        if (!vf::begin(vf::cat("long:target=", target, ",rejected=", rej, ",ids=", ids))) continue;
        World w;
        for (int i = 0; i < ids; ++i) { w.s.setTargetCount(Id(IDS[i]), target); w.target[IDS[i]] = target; }
        for (int i = 0; i < rej; ++i) { w.s.increaseRejectedCounter(); w.rejected++; }
        for (int n = 0; n <= 3000; ++n)
        {
            if (n < 40 || n % 97 == 0 || n > 2990)
            {
                auto keep = vf::curKey; vf::curKey = keep; 
                auto d = [&](const std::string& m) { return [=] { return vf::cat(n, " samples: ", m); }; };
                vf::guarded("observer", [&] { w.checkPrint(d); SamplingStatus c(w.s); bool f; { Capture cc; f = c.finished(); } vf::check(f == w.allFinished(), "finished()", d("wrong")); vf::check(long(c.getCount()) == n, "getCount()", d("wrong")); });
            }
            int id = IDS[n % ids]; { Capture cc; w.s.increaseCounter(Id(id)); } w.count[id]++; vf::step();
        }
    }
    return vf::finish();
}
