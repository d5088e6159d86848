// Exhaustive exploration of all operation histories up to a depth (no state merging), and breadth-first
// exploration with merging of equal model states for greater depths.
#pragma once
#include "vf.hh"
#include <deque>
#include <set>
namespace vf {

//! A history is written as a string of operation letters; key = tag + ":" + letters
template<class World> // World: copyable, bool apply(int op) (false: not enabled), void observe(), static int numOps()
struct Histories
{
    std::string tag; int maxDepth; std::string path; std::uint64_t counter = 0;
    static char letter(int op) { return op < 26 ? char('a' + op) : op < 52 ? char('A' + op - 26) : char('0' + op - 52); }
    static int opOf(char c) { return c >= 'a' ? c - 'a' : c >= 'A' ? c - 'A' + 26 : c - '0' + 52; }
    void visit(World& w)
    {
        curKey = tag + ":" + path; setCurrent(curKey);
        ++nStates; ++nTraces;
        if (samples.size() < 4 && (nStates == 100 || nStates == 10000 || nStates == 100000)) samples.push_back(curKey + " = " + World::describe(path));
        w.observe();
    }
    void rec(const World& w)
    {
        if ((int)path.size() >= maxDepth) return;
        for (int op = 0; op < World::numOps(); ++op)
        {
            World next(w);
            path.push_back(letter(op));
            // shards split the tree at depth 2 (depth-1 nodes are visited by shard 0 only)
            bool mine = true;
            if (path.size() == 2) mine = int(counter++ % nshards) == shard;
            if (mine)
            {
                curKey = tag + ":" + path; setCurrent(curKey);
                if (next.apply(op))
                {
                    if (path.size() >= 2 || shard == 0) { ++nTransitions; if (path.size() <= 3) alarm(caseTimeout); visit(next); }
                    rec(next);
                }
            }
            path.pop_back();
        }
    }
    //! complete tree up to depth
    void run(const World& init)
    {
        if (!only.empty())
        {
            if (only.rfind(tag + ":", 0) != 0) return;
            World w(init); path.clear();
            for (char c : only.substr(tag.size() + 1))
            { path.push_back(c); curKey = only; setCurrent(only); ++nTransitions; if (!w.apply(opOf(c))) return; }
            visit(w); return;
        }
        World w(init); path.clear();
        if (shard == 0) visit(w);
        counter = 0;
        rec(w);
    }
    //! breadth-first with merging of equal canonical states (World::canon()); World objects are kept per state
    void bfs(const World& init, int depth, std::size_t cap)
    {
        if (!only.empty()) { run(init); return; }
        if (shard != 0) return; // one shard; the others work on the trees
        std::unordered_set<std::string> known;
        struct Item { World w; std::string p; };
        std::deque<Item> q; q.push_back({init, ""}); known.insert(World(init).canon());
        std::size_t maxd = 0; bool capped = false;
        while (!q.empty())
        {
            Item it = std::move(q.front()); q.pop_front();
            if ((int)it.p.size() >= depth) continue;
            for (int op = 0; op < World::numOps(); ++op)
            {
                World next(it.w); path = it.p + letter(op);
                curKey = tag + ":" + path; setCurrent(curKey); alarm(caseTimeout);
                if (!next.apply(op)) continue;
                ++nTransitions;
                { World o(next); o.observe(); ++nEvals; ++nTraces; }
                if (!known.insert(next.canon()).second) { ++nDup; continue; }
                ++nStates; maxd = std::max(maxd, path.size());
                if (known.size() < cap) q.push_back({std::move(next), path}); else capped = true;
            }
        }
        outcome(cat("bfs ", tag, " max depth ", maxd, capped ? " (state cap hit)" : " (closed or depth bound)"));
    }
};
} // namespace vf
