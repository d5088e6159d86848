// Exploration runtime shared by all harnesses: state accounting, sharding, failure reports, crash/hang capture.
#pragma once
#include <bits/stdc++.h> // a refactored header may rely on whatever its users include
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <cmath>
#include <unistd.h>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <exception>
#include <iostream>
#include <algorithm>

namespace vf {

inline int shard = 0, nshards = 1;
inline bool thorough = false;
inline std::string only, groupOnly;
inline unsigned caseTimeout = 60;
inline char current[4096] = "(start)";
inline std::string curKey;
inline std::unordered_set<std::uint64_t> seen;
inline std::uint64_t nStates = 0, nTransitions = 0, nEvals = 0, nTraces = 0, nSkipped = 0, nFail = 0, nDup = 0;
inline std::map<std::string, std::uint64_t> outcomes;
inline std::vector<std::string> samples;
inline std::map<std::string, std::uint64_t> failsPerClass;

inline std::uint64_t hash(const std::string& s)
{ std::uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }

inline void onSignal(int sig)
{
    char buf[4600];
    int n = std::snprintf(buf, sizeof buf, "\nCRASH\t%s\t%s\n", current, sig == SIGALRM ? "HANG (time limit of one case)" : strsignal(sig));
    if (write(1, buf, n)) {}
    _exit(sig == SIGALRM ? 71 : 70);
}

inline void setCurrent(const std::string& k) { std::strncpy(current, k.c_str(), sizeof(current) - 1); }

inline void init(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--shard") { shard = std::atoi(argv[++i]); nshards = std::atoi(argv[++i]); }
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--only") only = argv[++i];
        else if (a == "--group") groupOnly = argv[++i];
        else if (a == "--case-timeout") caseTimeout = std::atoi(argv[++i]);
    }
    // an alternate stack, so that runaway recursion is reported too
    static char altstack[1 << 16]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM})
    { struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    std::cout.precision(17);
}

//! Enter a state (a configuration / a history). Returns false if it belongs to another shard or was visited before.
inline bool begin(const std::string& key, bool count = true)
{
    const auto h = hash(key);
    if (!only.empty()) { if (key != only) return false; }
    else if (int(h % nshards) != shard) return false;
    if (!seen.insert(h).second) { ++nDup; return false; }
    if (count) { ++nStates; ++nTraces; }
    curKey = key; setCurrent(key);
    if (samples.size() < 4 && (nStates == 1 || nStates == 50 || nStates == 500 || nStates == 5000)) samples.push_back(key);
    alarm(caseTimeout);
    return true;
}

inline void step(std::uint64_t n = 1) { nTransitions += n; }
inline void outcome(const std::string& o) { ++outcomes[o]; }
inline void skip() { ++nSkipped; }

inline std::string clean(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t') c = ' '; return s; }

inline void fail(const std::string& what, const std::string& msg)
{
    ++nFail;
    auto& n = failsPerClass[what];
    if (++n <= 400) std::cout << "FAIL\t" << clean(curKey) << "\t" << clean(what) << "\t" << clean(msg) << std::endl;
}

//! Evaluate the oracle; msg is only built on failure
template<class F>
inline bool check(bool cond, const std::string& what, F&& msg)
{
    ++nEvals;
    if (!cond) { std::string m; if constexpr (std::is_invocable_v<F>) m = msg(); else m = msg; fail(what, m); }
    return cond;
}

//! Run a call of the code under test; an escaping exception is a failure
template<class F>
inline bool guarded(const std::string& what, F&& f)
{
    try { f(); return true; }
    catch (const std::exception& e) { ++nEvals; fail(what, std::string("unexpected exception: ") + e.what()); }
    catch (...) { ++nEvals; fail(what, "unexpected exception (non-std)"); }
    return false;
}

template<class F> inline bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }

inline std::string js(const std::string& s)
{ std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

inline int finish()
{
    alarm(0);
    std::ostringstream o;
    o << "STATS\t{\"states\":" << nStates << ",\"transitions\":" << nTransitions << ",\"evaluations\":" << nEvals
      << ",\"traces\":" << nTraces << ",\"skipped\":" << nSkipped << ",\"fails\":" << nFail << ",\"duplicates\":" << nDup << ",\"outcomes\":{";
    bool first = true;
    for (auto& [k, v] : outcomes) { o << (first ? "" : ",") << js(k) << ":" << v; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << js(s); first = false; }
    o << "]}";
    std::cout << o.str() << std::endl;
    std::fflush(stdout);
    _exit(0); // skip static destruction: not under test
}

template<class... A> inline std::string cat(A&&... a) { std::ostringstream s; s.precision(17); (s << ... << a); return s.str(); }

} // namespace vf
