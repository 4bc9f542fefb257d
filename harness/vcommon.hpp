// Shared infrastructure of the runtime monitors: random source, progress
// journal (so that a crash can be attributed to a case), violation reporting
// and coverage statistics. Everything is a function of (mode, seed, case index)
// so that a case can be replayed exactly.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace v {

typedef __int128 i128;
typedef unsigned __int128 u128;

inline std::uint64_t mix64(std::uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline std::uint64_t hash_str(const char *s) {
    std::uint64_t h = 1469598103934665603ull;
    while(*s) h = (h ^ static_cast<unsigned char>(*s++)) * 1099511628211ull;
    return h;
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31); }
    // inclusive range
    std::int64_t range(std::int64_t lo,std::int64_t hi) {
        if(hi <= lo) return lo;
        std::uint64_t n = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1;
        if(n == 0) return static_cast<std::int64_t>(next());
        return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) + next() % n);
    }
    bool chance(int num,int den) { return static_cast<int>(next() % static_cast<std::uint64_t>(den)) < num; }
    double real() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// thrown by POLY_OPS_ASSERT in monitored builds
struct AssertFail {
    const char *expr; const char *file; int line;
};
struct IterLimit {};

// violation raised by an oracle inside a case
struct Viol {
    std::string key;    // stable classification (used to match known findings)
    std::string detail; // witness
};

struct Progress { volatile std::uint64_t case_i; volatile std::uint64_t phase; };

struct Args {
    std::string mode;
    std::string prop;
    std::uint64_t seed = 1;
    std::uint64_t cases = 100;
    unsigned shard = 0, nshards = 1;
    std::int64_t only = -1;
    bool dump = false;
    bool thorough = false;
    std::string progress;
    std::map<std::string,std::string> extra;
    std::string get(const std::string &k,const std::string &d="") const {
        auto i = extra.find(k); return i == extra.end() ? d : i->second;
    }
};

inline Args parse_args(int argc,char **argv) {
    Args a;
    for(int i=1;i<argc;++i) {
        std::string s = argv[i];
        auto eq = s.find('=');
        std::string k = s.substr(0,eq), val = eq == std::string::npos ? "" : s.substr(eq+1);
        if(k == "--mode") a.mode = val;
        else if(k == "--prop") a.prop = val;
        else if(k == "--seed") a.seed = std::strtoull(val.c_str(),nullptr,10);
        else if(k == "--cases") a.cases = std::strtoull(val.c_str(),nullptr,10);
        else if(k == "--shard") a.shard = static_cast<unsigned>(std::strtoul(val.c_str(),nullptr,10));
        else if(k == "--nshards") a.nshards = static_cast<unsigned>(std::strtoul(val.c_str(),nullptr,10));
        else if(k == "--only") a.only = std::strtoll(val.c_str(),nullptr,10);
        else if(k == "--progress") a.progress = val;
        else if(k == "--dump") a.dump = true;
        else if(k == "--thorough") a.thorough = true;
        else a.extra[k] = val;
    }
    return a;
}

struct Stats {
    std::uint64_t evals = 0;
    std::uint64_t nontrivial = 0;
    std::uint64_t violations = 0;
    std::set<std::uint64_t> sigs;          // signatures of distinct non-trivial cases
    std::map<std::string,std::uint64_t> ctr;
    std::vector<std::string> samples;
    void sig(std::uint64_t s) { ++nontrivial; sigs.insert(s); }
    void sample(const std::string &s) { if(samples.size() < 3) samples.push_back(s); }
};

inline std::string json_escape(const std::string &s) {
    std::string r;
    for(char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(static_cast<unsigned char>(c) < 0x20) r += ' ';
        else r += c;
    }
    return r;
}

inline Stats stats;
inline Progress *progress = nullptr;
inline Args args;
// set by a case whose size makes "too many steps" inconclusive
inline bool iter_inconclusive = false;

inline void open_progress() {
    static Progress dummy;
    progress = &dummy;
    if(args.progress.empty()) return;
    int fd = open(args.progress.c_str(),O_RDWR|O_CREAT,0644);
    if(fd < 0) return;
    if(ftruncate(fd,sizeof(Progress)) != 0) return;
    void *p = mmap(nullptr,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    if(p != MAP_FAILED) progress = static_cast<Progress*>(p);
    progress->case_i = ~0ull;
}

inline void report(std::uint64_t ci,const std::string &key,const std::string &detail) {
    ++stats.violations;
    std::printf("VIOL {\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n",
        static_cast<unsigned long long>(ci),json_escape(key).c_str(),json_escape(detail.substr(0,6000)).c_str());
    std::fflush(stdout);
}

inline void print_stats() {
    std::string s = "STATS {\"evals\":" + std::to_string(stats.evals)
        + ",\"nontrivial\":" + std::to_string(stats.nontrivial)
        + ",\"violations\":" + std::to_string(stats.violations) + ",\"ctr\":{";
    bool first = true;
    for(auto &[k,n] : stats.ctr) {
        if(!first) s += ",";
        first = false;
        s += "\"" + json_escape(k) + "\":" + std::to_string(n);
    }
    s += "},\"samples\":[";
    first = true;
    for(auto &x : stats.samples) {
        if(!first) s += ",";
        first = false;
        s += "\"" + json_escape(x.substr(0,1500)) + "\"";
    }
    s += "],\"sigs\":[";
    first = true;
    for(auto x : stats.sigs) {
        if(!first) s += ",";
        first = false;
        char b[20]; std::snprintf(b,sizeof b,"\"%llx\"",static_cast<unsigned long long>(x));
        s += b;
    }
    s += "]}";
    std::puts(s.c_str());
    std::fflush(stdout);
}

using CaseFn = std::function<void(Rng&,std::uint64_t)>;

// Runs the cases of one shard. A case fails by throwing; the same case can be
// re-run alone with --only.
inline int run_cases(const CaseFn &fn,const std::function<std::string()> &witness) {
    open_progress();
    std::uint64_t lo = args.shard, step = args.nshards, hi = args.cases;
    if(args.only >= 0) { lo = static_cast<std::uint64_t>(args.only); step = 1; hi = lo + 1; }
    for(std::uint64_t i=lo;i<hi;i+=step) {
        progress->case_i = i;
        Rng rng(mix64(args.seed * 0x100000001B3ull + i) ^ hash_str(args.mode.c_str()));
        ++stats.evals;
        iter_inconclusive = false;
        try {
            fn(rng,i);
        } catch(const Viol &x) {
            report(i,x.key,x.detail + " || " + witness());
        } catch(const AssertFail &x) {
            report(i,std::string("internal-check: ") + x.expr,std::string("internal consistency check failed at ")
                + x.file + ":" + std::to_string(x.line) + " || " + witness());
        } catch(const IterLimit&) {
            if(iter_inconclusive) { stats.ctr["inconclusive_iteration_bound"]++; continue; }
            report(i,"no-termination","sweep exceeded the iteration bound || " + witness());
        } catch(const std::exception &x) {
            report(i,std::string("exception: ") + x.what(),std::string("unexpected exception || ") + witness());
        }
        if(args.only >= 0 || args.dump) { std::printf("CASE %llu %s\n",static_cast<unsigned long long>(i),witness().c_str()); }
        if(stats.violations >= 25) break;
    }
    progress->phase = 1;
    print_stats();
    return 0;
}

} // namespace v
