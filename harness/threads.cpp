// Operations depend on their input only.
//
// det      the same operation with memory from different places and with
//          different contents, in another thread, after other operations and in
//          another process gives the same result, point for point
// threads  threads that work on objects of their own at the same time, with
//          shared constant input and shared results that are only read, do not
//          influence each other (and, under ThreadSanitizer, do not race)
#define VERIF_ASSERTS
#include "geom.hpp"
namespace v { inline thread_local std::uint64_t iter_count = 0; inline std::uint64_t iter_limit = 3000000; }
#define POLY_OPS_DEBUG_ITERATION { if(++v::iter_count > v::iter_limit) throw v::IterLimit{}; }
#define POLY_OPS_ASSERT(X) do { if(!(X)) throw v::AssertFail{#X,"poly_ops",__LINE__}; } while(0)
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
#include <poly_ops/polydraw.hpp>
#include <atomic>
#include <barrier>
#include <thread>
#include <memory_resource>
#include <sys/wait.h>
#include <csignal>

using namespace v;
namespace po = poly_ops;
using po::bool_op; using po::bool_set; using po::point_t;

static std::string cur;
static std::string witness() { return cur; }
static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};

template<typename C> using Loops_t = std::vector<std::vector<point_t<C>>>;
template<typename C> Loops_t<C> pts(const Loops &ls) {
    Loops_t<C> r;
    for(auto &l : ls) { r.emplace_back(); for(auto &p : l) r.back().push_back({static_cast<C>(p.x),static_cast<C>(p.y)}); }
    return r;
}
template<typename R> void put(std::string &o,R &&range) {
    for(auto &&l : range) {
        o += "[";
        for(auto &&p : l) {
            if constexpr(requires { p.original_points; }) { o += std::to_string(p.p[0]) + "," + std::to_string(p.p[1]) + "{"; for(auto x : p.original_points) o += std::to_string(x) + " "; o += "} "; }
            else o += std::to_string(p[0]) + "," + std::to_string(p[1]) + " ";
        }
        if constexpr(requires { l.inner_loops(); }) put(o,l.inner_loops());
        o += "]";
    }
}
struct Job { int what = 0, type = 0; bool_op op = bool_op::union_; double mag = 0; int step = 1; bool closed = true, tree = false; };
template<typename C,typename I> std::string run_t(const Loops_t<C> &s,const Loops_t<C> &c,const Job &j,std::pmr::memory_resource *m) {
    iter_count = 0;
    std::string o;
    switch(j.what) {
    case 0: if(j.tree) put(o,po::boolean_op<true,C,I>(s,c,j.op,m)); else put(o,po::boolean_op<false,C,I>(s,c,j.op,m)); break;
    case 1: if(j.tree) put(o,po::boolean_op<true,C,I>(s,c,j.op,po::origin_point_tracker<I>{m},m)); else put(o,po::boolean_op<false,C,I>(s,c,j.op,po::origin_point_tracker<I>{m},m)); break;
    case 2: if(j.tree) put(o,po::offset<true,C,I>(s,j.mag,C(j.step),j.closed,m)); else put(o,po::offset<false,C,I>(s,j.mag,C(j.step),j.closed,m)); break;
    case 3: put(o,po::offset<false,C,I>(s,j.mag,C(j.step),po::origin_point_tracker<I>{m},j.closed,m)); break;
    case 4: { po::clipper<C,I> cl(m); cl.add_loops_subject(s); cl.add_loops_clip(c); put(o,cl.template execute<false>(j.op)); cl.add_loops_clip(c); put(o,cl.template execute<true>(bool_op::union_)); } break;
    default: { po::draw::rasterizer<C> ra; ra.add_loops(s); auto st = ra.scan_lines(200u,200u); po::draw::scan_line sc; while(st(ra,sc)) o += std::to_string(sc.y) + ":" + std::to_string(sc.x1) + "-" + std::to_string(sc.x2) + "*" + std::to_string(sc.winding) + " "; }
    }
    return o;
}
static std::string run(const Input &in,const Job &j,std::pmr::memory_resource *m) {
    switch(j.type) {
    case 0: return run_t<std::int32_t,std::size_t>(pts<std::int32_t>(in.s),pts<std::int32_t>(in.c),j,m);
    case 1: return run_t<std::int64_t,std::size_t>(pts<std::int64_t>(in.s),pts<std::int64_t>(in.c),j,m);
    default: return run_t<std::int32_t,std::uint32_t>(pts<std::int32_t>(in.s),pts<std::int32_t>(in.c),j,m);
    }
}
static void draw_case(Rng &r,Input &in,Job &j,int most = 2) {
    in = r.chance(1,3) ? gen_lattice(r,int(r.range(0,1))) : gen_general(r,r.chance(1,2) ? r.range(8,400) : (std::int64_t(1) << 19),int(r.range(0,most)));
    j.what = int(r.range(0,5)); j.type = int(r.range(0,2)); j.op = ops[r.range(0,4)]; j.tree = r.chance(1,3); j.closed = r.chance(2,3);
    j.mag = (r.chance(1,3) ? -1 : 1) * (double(r.range(0,20)) + r.real()); j.step = int(r.range(1,30));
    if(j.what == 5) for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) { p.x %= 300; p.y %= 300; }
}
static std::string describe(const Input &in,const Job &j) {
    static const char *wn[] = {"operation","tracked operation","offset","tracked offset","two operations","raster"};
    return std::string(wn[j.what]) + " type " + std::to_string(j.type) + " " + std::vector<const char*>{"union","intersection","xor","difference","normalize"}[static_cast<std::size_t>(j.op)] + (j.tree ? " tree" : "") + (j.closed ? "" : " open") + " magnitude " + std::to_string(j.mag) + " step " + std::to_string(j.step) + " " + in.str();
}

// an arena that hands out blocks in a chosen order and with chosen contents, and
// scribbles over what is given back
struct Arena : std::pmr::memory_resource {
    std::vector<char> buf; std::size_t lo = 0, hi; bool down; Rng r; int fill;
    Arena(std::size_t n,bool down,std::uint64_t seed,int fill) : buf(n), hi(n), down(down), r(seed), fill(fill) {}
    void paint(void *p,std::size_t n) { auto q = static_cast<unsigned char*>(p); if(fill >= 0) std::memset(q,fill,n); else for(std::size_t i=0;i<n;++i) q[i] = static_cast<unsigned char>(r.next()); }
    void *do_allocate(std::size_t n,std::size_t a) override {
        std::size_t pad = std::size_t(r.range(0,5))*16; char *p = nullptr;
        if(down) { if(hi < lo + n + pad + 2*a) throw std::bad_alloc(); hi -= n + pad; hi -= reinterpret_cast<std::uintptr_t>(buf.data()+hi) % a; p = buf.data()+hi; }
        else { lo += pad; lo += (a - reinterpret_cast<std::uintptr_t>(buf.data()+lo) % a) % a; if(lo + n > hi) throw std::bad_alloc(); p = buf.data()+lo; lo += n; }
        paint(p,n); return p;
    }
    void do_deallocate(void *p,std::size_t n,std::size_t) override { paint(p,n); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
// heap memory with chosen contents
struct Heap : std::pmr::memory_resource {
    int fill; explicit Heap(int fill) : fill(fill) {}
    void *do_allocate(std::size_t n,std::size_t a) override { void *p = ::operator new(n,std::align_val_t(a)); std::memset(p,fill,n); return p; }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override { std::memset(p,fill,n); ::operator delete(p,std::align_val_t(a)); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

static std::vector<std::pair<std::uint64_t,std::uint64_t>> digests; // of this process
static void mode_det(Rng &r,std::uint64_t i) {
    Input in; Job j; draw_case(r,in,j);
    cur = describe(in,j);
    static const bool only_digest = std::getenv("VERIF_DIGEST") != nullptr;
    iter_inconclusive = true;
    std::string a = run(in,j,nullptr);
    if(only_digest) { std::printf("DIG %llu %llu\n",(unsigned long long)i,(unsigned long long)hash_str(a.c_str())); return; }
    digests.push_back({i,hash_str(a.c_str())});
    auto same = [&](const std::string &b,const char *how) { if(a != b) throw Viol{std::string("different result: ") + how,std::string("the result ") + how + " is " + b.substr(0,1500) + " instead of " + a.substr(0,1500)}; stats.ctr[std::string("repeated ") + how]++; };
    same(run(in,j,nullptr),"when repeated");
    try { Arena m(6u<<20,r.chance(1,2),r.next(),r.chance(1,2) ? -1 : int(r.range(0,255))); same(run(in,j,&m),"with an arena"); } catch(const std::bad_alloc&) { stats.ctr["arena_too_small"]++; }
    { Heap m(r.chance(1,2) ? 0xFF : int(r.range(1,254))); same(run(in,j,&m),"with painted heap memory"); }
    { // other work before, in the same thread and with the same resource
        std::pmr::unsynchronized_pool_resource pool; Input in2; Job j2; draw_case(r,in2,j2,1);
        try { run(in2,j2,&pool); } catch(const IterLimit&) {}
        same(run(in,j,&pool),"after other work"); }
    if(r.chance(1,4)) { std::string b; std::exception_ptr e; std::thread th([&] { try { b = run(in,j,nullptr); } catch(...) { e = std::current_exception(); } }); th.join(); if(e) std::rethrow_exception(e); same(b,"in another thread"); }
    if(!a.empty()) { stats.sig(hash_str(cur.c_str())); stats.sample(cur.substr(0,900)); }
}

static void mode_threads(Rng &r,std::uint64_t) {
    const int T = 4;
    Input in[T]; Job j[T]; std::string want[T], got[T]; std::exception_ptr err[T];
    Input shared; Job js; draw_case(r,shared,js,1); js.what = 1; js.type = 0;
    bool all_shared = r.chance(1,2);
    cur = "";
    for(int t=0;t<T;++t) { draw_case(r,in[t],j[t],1); if(all_shared) in[t] = shared; cur += "thread " + std::to_string(t) + ": " + describe(in[t],j[t]) + "\n"; }
    iter_inconclusive = true;
    const auto s = pts<std::int32_t>(shared.s), c = pts<std::int32_t>(shared.c);
    auto task = [&](int t) { return all_shared ? run_t<std::int32_t,std::size_t>(s,c,j[t],nullptr) : run(in[t],j[t],nullptr); };
    for(int t=0;t<T;++t) want[t] = task(t);
    // a result that all threads read
    iter_count = 0;
    const auto kept = po::boolean_op<true,std::int32_t>(s,c,js.op,po::origin_point_tracker<std::size_t>{});
    const auto flat = po::boolean_op<false,std::int32_t>(s,c,js.op);
    std::string kept_want; put(kept_want,kept); put(kept_want,flat);
    std::string kept_got[T];
    std::barrier gate(T);
    std::vector<std::thread> th;
    std::uint64_t seed = r.next();
    for(int t=0;t<T;++t) th.emplace_back([&,t] {
        Rng q(seed + std::uint64_t(t));
        gate.arrive_and_wait();
        for(int k=0;k<3;++k) {
            if(q.chance(1,3)) std::this_thread::yield();
            try { std::string g = task(t); if(k == 0 || g != want[t]) got[t] = g; } catch(...) { err[t] = std::current_exception(); }
            std::string o; put(o,kept); put(o,flat); if(k == 0 || o != kept_want) kept_got[t] = o;
        }
    });
    for(auto &x : th) x.join();
    for(int t=0;t<T;++t) {
        if(err[t]) std::rethrow_exception(err[t]);
        if(got[t] != want[t]) throw Viol{"threads disturb each other","thread " + std::to_string(t) + " got " + got[t].substr(0,1000) + " instead of " + want[t].substr(0,1000)};
        if(kept_got[t] != kept_want) throw Viol{"shared result","thread " + std::to_string(t) + " read " + kept_got[t].substr(0,1000) + " from a result instead of " + kept_want.substr(0,1000)};
        stats.ctr["concurrent_operations"] += 3;
        if(!want[t].empty()) stats.ctr["concurrent_results_nonempty"]++;
    }
    if(all_shared) stats.ctr["shared_input_cases"]++;
    stats.sig(hash_str(cur.c_str())); stats.sample(cur.substr(0,900));
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    if(args.mode == "threads") return run_cases(mode_threads,witness);
    if(std::getenv("VERIF_DIGEST")) return run_cases(mode_det,witness);
    // the same cases in another process, at other addresses
    int fd[2]; if(pipe(fd)) return 3;
    std::vector<std::string> av(argv,argv+argc); for(auto &x : av) { if(x.rfind("--progress=",0) == 0) x = "--progress="; }
    pid_t child = fork();
    if(child == 0) {
        dup2(fd[1],1); close(fd[0]); close(fd[1]);
        setenv("VERIF_DIGEST","1",1); setenv("MALLOC_PERTURB_","173",1); setenv("MALLOC_TOP_PAD_","777777",1); setenv("VERIF_PADDING",std::string(std::size_t(1000 + args.seed % 5000),'x').c_str(),1);
        std::vector<char*> cv; for(auto &x : av) cv.push_back(x.data()); cv.push_back(nullptr);
        execv("/proc/self/exe",cv.data()); _exit(9);
    }
    close(fd[1]);
    std::string text; std::thread reader([&] { char b[65536]; ssize_t n; while((n = read(fd[0],b,sizeof b)) > 0) text.append(b,std::size_t(n)); });
    int rc = 0;
    // statistics are printed at the end of run_cases; the comparison is added to them
    static std::map<std::uint64_t,std::uint64_t> other;
    bool compared = false;
    std::uint64_t last = ~0ull; { std::uint64_t lo = args.shard, step = args.nshards, hi = args.cases; if(args.only >= 0) { lo = std::uint64_t(args.only); hi = lo + 1; step = 1; } for(auto i=lo;i<hi;i+=step) last = i; }
    rc = run_cases([&](Rng &r,std::uint64_t i) {
        mode_det(r,i);
        if(i != last) return;
        reader.join(); compared = true; int st; waitpid(child,&st,0);
        std::istringstream is(text); std::string line;
        while(std::getline(is,line)) { unsigned long long a,b; if(std::sscanf(line.c_str(),"DIG %llu %llu",&a,&b) == 2) other[a] = b; }
        for(auto &[k,h] : digests) { auto o = other.find(k); if(o == other.end()) continue; stats.ctr["repeated in another process"]++; if(o->second != h) throw Viol{"different result: in another process","case " + std::to_string(k) + " gives a different result in another process (replay with --only=" + std::to_string(k) + ")"}; }
    },witness);
    if(!compared) { kill(child,9); reader.join(); int st; waitpid(child,&st,0); }
    return rc;
}
