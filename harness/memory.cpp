// Where memory comes from, and what happens when there is none, or when the
// user's own code throws in the middle of a call.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#include <forward_list>
#include <memory_resource>
#include <new>
#include <execinfo.h>
#include <dlfcn.h>
using namespace v;
using poly_ops::bool_op;
using poly_ops::bool_set;

// --- global heap -----------------------------------------------------------
static bool watch = false;
static std::uint64_t heap_calls = 0;
static void *global_new(std::size_t n,std::size_t al) {
    if(watch) ++heap_calls;
    void *p = al > 16 ? std::aligned_alloc(al,(n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new(std::size_t n) { return global_new(n,16); }
void *operator new[](std::size_t n) { return global_new(n,16); }
void *operator new(std::size_t n,std::align_val_t a) { return global_new(n,std::size_t(a)); }
void *operator new[](std::size_t n,std::align_val_t a) { return global_new(n,std::size_t(a)); }
// standard algorithms may ask for optional buffers this way
void *operator new(std::size_t n,const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void *operator new[](std::size_t n,const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p,std::size_t) noexcept { std::free(p); }
void operator delete[](void *p,std::size_t) noexcept { std::free(p); }
void operator delete(void *p,std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p,std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p,std::size_t,std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p,std::size_t,std::align_val_t) noexcept { std::free(p); }

struct Off { bool old; Off() : old(watch) { watch = false; } ~Off() { watch = old; } };
struct On { bool old; On() : old(watch) { watch = true; } ~On() { watch = old; } };

// libstdc++'s pool resource crashes by itself when its upstream fails (it
// swallows the exception), so the blocks it asks for never fail
static bool called_by_pool() {
    void *fr[24];
    int n = backtrace(fr,24);
    for(int i=0;i<n;++i) {
        Dl_info d;
        if(dladdr(fr[i],&d) && d.dli_sname && std::strstr(d.dli_sname,"pool_resource")) return true;
    }
    return false;
}
// --- memory resource that knows everything it handed out ---------------------
struct Tracked : std::pmr::memory_resource {
    const char *name;
    struct Block { std::size_t n, al; };
    std::map<void*,Block> live;
    std::uint64_t allocs = 0, frees = 0, bytes = 0, fail_from = 0, fail_to = 0, failed = 0; // calls fail_from..fail_to fail
    std::string bad;
    explicit Tracked(const char *n) : name(n) {}
    void *do_allocate(std::size_t n,std::size_t al) override {
        Off off;
        ++allocs;
        if(allocs >= fail_from && allocs <= fail_to && !called_by_pool()) { ++failed; throw std::bad_alloc(); }
        bytes += n;
        if(al == 0 || (al & (al-1))) bad = "alignment " + std::to_string(al) + " requested";
        std::size_t a = std::max<std::size_t>(al,16);
        void *p = std::aligned_alloc(a,(n + 32 + a - 1) / a * a);
        std::memset(p,0xC7,n + 32);
        live[p] = {n,al};
        return p;
    }
    void do_deallocate(void *p,std::size_t n,std::size_t al) override {
        Off off;
        ++frees;
        auto i = live.find(p);
        if(i == live.end()) { bad = "a block is given back that did not come from this memory resource (or was given back before)"; return; }
        if(i->second.n != n || i->second.al != al) bad = "a block of " + std::to_string(i->second.n) + " bytes aligned to " + std::to_string(i->second.al) + " is given back as " + std::to_string(n) + " bytes aligned to " + std::to_string(al);
        for(std::size_t k=0;k<32;++k) if(static_cast<unsigned char*>(p)[n+k] != 0xC7) bad = "memory behind a block of " + std::to_string(n) + " bytes was overwritten";
        std::memset(p,0xDD,n);
        std::free(p);
        live.erase(i);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
    void check(bool empty) {
        if(!bad.empty()) throw Viol{"memory-misuse",std::string(name) + ": " + bad};
        if(empty && !live.empty()) throw Viol{"leak",std::string(name) + ": " + std::to_string(live.size()) + " of " + std::to_string(allocs) + " blocks were never given back, the first has " + std::to_string(live.begin()->second.n) + " bytes"};
    }
};

// --- user code that throws ---------------------------------------------------
struct UserError { int code; };
static std::uint64_t user_calls, user_fail_at;
static void user_call() { if(++user_calls == user_fail_at) throw UserError{int(user_fail_at)}; }
template<typename T> struct ThrowingRange {
    const std::vector<T> *src;
    struct iter {
        using iterator_concept = std::bidirectional_iterator_tag; using iterator_category = std::bidirectional_iterator_tag;
        using value_type = T; using difference_type = std::ptrdiff_t; using reference = T; using pointer = void;
        const T *p = nullptr;
        T operator*() const { user_call(); return *p; }
        iter &operator++() { ++p; return *this; }
        iter operator++(int) { auto r = *this; ++p; return r; }
        iter &operator--() { --p; return *this; }
        iter operator--(int) { auto r = *this; --p; return r; }
        bool operator==(const iter&) const = default;
    };
    iter begin() const { return {src->data()}; }
    iter end() const { return {src->data() + src->size()}; }
};
template<typename I> struct ThrowingTracker final : poly_ops::i_point_tracker<I> {
    std::uint64_t points = 0;
    void new_point_between(I,I) override { user_call(); ++points; }
    void point_merge(I,I) override { user_call(); }
    void point_added(I) override { user_call(); ++points; }
    void reset() override { points = 0; }
};

static Input cur;
static std::string note;
static std::string witness() { return note + " family=" + cur.family + " " + cur.str(); }
static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};

static const char *ways[] = {"clipper","expiring clipper","point sink","tracked clipper","expiring tracked clipper","boolean_op","tracked boolean_op","union_op","tracked union_op",
    "normalize_op","tracked normalize_op","offset","open offset","tracked offset","offset of a forward list","clipper used twice","throwing range","throwing tracker","offset of a throwing range"};
constexpr int N_WAYS = 16, N_USER_WAYS = 3;
struct Sc { int way; bool tree; bool_op op; double mag; int step; };

// read a result without any further memory, then once more to keep it
template<bool Tree,typename R> void read(R &&r,Loops &o) {
    std::uint64_t n = 0;
    auto walk = [&](auto &self,auto &&rr) -> void {
        for(auto &&l : rr) {
            for(auto &&p : l) { (void)p; ++n; }
            if constexpr(Tree) self(self,l.inner_loops());
        }
    };
    walk(walk,r);
    Off off;
    if constexpr(Tree) { auto t = tree_of(r); flatten(t,o); } else o = loops_of(r);
    std::size_t m = 0; for(auto &l : o) m += l.size();
    if(m != n) throw Viol{"unstable-result","a result has " + std::to_string(n) + " points when read first and " + std::to_string(m) + " when read again"};
}

// One use of the library with every byte from `mr`. When it fails and there is
// an object left, `again` is called with a function that resets and repeats.
template<typename C,typename I,bool Tree> struct Use {
    using PT = poly_ops::point_t<C>;
    using Pts = std::vector<std::vector<PT>>;
    const Pts &s, &c; const Sc &sc; std::pmr::memory_resource *mr;
    const std::function<void()> &calm; // called when a failure has reached us, before trying again

    template<typename Clip,typename F> Loops attempt(Clip &cl,F &&f) {
        Loops o;
        try { f(o); return o; }
        catch(const std::bad_alloc&) {} catch(const UserError&) {}
        { Off off; calm(); }
        cl.reset();
        o.clear();
        f(o);
        return o;
    }
    template<typename Clip> void fill(Clip &cl) { cl.add_loops(s,bool_set::subject); cl.add_loops(c,bool_set::clip); }
    template<typename Clip> void run(Clip &cl,Loops &o) { read<Tree>(cl.template execute<Tree>(sc.op),o); }
    Loops go() {
        On on;
        using OT = poly_ops::origin_point_tracker<I>;
        Loops o;
        switch(sc.way) {
        case 0: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) { fill(cl); run(cl,o); }); }
        case 1: { auto make = [&] { poly_ops::clipper<C,I> cl(mr); fill(cl); return std::move(cl).template execute<Tree>(sc.op); }; auto r = make(); read<Tree>(r,o); return o; }
        case 2: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) {
            for(auto *ls : {&s,&c}) for(auto &l : *ls) { auto sink = cl.add_loop(ls == &s ? bool_set::subject : bool_set::clip); for(auto &p : l) sink(p); }
            run(cl,o); }); }
        case 3: { poly_ops::origin_tracked_clipper<C,I> cl(OT(mr),mr); return attempt(cl,[&](Loops &o) { fill(cl); run(cl,o); }); }
        case 4: { auto make = [&] { poly_ops::origin_tracked_clipper<C,I> cl(OT(mr),mr); fill(cl); return std::move(cl).template execute<Tree>(sc.op); }; auto r = make(); read<Tree>(r,o); return o; }
        case 5: { auto r = poly_ops::boolean_op<Tree,C,I>(s,c,sc.op,mr); read<Tree>(r,o); return o; }
        case 6: { auto r = poly_ops::boolean_op<Tree,C,I>(s,c,sc.op,OT(mr),mr); read<Tree>(r,o); return o; }
        case 7: { auto r = poly_ops::union_op<Tree,C,I>(s,mr); read<Tree>(r,o); return o; }
        case 8: { auto r = poly_ops::union_op<Tree,C,I>(s,OT(mr),mr); read<Tree>(r,o); return o; }
        case 9: { auto r = poly_ops::normalize_op<Tree,C,I>(s,mr); read<Tree>(r,o); return o; }
        case 10: { auto r = poly_ops::normalize_op<Tree,C,I>(s,OT(mr),mr); read<Tree>(r,o); return o; }
        case 11: { auto r = poly_ops::offset<Tree,C,I>(s,sc.mag,C(sc.step),true,mr); read<Tree>(r,o); return o; }
        case 12: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) { poly_ops::add_offset_subject(cl,s,sc.mag,C(sc.step),false); poly_ops::add_offset_clip(cl,c,sc.mag,C(sc.step),true); run(cl,o); }); }
        case 13: { auto r = poly_ops::offset<Tree,C,I>(s,sc.mag,C(sc.step),OT(mr),true,mr); read<Tree>(r,o); return o; }
        case 14: { poly_ops::clipper<C,I> cl(mr);
            std::forward_list<std::forward_list<PT>> fl; { Off off; for(auto &l : s) { fl.emplace_front(l.begin(),l.end()); } }
            return attempt(cl,[&](Loops &o) { for(auto &l : fl) poly_ops::add_offset(cl,l,bool_set::subject,sc.mag,C(sc.step),false); run(cl,o); }); }
        case 15: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) { fill(cl); { Loops t; run(cl,t); Off off; } fill(cl); { auto r = cl.template execute<true>(bool_op::xor_); (void)r; } o.clear(); fill(cl); run(cl,o); }); }
        case 16: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) {
            for(auto *ls : {&s,&c}) for(auto &l : *ls) cl.add_loops(ThrowingRange<PT>{&l},ls == &s ? bool_set::subject : bool_set::clip);
            run(cl,o); }); }
        case 17: { poly_ops::clipper<C,I> cl(mr); struct TT { ThrowingTracker<I> t; ThrowingTracker<I> *callbacks() { return &t; } void reset() { t.reset(); } PT get_value(I,const PT &p) const { return p; } };
            TT t; return attempt(cl,[&](Loops &o) { t.reset(); cl.add_loops(s,bool_set::subject,&t.t); cl.add_loops(c,bool_set::clip,&t.t); read<Tree>(cl.template execute<Tree,TT&>(sc.op,t),o); }); }
        case 18: { poly_ops::clipper<C,I> cl(mr); return attempt(cl,[&](Loops &o) {
            bool closed = false;
            for(auto *ls : {&s,&c}) for(auto &l : *ls) { closed = !closed; poly_ops::add_offset(cl,ThrowingRange<PT>{&l},ls == &s ? bool_set::subject : bool_set::clip,sc.mag,C(sc.step),closed); }
            run(cl,o); }); }
        }
        return o;
    }
};
template<typename C,typename I> Loops use(const Input &in,const Sc &sc,std::pmr::memory_resource *mr,const std::function<void()> &calm) {
    iter_count = 0;
    auto s = to_pts<C>(in.s), c = to_pts<C>(in.c);
    if(sc.tree) return Use<C,I,true>{s,c,sc,mr,calm}.go();
    return Use<C,I,false>{s,c,sc,mr,calm}.go();
}
static Loops use_cfg(int cfg,const Input &in,const Sc &sc,std::pmr::memory_resource *mr,const std::function<void()> &calm = [] {}) {
    switch(cfg) {
    case 0: return use<std::int32_t,std::size_t>(in,sc,mr,calm);
    case 1: return use<std::int64_t,std::uint32_t>(in,sc,mr,calm);
    default: return use<std::int32_t,std::int32_t>(in,sc,mr,calm);
    }
}

static Sc pick(Rng &r,int nways) {
    Sc sc;
    sc.way = int(r.range(0,nways-1));
    sc.tree = r.chance(1,2);
    sc.op = ops[r.range(0,4)];
    sc.mag = double(r.range(4,40)) * (r.chance(1,3) ? -1 : 1);
    sc.step = int(r.range(2,30));
    return sc;
}
static bool is_offset(const Sc &sc) { return (sc.way >= 11 && sc.way <= 14) || sc.way == 18; }
static void pick_input(Rng &r,const Sc &sc,bool small) {
    int k = small ? 0 : r.chance(9,10) ? int(r.range(0,1)) : 2;
    if(is_offset(sc)) { cur = gen_general(r,200,0); if(cur.c.size() > 3) cur.c.resize(3); if(cur.s.size() > 3) cur.s.resize(3); }
    else cur = gen_lattice(r,k);
}
// what the result must be: exactly on lattices, in winding numbers otherwise
static void same(Rng &r,const Sc &sc,const Loops &got,const Loops &want,const char *when) {
    if(!is_offset(sc)) {
        Canon a = canon(got), b = canon(want);
        if(a != b) throw Viol{"wrong-result",std::string(when) + ": " + str(a) + " instead of " + str(b)};
        return;
    }
    auto eg = edges_of(got), ew = edges_of(want);
    for(int i=0;i<60;++i) {
        P p{r.range(-300*4,300*4),r.range(-300*4,300*4)};
        if(min_dist(eg,p,4) < 16 || min_dist(ew,p,4) < 16) continue;
        if(winding(eg,p,4) != winding(ew,p,4)) throw Viol{"wrong-result",std::string(when) + ": winding differs at " + str(p) + "/4"};
    }
}

struct DefaultResource { std::pmr::memory_resource *old; explicit DefaultResource(std::pmr::memory_resource *m) : old(std::pmr::set_default_resource(m)) {} ~DefaultResource() { std::pmr::set_default_resource(old); } };

// --- all memory comes from the resource, and goes back to it ------------------
static void mode_acct(Rng &r,std::uint64_t) {
    Sc sc = pick(r,N_WAYS);
    pick_input(r,sc,false);
    int cfg = int(r.range(0,2));
    bool use_default = r.chance(1,4);
    note = std::string("way=") + ways[sc.way] + " op=" + op_name(sc.op) + " cfg=" + std::to_string(cfg) + (sc.tree ? " tree" : " flat") + (use_default ? " default resource" : "");
    Tracked mine("the given memory resource"), other("the default memory resource");
    Loops ref = use_cfg(cfg,cur,sc,std::pmr::new_delete_resource());
    Loops got;
    heap_calls = 0;
    {
        DefaultResource d(use_default ? &mine : &other);
        got = use_cfg(cfg,cur,sc,use_default ? nullptr : &mine);
    }
    mine.check(true); other.check(true);
    if(other.allocs) throw Viol{"wrong-resource",std::to_string(other.allocs) + " blocks were taken from the default memory resource although another one was given"};
    if(heap_calls) throw Viol{"global-heap",std::to_string(heap_calls) + " blocks were taken from the global heap although there is a memory resource"};
    if(!ref.empty() && mine.allocs == 0) throw Viol{"resource-unused","the given memory resource was not used at all"};
    same(r,sc,got,ref,"with another memory resource");
    stats.ctr["blocks"] += mine.allocs; stats.ctr["bytes"] += mine.bytes;
    stats.ctr[std::string("way ") + ways[sc.way]]++;
    stats.ctr[use_default ? "default_resource_cases" : "given_resource_cases"]++;
    stats.sig(mix64(sig_of(cur.s,sig_of(cur.c)) + std::uint64_t(sc.way*16 + int(sc.op)*2 + sc.tree)));
    stats.sample(witness());
}

// --- running out of memory, exceptions of user code ----------------------------
static void mode_fault(Rng &r,std::uint64_t) {
    bool user = r.chance(1,4);
    Sc sc = pick(r,N_WAYS);
    if(user) sc.way = N_WAYS + int(r.range(0,N_USER_WAYS-1));
    pick_input(r,sc,r.chance(3,4));
    int cfg = int(r.range(0,2));
    std::string base = std::string("way=") + ways[sc.way] + " op=" + op_name(sc.op) + " cfg=" + std::to_string(cfg) + (sc.tree ? " tree" : " flat");
    note = base;
    Tracked count("the given memory resource"), other("the default memory resource");
    user_calls = 0; user_fail_at = 0;
    Loops ref = use_cfg(cfg,cur,sc,&count);
    count.check(true);
    std::uint64_t total = user ? user_calls : count.allocs;
    std::set<std::uint64_t> at;
    if(total <= 40) for(std::uint64_t k=1;k<=total;++k) at.insert(k);
    else { for(int i=0;i<28;++i) at.insert(1 + r.next() % total); for(int i=0;i<4;++i) { at.insert(1+i); at.insert(total-i); } }
    for(auto k : at) {
        bool forever = r.chance(1,3);
        note = base + (user ? " exception of call " : " no memory for block ") + std::to_string(k) + " of " + std::to_string(total) + (forever && !user ? " and all later ones" : "");
        Tracked mr("the given memory resource");
        if(user) { user_calls = 0; user_fail_at = k; }
        else { mr.fail_from = k; mr.fail_to = forever ? ~0ull : k; }
        bool recovered = false, thrown = false;

        Loops got;
        {
            DefaultResource d(&other);
            try {
                got = use_cfg(cfg,cur,sc,&mr,[&] { recovered = true; mr.fail_from = mr.fail_to = 0; user_fail_at = 0; });
            } catch(const std::bad_alloc&) { thrown = true; watch = false; }
            catch(const UserError&) { thrown = true; watch = false; }
        }
        if(!user && !mr.failed) { stats.ctr["blocks_for_pools"]++; continue; }
        if(!user && !thrown && !recovered) throw Viol{"failure-hidden","the failure to get memory was not reported"};
        if(user && !thrown && !recovered) throw Viol{"failure-hidden","the exception of the user's code was not passed on"};
        mr.check(true); other.check(true);
        if(other.allocs) throw Viol{"wrong-resource","memory was taken from the default memory resource although another one was given"};
        if(!thrown) { same(r,sc,got,ref,"after a failure, reset() and another try"); stats.ctr["recoveries_compared"]++; }
        else stats.ctr["failures_passed_on"]++;
        stats.ctr[user ? "user_exceptions" : "allocation_failures"]++;
    }
    stats.ctr[std::string("way ") + ways[sc.way]]++;
    stats.sig(mix64(sig_of(cur.s,sig_of(cur.c)) + std::uint64_t(sc.way*16 + int(sc.op)*2 + sc.tree)));
    stats.sample(witness());
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    std::map<std::string,CaseFn> modes{{"acct",mode_acct},{"fault",mode_fault}};
    auto m = modes.find(args.mode);
    if(m == modes.end()) { std::fprintf(stderr,"unknown mode\n"); return 3; }
    return run_cases(m->second,witness);
}
