// Coordinate types written by the user. The classes below satisfy the documented
// requirements and watch what the library does with them: reading a coordinate
// that was never set, sums and products outside of the range of the type,
// numbers that are not finite, and how much work is done.
//
// modes: same  results equal those of the built-in types, monitors are quiet
//        cost  the work stays in proportion to the lines and their crossings
#include <cmath>
#include <compare>
#include <concepts>
#include <limits>
#include <type_traits>
#include <cstdint>
#include <string>

namespace w {
struct Mon {
    std::uint64_t sums = 0, cmps = 0, muls = 0, reals = 0, rounds = 0;
    std::string bad;
    void flag(const char *what) { if(bad.empty()) bad = what; }
};
inline Mon mon;
constexpr unsigned OK = 0x5EED1234u;

template<typename Rep,typename LRep,typename RRep,bool OwnLong,int Tag=0> struct Sys {
    struct L;
    struct I {
        Rep v; unsigned m;
        I() noexcept : v(0), m(0) {}
        template<std::same_as<int> T> constexpr I(T x) noexcept : v(static_cast<Rep>(x)), m(OK) {}
        static I make(LRep x) noexcept { I r; r.v = static_cast<Rep>(x); r.m = OK; if(static_cast<LRep>(r.v) != x) mon.flag("a coordinate left the range of its type"); return r; }
        Rep get() const noexcept { if(m != OK) mon.flag("a coordinate was used that was never set"); return v; }
        LRep wide() const noexcept { return static_cast<LRep>(get()); }
        explicit operator bool() const noexcept { return get() != 0; }
        explicit operator long() const noexcept { return static_cast<long>(get()); }
        operator LRep() const noexcept requires(!OwnLong) { return wide(); }
        operator RRep() const noexcept requires(!OwnLong) { return static_cast<RRep>(get()); }
        friend I operator+(const I &a,const I &b) noexcept { ++mon.sums; return make(a.wide()+b.wide()); }
        friend I operator-(const I &a,const I &b) noexcept { ++mon.sums; return make(a.wide()-b.wide()); }
        friend I operator-(const I &a) noexcept { return make(-a.wide()); }
        I &operator+=(const I &b) noexcept { return *this = *this + b; }
        I &operator-=(const I &b) noexcept { return *this = *this - b; }
        friend bool operator==(const I &a,const I &b) noexcept { ++mon.cmps; return a.get() == b.get(); }
        friend auto operator<=>(const I &a,const I &b) noexcept { ++mon.cmps; return a.get() <=> b.get(); }
        friend LRep operator+(const I &a,LRep b) noexcept requires(!OwnLong) { return static_cast<LRep>(a.get()) + b; }
        friend LRep operator+(LRep a,const I &b) noexcept requires(!OwnLong) { return a + static_cast<LRep>(b.get()); }
        friend LRep operator-(const I &a,LRep b) noexcept requires(!OwnLong) { return static_cast<LRep>(a.get()) - b; }
        friend LRep operator-(LRep a,const I &b) noexcept requires(!OwnLong) { return a - static_cast<LRep>(b.get()); }
        friend bool operator==(const I &a,LRep b) noexcept requires(!OwnLong) { return static_cast<LRep>(a.get()) == b; }
        friend auto operator<=>(const I &a,LRep b) noexcept requires(!OwnLong) { return static_cast<LRep>(a.get()) <=> b; }
        friend RRep operator+(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) + b; }
        friend RRep operator+(RRep a,const I &b) noexcept requires(!OwnLong) { return a + static_cast<RRep>(b.get()); }
        friend RRep operator-(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) - b; }
        friend RRep operator-(RRep a,const I &b) noexcept requires(!OwnLong) { return a - static_cast<RRep>(b.get()); }
        friend RRep operator*(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) * b; }
        friend RRep operator*(RRep a,const I &b) noexcept requires(!OwnLong) { return a * static_cast<RRep>(b.get()); }
        friend RRep operator/(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) / b; }
        friend RRep operator/(RRep a,const I &b) noexcept requires(!OwnLong) { return a / static_cast<RRep>(b.get()); }
        friend bool operator==(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) == b; }
        friend auto operator<=>(const I &a,RRep b) noexcept requires(!OwnLong) { return static_cast<RRep>(a.get()) <=> b; }
        friend bool operator==(const I &a,int b) noexcept requires(!OwnLong) { ++mon.cmps; return a.get() == static_cast<Rep>(b); }
        friend auto operator<=>(const I &a,int b) noexcept requires(!OwnLong) { ++mon.cmps; return a.get() <=> static_cast<Rep>(b); }
        friend I operator+(const I &a,int b) noexcept requires(!OwnLong) { return a + I(b); }
        friend I operator-(const I &a,int b) noexcept requires(!OwnLong) { return a - I(b); }
    };
    struct L {
        LRep v; unsigned m;
        L() noexcept : v(0), m(0) {}
        constexpr L(int x) noexcept : v(x), m(OK) {}
        L(const I &x) noexcept : v(x.wide()), m(OK) {}
        static L make(LRep x) noexcept { L r; r.v = x; r.m = OK; return r; }
        LRep get() const noexcept { if(m != OK) mon.flag("a product of coordinates was used that was never set"); return v; }
        explicit operator bool() const noexcept { return get() != 0; }
        explicit operator long() const noexcept { return static_cast<long>(get()); }
        friend L operator+(const L &a,const L &b) noexcept { LRep r; if(__builtin_add_overflow(a.get(),b.get(),&r)) mon.flag("a sum of products left the range of the wide type"); return make(r); }
        friend L operator-(const L &a,const L &b) noexcept { LRep r; if(__builtin_sub_overflow(a.get(),b.get(),&r)) mon.flag("a difference of products left the range of the wide type"); return make(r); }
        friend L operator-(const L &a) noexcept { return L(0) - a; }
        L &operator+=(const L &b) noexcept { return *this = *this + b; }
        L &operator-=(const L &b) noexcept { return *this = *this - b; }
        friend bool operator==(const L &a,const L &b) noexcept { ++mon.cmps; return a.get() == b.get(); }
        friend auto operator<=>(const L &a,const L &b) noexcept { ++mon.cmps; return a.get() <=> b.get(); }
    };
    struct R {
        RRep v; unsigned m;
        R() noexcept : v(0), m(0) {}
        template<typename T> requires std::is_arithmetic_v<T> constexpr R(T x) noexcept : v(static_cast<RRep>(x)), m(OK) {}
        R(const I &x) noexcept : v(static_cast<RRep>(x.get())), m(OK) {}
        R(const L &x) noexcept : v(static_cast<RRep>(x.get())), m(OK) {}
        static R make(RRep x) noexcept { R r; r.v = x; r.m = OK; ++mon.reals; if(!std::isfinite(x)) mon.flag("a number that is not finite was computed"); return r; }
        RRep get() const noexcept { if(m != OK) mon.flag("a real number was used that was never set"); return v; }
        explicit operator double() const noexcept { return static_cast<double>(get()); }
        explicit operator int() const noexcept { return static_cast<int>(get()); }
        explicit operator unsigned() const noexcept { return static_cast<unsigned>(get()); }
        explicit operator long() const noexcept { return static_cast<long>(get()); }
        friend R operator+(const R &a,const R &b) noexcept { return make(a.get()+b.get()); }
        friend R operator-(const R &a,const R &b) noexcept { return make(a.get()-b.get()); }
        friend R operator-(const R &a) noexcept { return make(-a.get()); }
        friend R operator*(const R &a,const R &b) noexcept { return make(a.get()*b.get()); }
        friend R operator/(const R &a,const R &b) noexcept { return make(a.get()/b.get()); }
        R &operator+=(const R &b) noexcept { return *this = *this + b; }
        R &operator-=(const R &b) noexcept { return *this = *this - b; }
        R &operator*=(const R &b) noexcept { return *this = *this * b; }
        R &operator/=(const R &b) noexcept { return *this = *this / b; }
        friend bool operator==(const R &a,const R &b) noexcept { ++mon.cmps; return a.get() == b.get(); }
        friend std::partial_ordering operator<=>(const R &a,const R &b) noexcept { ++mon.cmps; return a.get() <=> b.get(); }
    };
    using long_t = std::conditional_t<OwnLong,L,LRep>;
    using real_t = std::conditional_t<OwnLong,R,RRep>;
    static LRep prod(const I &a,const I &b) noexcept { ++mon.muls; LRep r; if(__builtin_mul_overflow(a.wide(),b.wide(),&r)) mon.flag("a product of coordinates left the range of the wide type"); return r; }
    static RRep val(const real_t &x) noexcept { if constexpr(OwnLong) return x.get(); else return x; }
    static real_t real(RRep x) noexcept { if constexpr(OwnLong) return R::make(x); else { ++mon.reals; return x; } }
    static I to_i(RRep x) noexcept { ++mon.rounds;
        if(!(x >= static_cast<RRep>(std::numeric_limits<Rep>::min()) && x <= static_cast<RRep>(std::numeric_limits<Rep>::max()))) { mon.flag("a real number outside of the range of the coordinates was converted to a coordinate"); return I(0); }
        return I::make(static_cast<LRep>(x)); }
};
// every type of one's own; own coordinate with built-in wide and real types; more precise real numbers
#ifdef BUILTIN_WIDE
constexpr bool own = false;
#else
constexpr bool own = true;
#endif
typedef Sys<std::int32_t,std::int64_t,double,own> A32;
typedef Sys<std::int64_t,__int128,double,own> A64;
typedef Sys<std::int32_t,std::int64_t,double,false,1> B32;
typedef Sys<std::int32_t,std::int64_t,long double,own> X32;
}

#include <poly_ops/base.hpp>
template<typename S> struct own_ops {
    using I = typename S::I;
    using long_t = typename S::long_t;
    using real_t = typename S::real_t;
    static long_t mul(const I &a,const I &b) { if constexpr(std::is_class_v<long_t>) return long_t::make(S::prod(a,b)); else return S::prod(a,b); }
    static real_t acos(const I &x) { return S::real(std::acos(static_cast<double>(x.get()))); }
    static real_t acos(const real_t &x) { return S::real(std::acos(S::val(x))); }
    static real_t cos(const real_t &x) { return S::real(std::cos(S::val(x))); }
    static real_t sin(const real_t &x) { return S::real(std::sin(S::val(x))); }
    static real_t sqrt(const I &x) { return S::real(std::sqrt(static_cast<double>(x.get()))); }
    static real_t sqrt(const real_t &x) { return S::real(std::sqrt(S::val(x))); }
    static I round(const real_t &x) { return S::to_i(std::round(S::val(x))); }
    static I floor(const real_t &x) { return S::to_i(std::floor(S::val(x))); }
    static I ceil(const real_t &x) { return S::to_i(std::ceil(S::val(x))); }
    static I to_coord(const real_t &x) { return S::to_i(std::trunc(S::val(x))); }
    static real_t pi() { return S::real(static_cast<decltype(S::val(std::declval<real_t>()))>(3.14159265358979323846L)); }
};
#ifndef PLAIN
template<> struct poly_ops::coord_ops<w::A32::I> : own_ops<w::A32> {};
template<> struct poly_ops::coord_ops<w::A64::I> : own_ops<w::A64> {};
template<> struct poly_ops::coord_ops<w::B32::I> : own_ops<w::B32> {};
template<> struct poly_ops::coord_ops<w::X32::I> : own_ops<w::X32> {};
#endif
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#ifndef PLAIN
static_assert(poly_ops::coordinate<w::A32::I>);
static_assert(poly_ops::coordinate<w::A64::I>);
static_assert(poly_ops::coordinate<w::B32::I>);
static_assert(poly_ops::coordinate<w::X32::I>);
#endif

using namespace v;
namespace po = poly_ops;
using po::bool_op; using po::bool_set; using po::point_t;

static std::string cur;
static std::string witness() { return cur; }
static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};

template<typename C> C mk(std::int64_t x) { if constexpr(std::integral<C>) return static_cast<C>(x); else return C::make(x); }
template<typename C> std::int64_t un(const C &x) { return static_cast<std::int64_t>(static_cast<long>(x)); }
template<typename C> std::vector<std::vector<point_t<C>>> pts(const Loops &ls) {
    std::vector<std::vector<point_t<C>>> r;
    for(auto &l : ls) { r.emplace_back(); for(auto &p : l) r.back().push_back(point_t<C>(mk<C>(p.x),mk<C>(p.y))); }
    return r;
}
// results in plain form: structure, points and origins
template<typename R> void put(std::string &o,R &&range) {
    for(auto &&l : range) {
        o += "[";
        for(auto &&p : l) {
            if constexpr(requires { p.original_points; }) { o += std::to_string(un(p.p[0])) + "," + std::to_string(un(p.p[1])) + "{"; for(auto x : p.original_points) o += std::to_string(x) + " "; o += "} "; }
            else o += std::to_string(un(p[0])) + "," + std::to_string(un(p[1])) + " ";
        }
        if constexpr(requires { l.inner_loops(); }) put(o,l.inner_loops());
        o += "]";
    }
}
struct Job { int what; bool_op op; double mag; int step; bool closed; bool tree; };
template<typename C> std::string run(const Input &in,const Job &j) {
    iter_count = 0;
    std::string o;
    auto s = pts<C>(in.s), c = pts<C>(in.c);
    switch(j.what) {
    case 0: {
        po::clipper<C> cl; cl.add_loops_subject(s); cl.add_loops_clip(c);
        if(j.tree) put(o,cl.template execute<true>(j.op)); else put(o,cl.template execute<false>(j.op)); } break;
    case 1: {
        po::origin_tracked_clipper<C> cl; cl.add_loops_subject(s); cl.add_loops_clip(c);
        if(j.tree) put(o,cl.template execute<true>(j.op)); else put(o,cl.template execute<false>(j.op)); } break;
    case 2: {
        po::clipper<C> cl; po::add_offset_subject(cl,s,po::real_coord_t<C>(j.mag),mk<C>(j.step),j.closed); cl.add_loops_clip(c);
        if(j.tree) put(o,cl.template execute<true>(j.op)); else put(o,cl.template execute<false>(j.op)); } break;
    case 3: {
        po::origin_tracked_clipper<C> cl; po::add_offset(cl,s,bool_set::subject,po::real_coord_t<C>(j.mag),mk<C>(j.step),j.closed); cl.add_loops_clip(c);
        put(o,cl.template execute<false>(j.op)); } break;
    default:
        for(auto &l : s) if(l.size() > 2) {
            if constexpr(requires { un(po::winding_dir<C>(l)); }) o += std::to_string(un(po::winding_dir<C>(l))) + " ";
            o += std::to_string(po::triangle_winding(l[0],l[1],l[2]) > 0) + std::to_string(po::triangle_winding(l[0],l[1],l[2]) < 0) + " ";
            auto q = point_t<C>(l[0]) + l[1] - l[2]; o += std::to_string(un(q[0])) + "," + std::to_string(un(q[1])) + std::to_string(l[0] == l[1]) + " ";
        }
    }
    return o;
}
static Loops loops_in(const std::string &o) { // of a flat result
    Loops r; std::size_t i = 0;
    while(i < o.size()) {
        if(o[i] == '[') { r.emplace_back(); ++i; continue; }
        if(o[i] == ']' || o[i] == ' ') { ++i; continue; }
        std::size_t e; std::int64_t x = std::stoll(o.substr(i,40),&e); i += e + 1; std::int64_t y = std::stoll(o.substr(i,40),&e); i += e;
        r.back().push_back({x,y});
    }
    return r;
}

#ifndef COST_ONLY
static void mode_same(Rng &r,std::uint64_t i) {
    std::int64_t limit = r.chance(1,3) ? 60 : r.chance(1,2) ? 2000 : (std::int64_t(1) << 20);
    if(i%4 != 3 && r.chance(1,8)) { limit = std::int64_t(1) << r.range(24,29); stats.ctr["large_coordinates"]++; }
    Input in = r.chance(1,2) ? gen_general(r,limit,int(r.range(0,1))) : gen_lattice(r,int(r.range(0,1)));
    int kind = int(i%4);
    Job j; j.what = int(r.range(0,9)); j.what = j.what < 4 ? 0 : j.what < 6 ? 1 : j.what < 8 ? 2 : j.what < 9 ? 3 : 4;
    j.op = ops[r.range(0,4)]; j.tree = r.chance(1,3); j.closed = r.chance(2,3);
    j.mag = (r.chance(1,3) ? -1 : 1) * (double(r.range(1,20)) + r.real()); j.step = int(r.range(1,30));
    if(kind == 3) { j.what = j.what == 1 ? 0 : j.what == 3 ? 2 : j.what; j.tree = false; }
    static const char *kn[] = {"own types 32","own types 64","own coordinate, built-in wide and real types","long double"};
    static const char *wn[] = {"operation","tracked operation","offset","tracked offset","winding"};
    cur = std::string(kn[kind]) + " " + wn[j.what] + " " + op_name(j.op) + (j.tree ? " tree" : "") + (j.closed ? "" : " open") + " magnitude " + std::to_string(j.mag) + " step " + std::to_string(j.step) + " " + in.str();
    iter_inconclusive = max_coord(in) > (std::int64_t(1) << 20);
    w::mon = {};
    std::string a,b;
    switch(kind) {
    case 0: a = run<w::A32::I>(in,j); b = run<std::int32_t>(in,j); break;
    case 1: a = run<w::A64::I>(in,j); b = run<std::int64_t>(in,j); break;
    case 2: a = run<w::B32::I>(in,j); b = run<std::int32_t>(in,j); break;
    default: a = run<w::X32::I>(in,j); b = run<std::int32_t>(in,j);
    }
    if(!w::mon.bad.empty()) throw Viol{"monitor: " + w::mon.bad,w::mon.bad};
    if(kind < 3) { if(a != b) throw Viol{"different result","the result with the coordinate type of the user is " + a.substr(0,1500) + " and with the built-in type " + b.substr(0,1500)}; stats.ctr["results_compared"]++; }
    else if(j.what == 4) { if(a != b) throw Viol{"different result","winding differs"}; }
    else {
        Loops oa = loops_in(a), ob = loops_in(b);
        if(j.op != bool_op::normalize) check_arrangement(oa,"long double");
        auto ea = edges_of(oa), eb = edges_of(ob);
        auto is = in; for(int k=0;k<6 && !ea.empty();++k) {
            auto &e = ea[std::size_t(r.range(0,std::int64_t(ea.size())-1))];
            P p{e.a.x + e.b.x + r.range(-40,40),e.a.y + e.b.y + r.range(-40,40)};
            if(min_dist(ea,p,2) < 8 || (!eb.empty() && min_dist(eb,p,2) < 8)) continue;
            if((winding(ea,p,2) != 0) != (winding(eb,p,2) != 0)) throw Viol{"different region","the shape computed with more precise real numbers differs at half of " + str(p)};
            stats.ctr["precise_samples"]++;
        }
        stats.ctr["precise_results"]++;
    }
    stats.ctr["sums_watched"] += w::mon.sums; stats.ctr["comparisons_watched"] += w::mon.cmps; stats.ctr["products_watched"] += w::mon.muls; stats.ctr["real_numbers_watched"] += w::mon.reals; stats.ctr["conversions_watched"] += w::mon.rounds;
    stats.ctr[std::string("of_kind ") + wn[j.what]]++;
    if(!b.empty()) { stats.ctr["results_nonempty"]++; stats.sig(sig_of(in.s,sig_of(in.c,mix64(std::uint64_t(j.what*5+int(j.op))*4+std::uint64_t(kind))))); stats.sample(cur); }
}
#endif
#ifdef PLAIN
using Cost = std::int32_t;
#else
using Cost = w::A32::I;
#endif

struct CountRes : std::pmr::memory_resource {
    std::size_t now = 0, peak = 0, total = 0, blocks = 0;
    void *do_allocate(std::size_t n,std::size_t a) override { now += n; total += n; ++blocks; peak = std::max(peak,now); return std::pmr::new_delete_resource()->allocate(n,a); }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override { now -= n; std::pmr::new_delete_resource()->deallocate(p,n,a); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

// large inputs of known structure
// very many small shapes that lie apart
static Input gen_row(Rng &r) {
    Input in; in.family = "apart"; int k = int(r.range(200,args.thorough ? 30000 : 8000)), cols = r.chance(1,2) ? k : int(r.range(1,k));
    bool straight = r.chance(1,3);
    for(int i=0;i<k;++i) {
        std::int64_t x = i%cols*30 + r.range(1,6), y = i/cols*30 + r.range(1,6), d = r.range(2,20);
        if(straight) { x = i%cols*30; y = i/cols*30; }
        Loop l; switch(r.range(0,3)) { case 0: l = {{x,y},{x+d,y},{x+d,y+d},{x,y+d}}; break; case 1: l = {{x,y},{x+d,y+1},{x+1,y+d}}; break; case 2: l = {{x+d/2,y},{x+d,y+1},{x,y+d}}; break; default: l = {{x,y},{x+d,y+2},{x+d+1,y+d},{x+1,y+d+1}}; }
        std::rotate(l.begin(),l.begin()+r.range(0,std::int64_t(l.size())-1),l.end()); if(r.chance(1,4)) std::reverse(l.begin(),l.end());
        (r.chance(1,2) ? in.s : in.c).push_back(l);
    }
    if(r.chance(1,3)) for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) std::swap(p.x,p.y);
    return in;
}
static Input gen_large(Rng &r,int &fam) {
    Input in; fam = int(r.range(0,9));
    bool alone = r.chance(2,3); // without a second shape to cross
    int n = int(r.range(20,!alone ? 500 : args.thorough ? 12000 : 3000));
    auto box = [](std::int64_t x1,std::int64_t y1,std::int64_t x2,std::int64_t y2) { return Loop{{x1,y1},{x2,y1},{x2,y2},{x1,y2}}; };
    auto &dst = r.chance(1,2) ? in.s : in.c;
    switch(fam) {
    case 0: { in.family = "grid of boxes"; int w = int(std::sqrt(double(n/4)))+1; bool apart = r.chance(1,2); for(int i=0;i<n/4;++i) { std::int64_t x = i%w*20, y = i/w*20; (r.chance(1,2) ? in.s : in.c).push_back(box(x,y,x+(apart?15:20),y+(apart?15:20))); } } break;
    case 1: { in.family = "nested boxes"; for(int i=0;i<std::min(n,2000)/4;++i) { Loop l = box(-i*3-1,-i*3-1,i*3+1,i*3+1); if(r.chance(1,2)) std::reverse(l.begin(),l.end()); dst.push_back(l); } } break;
    case 2: { in.family = "comb"; Loop l; for(int i=0;i<n/2;++i) { l.push_back({i*6,r.range(0,20)}); l.push_back({i*6+3,1000}); } l.push_back({n*3,2000}); l.push_back({-5,2000}); in.s.push_back(l); if(!alone) in.c.push_back(box(-10,500,n*4,600)); } break;
    case 3: { in.family = "star"; in.s.push_back(gen_star(r,n,0,0,r.range(1000,1<<19),false)); if(!alone) in.c.push_back(gen_star(r,n,37,11,r.range(1000,1<<19),r.chance(1,2))); } break;
    case 4: { in.family = "random small boxes"; for(int i=0;i<n/4;++i) { std::int64_t x = r.range(0,4000), y = r.range(0,4000); (r.chance(1,2) ? in.s : in.c).push_back(box(x,y,x+r.range(1,60),y+r.range(1,60))); } } break;
    case 5: { in.family = "weave"; int k = int(std::sqrt(double(n)))+2; k = std::min(k,20); for(int i=0;i<k;++i) { in.s.push_back(box(i*10,0,i*10+5,k*10)); in.c.push_back(box(0,i*10,k*10,i*10+5)); } } break;
    case 6: { in.family = "random loop"; in.s.push_back(gen_random_loop(r,std::min(n,60),-(1<<r.range(3,20)),(1<<r.range(3,20)))); } break;
    case 7: { in.family = "copies"; Loop l = gen_star(r,12,0,0,5000,false); for(int i=0;i<std::min(n,720)/12;++i) dst.push_back(l); } break;
    case 8: { in.family = "stairs"; Loop l; for(int i=0;i<n/2;++i) { l.push_back({i*4,i*4}); l.push_back({i*4+4,i*4}); } l.push_back({0,n*4}); in.s.push_back(l); if(!alone) { for(auto &p : l) p.x += 2; in.c.push_back(l); } } break;
    default: { in.family = "fan"; for(int i=0;i<n/3;++i) in.s.push_back(Loop{{0,0},{r.range(-3000,3000),r.range(1000,3000)},{r.range(-3000,3000),r.range(1000,3000)}}); if(n > 120) in.s.resize(40); }
    }
    if(r.chance(1,3)) for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) std::swap(p.x,p.y);
    return in;
}

static void mode_cost(Rng &r,std::uint64_t) {
    int fam; Input in;
    bool apart = r.chance(1,48);
    if(apart) { fam = 11; in = gen_row(r); }
    else if(r.chance(1,4)) { fam = 10; in = gen_general(r,r.chance(1,2) ? 200 : (std::int64_t(1) << 20),int(r.range(0,2))); }
    else in = gen_large(r,fam);
    bool_op op = ops[r.range(0,4)]; bool tree = r.chance(1,2);
    cur = std::string("cost ") + op_name(op) + (tree ? " tree" : "") + " " + in.str();
    std::size_t n = edges_of(in.s).size() + edges_of(in.c).size(), m = 0;
    if(!apart) { Job j{0,bool_op::normalize,0,0,true,false}; for(auto &l : run_flat<std::int32_t>(in,bool_op::normalize)) m += l.size(); }
    auto s = pts<Cost>(in.s), c = pts<Cost>(in.c);
    CountRes res; w::mon = {}; iter_count = 0;
    std::size_t outp = 0;
    {
        po::clipper<Cost> cl(&res); cl.add_loops_subject(s); cl.add_loops_clip(c);
        std::string o; if(tree) put(o,cl.execute<true>(op)); else put(o,cl.execute<false>(op));
        outp = o.size();
    }
    bool clean = true; if(!apart) try { Loops all = in.s; all.insert(all.end(),in.c.begin(),in.c.end()); check_arrangement(all,"x");
        std::set<std::array<std::int64_t,4>> seen; for(auto &e : edges_of(all)) if(!seen.insert(e.a < e.b ? std::array{e.a.x,e.a.y,e.b.x,e.b.y} : std::array{e.b.x,e.b.y,e.a.x,e.a.y}).second) clean = false;
    } catch(const Viol&) { clean = false; }
    // of every loop, the most lines that lie above or below one of its points
    double S = 0; {
        auto es = edges_of(in.s), e2 = edges_of(in.c); es.insert(es.end(),e2.begin(),e2.end());
        std::vector<std::int64_t> lo, hi; for(auto &e : es) { lo.push_back(std::min(e.a.x,e.b.x)); hi.push_back(std::max(e.a.x,e.b.x)); }
        std::sort(lo.begin(),lo.end()); std::sort(hi.begin(),hi.end());
        auto at = [&](std::int64_t x) { return double((std::upper_bound(lo.begin(),lo.end(),x) - lo.begin()) - (std::lower_bound(hi.begin(),hi.end(),x) - hi.begin())); };
        for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) { double most = 0; for(auto &p : l) most = std::max(most,at(p.x)); S += most; }
    }
    std::size_t it = iter_count;
    double N = double(n + m), dn = double(n), work = double(w::mon.cmps+w::mon.sums+w::mon.muls), base = 0.6*dn*std::log2(dn+2) + S;
    auto num = [](double x) { return std::to_string(x); };
    std::string size = std::to_string(n) + " lines, " + std::to_string(m) + " after all crossings: ";
    if(clean) {
        // nothing crosses: every line is entered once and left once
        if(double(it) > 4*dn + 16) throw Viol{"too many steps","lines that do not cross: " + size + std::to_string(it) + " steps"};
        if(work > 80*base + 4000) throw Viol{"too much work","lines that do not cross: " + size + num(work) + " operations on coordinates"};
        if(double(res.peak) > 6000*dn + 80*S + 20000) throw Viol{"too much memory","lines that do not cross: " + size + std::to_string(res.peak) + " bytes at once"};
        stats.ctr["clean_inputs"]++; stats.ctr["lines_of_clean_inputs"] += n; stats.ctr["steps_of_clean_inputs"] += it;
        if(n > 1000) stats.ctr["large_clean_inputs"]++;
    } else {
        if(double(it) > 3*N*N + 64) throw Viol{"too many steps",size + std::to_string(it) + " steps"};
        if(work > 150*N*N + 4000) throw Viol{"too much work",size + num(work) + " operations on coordinates"};
        if(double(res.peak) > 2000*N*std::sqrt(N) + 40000) throw Viol{"too much memory",size + std::to_string(res.peak) + " bytes at once"};
        stats.ctr["crossing_inputs"]++; stats.ctr["lines_of_crossing_inputs"] += n; stats.ctr["steps_of_crossing_inputs"] += it;
    }
    if(args.get("--show") == "1") std::fprintf(stderr,"COST %d %d %d %zu %zu %f %f %f %f %f %f\n",fam,int(clean),int(tree),n,m,dn*std::log2(dn+2),S,double(it)/(clean ? dn : N*N),work/(clean ? base : N*N),double(res.peak)/(clean ? dn : N*std::sqrt(N)),work);
    stats.sig(sig_of(in.s,sig_of(in.c,mix64(std::uint64_t(op)*2+tree)))); stats.sample(cur.substr(0,800));
    stats.ctr["cost"]++;
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    #ifdef COST_ONLY
    return run_cases(mode_cost,witness);
#else
    return run_cases(args.mode == "cost" ? mode_cost : mode_same,witness);
#endif
}
