// Laws of the small public pieces: exact predicates, point arithmetic, result
// ranges, strided input ranges and the container behind origin tracking.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#include <poly_ops/strided_itr.hpp>
#include <list>
#include <set>
#include <sstream>
#include <cstring>
#include <forward_list>
#include <cmath>
#include <ranges>
#include <span>
#include <iterator>
#include <memory_resource>
using namespace v;
namespace po = poly_ops;
using po::point_t; using po::bool_op; using po::bool_set;

static std::string cur;
static std::string witness() { return cur; }
[[noreturn]] static void fail(const std::string &k,const std::string &d) { throw Viol{k,d}; }
static std::string s128(i128 x) { return i128_str(x); }

// ------------------------------------------------------------- predicates

template<typename L> i128 value(const L &x) {
    if constexpr(std::is_integral_v<L> || sizeof(L) != 16) return static_cast<i128>(x);
    else if constexpr(std::is_same_v<L,i128>) return x;
    else return static_cast<i128>((static_cast<u128>(static_cast<std::uint64_t>(x[1])) << 64) | static_cast<std::uint64_t>(x[0]));
}
template<typename C> C coord(Rng &r,unsigned w) { // |x| < 2^w
    std::int64_t top = (std::int64_t(1) << w) - 1, x;
    switch(r.range(0,8)) {
    case 0: x = top; break;
    case 1: x = -top-1; break;
    case 2: x = r.range(-3,3); break;
    case 3: x = top - r.range(0,3); break;
    case 4: x = -top + r.range(0,3); break;
    case 5: x = (std::int64_t(1) << r.range(0,w)) - 1 - r.range(0,2); break;
    case 6: x = r.range(-20,20); break;
    default: x = r.range(-top-1,top);
    }
    return static_cast<C>(std::clamp<std::int64_t>(x,-top-1,top));
}
template<typename C> std::string ps(const point_t<C> &p) { return "(" + std::to_string(p[0]) + "," + std::to_string(p[1]) + ")"; }
static int sgn128(i128 x) { return (x > 0) - (x < 0); }

template<typename T> struct OnePass { // input range that may be traversed once, sentinel of another type
    const std::vector<T> *src;
    struct sent {};
    struct iter {
        using iterator_concept = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
        const std::vector<T> *src; std::size_t *pos;
        T operator*() const { return (*src)[*pos]; }
        iter &operator++() { ++*pos; return *this; }
        void operator++(int) { ++*pos; }
        friend bool operator==(const iter &a,sent) { return *a.pos == a.src->size(); }
    };
    std::size_t pos = 0;
    iter begin() { return {src,&pos}; }
    sent end() { return {}; }
};
template<typename C> struct Plain { C px,py; };
template<typename C> struct po::point_ops<Plain<C>> {
    static C get_x(const Plain<C> &p) { return p.px; }
    static C get_y(const Plain<C> &p) { return p.py; }
};

template<typename C> void pred(Rng &r) {
    using PT = point_t<C>;
    constexpr unsigned bits = sizeof(C)*8;
    unsigned w = r.chance(1,2) ? bits-2 : unsigned(r.range(2,bits-2));
    auto gen = [&]{ return PT{coord<C>(r,w),coord<C>(r,w)}; };
    PT a = gen(), b = gen(), c = gen();
    if(r.chance(1,3)) { // (nearly) collinear: the sign hangs on the last bit
        std::int64_t m = (std::int64_t(1) << (w/2)) - 1, dx = r.range(-m,m), dy = r.range(-m,m), k1 = r.range(-m/2,m/2), k2 = r.range(-m/2,m/2);
        std::int64_t lim = (std::int64_t(1) << w) - 1;
        std::int64_t ox = r.range(-lim/2,lim/2), oy = r.range(-lim/2,lim/2);
        auto at = [&](std::int64_t k) { return PT{C(std::clamp<std::int64_t>(ox+k*dx/2,-lim-1,lim)),C(std::clamp<std::int64_t>(oy+k*dy/2,-lim-1,lim))}; };
        a = at(0); b = at(2*k1); c = at(2*k2);
        if(r.chance(1,2)) c[unsigned(r.range(0,1))] = C(std::clamp<std::int64_t>(std::int64_t(c[0]) + r.range(-1,1),-lim-1,lim));
    }
    cur = "triangle_winding int" + std::to_string(bits) + " " + ps(a) + ps(b) + ps(c);
    auto oracle = [](const PT &p,const PT &q,const PT &s) { return (i128(q[0])-p[0])*(i128(s[1])-p[1]) - (i128(s[0])-p[0])*(i128(q[1])-p[1]); };
    auto tw = po::triangle_winding(a,b,c);
    i128 want = oracle(a,b,c);
    if(value(tw) != want) fail("triangle-winding","triangle_winding is " + s128(value(tw)) + ", exact value " + s128(want));
    if(po::large_ints::negative(tw) != (want < 0)) fail("triangle-winding-sign","negative() disagrees with the exact value " + s128(want));
    if((tw > 0) != (want > 0) || (tw == 0) != (want == 0) || (tw != 0) != (want != 0) || (tw < 0) != (want < 0) || (tw >= 0) != (want >= 0) || (tw <= 0) != (want <= 0)) fail("triangle-winding-compare","comparison with zero disagrees with the exact value " + s128(want));
    if(value(po::triangle_winding(b,c,a)) != want || value(po::triangle_winding(c,a,b)) != want) fail("triangle-winding-rotation","not invariant under rotation");
    if(value(po::triangle_winding(b,a,c)) != -want || value(po::triangle_winding(a,c,b)) != -want) fail("triangle-winding-swap","not antisymmetric");
    stats.ctr[want == 0 ? "triangles_degenerate" : want > 0 ? "triangles_clockwise" : "triangles_counter_clockwise"]++;
    if(std::abs(double(want)) > 9.3e18) stats.ctr["triangles_beyond_64_bits"]++;

    // winding_dir: twice the enclosed area with the sign of the direction
    unsigned w2 = unsigned(r.range(2,bits-6));
    std::size_t n = std::size_t(r.range(0,40));
    std::vector<PT> pts;
    for(std::size_t i=0;i<n;++i) pts.push_back(r.chance(1,5) && !pts.empty() ? r.pick(pts) : PT{coord<C>(r,w2),coord<C>(r,w2)});
    cur = "winding_dir int" + std::to_string(bits) + " "; for(auto &p : pts) cur += ps(p);
    i128 area = 0;
    for(std::size_t i=0;i<n;++i) { auto &p = pts[i], &q = pts[(i+1)%n]; area += i128(p[0])*q[1] - i128(q[0])*p[1]; }
    auto chk = [&](const auto &got,i128 exp,const char *how) {
        if(value(got) != exp) fail(std::string("winding-dir ") + how,std::string("winding_dir of ") + how + " is " + s128(value(got)) + ", twice the signed area is " + s128(exp)); };
    chk(po::winding_dir<C>(pts),area,"a vector");
    chk(po::winding_dir<C>(std::as_const(pts)),area,"a const vector");
    { OnePass<PT> op{&pts}; chk(po::winding_dir<C>(op),area,"a single-pass range"); }
    { std::forward_list<PT> fl(pts.begin(),pts.end()); chk(po::winding_dir<C>(fl),area,"a forward list"); }
    { std::vector<Plain<C>> pl; for(auto &p : pts) pl.push_back({p[0],p[1]}); chk(po::winding_dir<C>(pl),area,"user point types"); }
    chk(po::winding_dir<C>(pts | std::views::reverse),-area,"a reversed view");
    if(n) { auto rot = pts; std::rotate(rot.begin(),rot.begin()+r.range(0,std::int64_t(n)-1),rot.end()); chk(po::winding_dir<C>(rot),area,"a rotated loop");
        auto dup = pts; std::size_t k = std::size_t(r.range(0,std::int64_t(n)-1)); dup.insert(dup.begin()+std::ptrdiff_t(k),dup[k]); chk(po::winding_dir<C>(dup),area,"a loop with a repeated point"); }
    if(n) { po::winding_dir_sink<C> sink{pts[0]}; for(std::size_t i=1;i<n;++i) sink(pts[i]); chk(sink.close(),area,"a sink"); chk(sink.close(),area,"a sink closed again"); }
    if(n >= 3) stats.sig(mix64(std::uint64_t(area)) ^ mix64(std::uint64_t(want)));
    stats.ctr["winding_dirs"]++;

    // arithmetic of points, where nothing overflows
    {
        unsigned w3 = bits/2-2;
        PT p{coord<C>(r,w3),coord<C>(r,w3)}, q{coord<C>(r,w3),coord<C>(r,w3)}; C k = coord<C>(r,w3);
        cur = "point arithmetic int" + std::to_string(bits) + " " + ps(p) + ps(q) + " k=" + std::to_string(k);
        auto is = [&](const auto &g,i128 x,i128 y,const char *what) { if(i128(g[0]) != x || i128(g[1]) != y) fail(std::string("point ") + what,std::string("wrong result of ") + what + ": " + std::to_string(g[0]) + "," + std::to_string(g[1])); };
        is(p+q,i128(p[0])+q[0],i128(p[1])+q[1],"+"); is(p-q,i128(p[0])-q[0],i128(p[1])-q[1],"-");
        is(p*q,i128(p[0])*q[0],i128(p[1])*q[1],"* point"); is(p*k,i128(p[0])*k,i128(p[1])*k,"* scalar"); is(k*p,i128(p[0])*k,i128(p[1])*k,"scalar *");
        if(q[0] != 0 && q[1] != 0) is(p/q,p[0]/q[0],p[1]/q[1],"/");
        { PT t = p; t += q; is(t,i128(p[0])+q[0],i128(p[1])+q[1],"+="); t -= q; is(t,p[0],p[1],"-="); t *= k; is(t,i128(p[0])*k,i128(p[1])*k,"*="); }
        is(-p,-i128(p[0]),-i128(p[1]),"negation");
        { PT t = p, u = q; swap(t,u); is(t,q[0],q[1],"swap"); is(u,p[0],p[1],"swap"); }
        bool eq = p[0] == q[0] && p[1] == q[1];
        if((p == q) != eq || (p != q) == eq || !(p == p)) fail("point ==","equality of points is wrong");
        po::point_less lt;
        bool less = p[0] < q[0] || (p[0] == q[0] && p[1] < q[1]);
        if(lt(p,q) != less || lt(p,p) || (lt(p,q) && lt(q,p)) || (!eq && !lt(p,q) && !lt(q,p))) fail("point_less","the order of points is not the lexicographic one");
        if(i128(po::vdot(p,q)) != i128(p[0])*q[0] + i128(p[1])*q[1]) fail("vdot","wrong dot product");
        if(i128(po::square(p)) != i128(p[0])*p[0] + i128(p[1])*p[1]) fail("square","wrong square");
        { using Ops = po::point_ops<std::remove_cvref_t<decltype(p)>>; if(Ops::get_x(p) != p[0] || Ops::get_y(p) != p[1]) fail("point access","the point operations disagree"); }
        if(p.x() != p[0] || p.y() != p[1] || p.size() != 2 || p.end()-p.begin() != 2 || *p.begin() != p[0] || p.data()[1] != p[1]) fail("point access","accessors disagree");
        C arr[2] = {p[0],p[1]}; PT fa(arr); std::span<C,2> sp(arr); PT fs(sp); PT fp(Plain<C>{p[0],p[1]});
        if(!(fa == p) || !(fs == p) || !(fp == p)) fail("point conversion","conversion from point-like types changes the value");
        auto d = po::vcast<double>(p); is(d,p[0],p[1],"vcast");
        // rounding to nearest
        double fx = double(p[0]) + r.real() - 0.5, fy = double(p[1]) + double(r.range(-3,3))/4.0;
        auto rp = po::vround<C>(point_t<double>(fx,fy));
        if(std::fabs(double(rp[0])-fx) > 0.5 || std::fabs(double(rp[1])-fy) > 0.5) fail("vround","vround does not give a nearest integer");
        // conversions of coordinates are the documented functions
        {
            using O = po::coord_ops<C>;
            double lim = std::ldexp(1.0,std::min(int(bits)-2,52));
            double x = 0;
            switch(r.range(0,5)) {
                case 0: x = double(r.range(-40,40))/2; break;
                case 1: x = double(p[0]) + 0.5; break;
                case 2: x = std::nextafter(double(r.range(-4,4)) + 0.5,r.chance(1,2) ? 1e9 : -1e9); break;
                case 3: x = double(q[1]) + r.real(); break;
                case 4: x = (r.chance(1,2) ? -1 : 1)*(lim - double(r.range(1,9))/2); break;
                default: x = r.real()*4 - 2;
            }
            cur = "conversion int" + std::to_string(bits) + " " + std::to_string(x);
            // the fraction of the magnitude is exact
            double ax = std::fabs(x), fl = std::floor(ax), fr = ax - fl;
            double nearest = fr < 0.5 ? fl : fl + 1;
            if(x < 0) nearest = -nearest;
            double lo = x < 0 ? (fr > 0 ? -fl-1 : -fl) : fl, hi = x < 0 ? -fl : (fr > 0 ? fl+1 : fl), tr = x < 0 ? -fl : fl;
            if(double(O::round(x)) != nearest) fail("round","round(" + std::to_string(x) + ") is " + std::to_string(O::round(x)));
            auto vr = po::vround<C>(point_t<double>(x,-x));
            if(double(vr[0]) != nearest || double(vr[1]) != -nearest) fail("vround","vround(" + std::to_string(x) + ") differs from rounding to nearest, halves away from zero");
            if(double(O::floor(x)) != lo || double(O::ceil(x)) != hi) fail("floor/ceil","floor or ceil of " + std::to_string(x) + " is wrong");
            if(double(O::to_coord(x)) != tr) fail("to_coord","to_coord does not truncate " + std::to_string(x));
            auto off = [](double a, double b) { return !(std::fabs(a-b) <= 1e-12*std::fmax(1.0,std::fabs(b))); };
            if(off(O::cos(x),std::cos(x)) || off(O::sin(x),std::sin(x)) || off(O::sqrt(ax),std::sqrt(ax)) || off(O::pi(),std::acos(-1.0))) fail("real functions","sin, cos, sqrt or pi is wrong");
            C one = C(r.range(-1,1));
            if(off(O::acos(one),std::acos(double(one))) || off(O::acos(x/(ax+1)),std::acos(x/(ax+1))) || off(O::sqrt(C(p[0] < 0 ? -p[0] : p[0])),std::sqrt(std::fabs(double(p[0]))))) fail("real functions","acos or sqrt is wrong");
        }
        // vectors
        if(!eq) {
            double mag = (r.chance(1,2) ? -1.0 : 1.0)*(0.25 + 100*r.real());
            auto v = po::perp_vector<C>(p,q,mag);
            double ex = double(q[0])-double(p[0]), ey = double(q[1])-double(p[1]), len = std::sqrt(ex*ex+ey*ey);
            if(std::fabs(v[0]-ey/len*mag) > 1e-9*std::fabs(mag) || std::fabs(v[1]+ex/len*mag) > 1e-9*std::fabs(mag)) fail("perp_vector","perp_vector is not the perpendicular of the given length");
            if(std::fabs(po::vmag<C>(q-p)-len) > 1e-9*len) fail("vmag","wrong length");
        }
        if((p[0] || p[1]) && (q[0] || q[1])) {
            double dot = double(p[0])*double(q[0])+double(p[1])*double(q[1]), crs = double(p[0])*double(q[1])-double(p[1])*double(q[0]);
            double ang = po::vangle<C>(p,q);
            if(!(std::fabs(ang-std::atan2(std::fabs(crs),dot)) < 1e-5)) fail("vangle","vangle is " + std::to_string(ang));
        }
        stats.ctr["point_laws"]++;
    }
}

// ---------------------------------------------------------- result ranges

template<typename X> point_t<std::int64_t> pt_of(const X &p) { if constexpr(requires { p.p; }) return {std::int64_t(p.p[0]),std::int64_t(p.p[1])}; else return {std::int64_t(p[0]),std::int64_t(p[1])}; }
static P P_of(const auto &p) { auto q = pt_of(p); return {q[0],q[1]}; }
static bool same(const P &a,const P &b) { return a.x == b.x && a.y == b.y; }

template<typename Proxy> Loop check_loop(Rng &r,const Proxy &pl) {
    static_assert(std::ranges::forward_range<const Proxy>);
    static_assert(std::ranges::sized_range<const Proxy>);
    using It = std::ranges::iterator_t<const Proxy>;
    static_assert(std::forward_iterator<It> && std::sized_sentinel_for<It,It>);
    std::size_t n = std::size_t(pl.size());
    Loop ref; { std::size_t k = 0; for(auto i=pl.begin(); !(i==pl.end()); ++i) { if(++k > n) fail("loop size","iterating a loop yields more points than size()"); ref.push_back(P_of(*i)); } }
    if(ref.size() != n) fail("loop size","size() is " + std::to_string(n) + " but there are " + std::to_string(ref.size()) + " points");
    if(std::size_t(std::ranges::distance(pl)) != n || std::size_t(pl.end()-pl.begin()) != n || pl.begin()-pl.end() != -std::ptrdiff_t(n) || std::ranges::size(pl) != n) fail("loop distance","distances of a loop's iterators disagree with its size");
    static_assert(std::ranges::view<Proxy>);
    if(pl.empty() != (n == 0) || std::ranges::empty(pl) != (n == 0) || bool(pl) != (n != 0)) fail("loop empty","empty() disagrees with size()");
    if(n && !same(P_of(pl.front()),ref[0])) fail("loop front","front() is not the first point");
    { Loop l2; for(auto &&p : Proxy(pl) | std::views::transform([](auto &&x) { return P_of(x); })) l2.push_back(p); if(str(l2) != str(ref)) fail("loop view","a view of a loop shows other points"); }
    // several iterators advance independently
    auto a = pl.begin(); It first = a; std::vector<It> its; std::size_t k = 0;
    while(a != pl.end()) {
        its.push_back(a);
        if(std::size_t(a-pl.begin()) != k || std::size_t(pl.end()-a) != n-k) fail("loop distance","wrong distance inside a loop");
        It old = a; It post = r.chance(1,2) ? a++ : (++a,old);
        if(!(post == old) || !same(P_of(*post),ref[k]) || !same(P_of(*old),ref[k])) fail("loop increment","i++ does not return the iterator to the same point");
        if(a == old) fail("loop increment","an iterator compares equal to its successor");
        ++k;
    }
    if(k != n || !(first == pl.begin())) fail("loop multipass","second pass differs");
    for(std::size_t t=0;t<std::min<std::size_t>(n,6);++t) { std::size_t i = std::size_t(r.range(0,std::int64_t(n)-1)), j = std::size_t(r.range(0,std::int64_t(n)-1));
        if(!same(P_of(*its[i]),ref[i]) || its[j]-its[i] != std::ptrdiff_t(j)-std::ptrdiff_t(i) || (its[i] == its[j]) != (i == j)) fail("loop multipass","kept iterators do not stay valid");
        It cp = its[i]; cp = its[j]; if(!(cp == its[j]) || !same(P_of(*cp),ref[j])) fail("loop iterator assignment","assigned iterator differs");
        if(i < n-1) { It nx = std::ranges::next(its[i],pl.end()); if(!(nx == pl.end())) fail("loop next","ranges::next does not reach the end"); } }
    { std::set<std::uint64_t> idx; for(auto &i : its) if(!idx.insert(std::uint64_t(i.index())).second) fail("loop index","two points of a loop have one index"); }
    std::size_t cnt = 0; std::ranges::for_each(pl,[&](auto &&p) { if(cnt < n && !same(P_of(p),ref[cnt])) fail("loop algorithm","algorithm sees other points"); ++cnt; });
    if(cnt != n) fail("loop algorithm","algorithm sees another number of points");
    { Proxy copy = pl; Loop l2; for(auto &&p : copy) l2.push_back(P_of(p)); if(str(l2) != str(ref)) fail("loop copy","a copy of a loop differs"); }
    stats.ctr["loops_checked"]++;
    return ref;
}

// outer range of loops: random access
template<typename R,typename F> Loops check_outer(Rng &r,R &range,const F &peek,bool constant) {
    static_assert(std::ranges::forward_range<R> && std::ranges::sized_range<R>);
    std::size_t n = range.size();
    Loops ref;
    { std::size_t k = 0; for(auto i=range.begin(); i!=range.end(); ++i) { if(++k > n) fail("range size","more loops than size()"); ref.push_back(peek(*i)); } }
    if(ref.size() != n || std::ranges::size(range) != n || range.empty() != (n == 0)) fail("range size","size() or empty() disagree with the number of loops");
    using It = decltype(range.begin());
    auto b = range.begin(), e = range.end();
    if(std::size_t(e-b) != n || b-e != -std::ptrdiff_t(n)) fail("range distance","end - begin is not the size");
    auto eq = [&](const Loop &l,std::size_t i,const char *what) { if(str(l) != str(ref[i])) fail(std::string("range ") + what,std::string(what) + " gives another loop than iteration: " + str(l) + " instead of " + str(ref[i])); };
    for(std::size_t t=0;n && t<std::min<std::size_t>(3*n,12);++t) {
        std::size_t i = std::size_t(r.range(0,std::int64_t(n)-1)), j = std::size_t(r.range(0,std::int64_t(n)));
        auto di = std::ptrdiff_t(i), dj = std::ptrdiff_t(j);
        eq(loop_of(range[i]),i,"operator[]"); eq(loop_of(b[di]),i,"iterator operator[]");
        It x = b + di, y = di + b, z = e - std::ptrdiff_t(n-i), w = b; w += dj;
        eq(loop_of(*x),i,"iterator +"); eq(loop_of(*y),i,"integer + iterator"); eq(loop_of(*z),i,"iterator - integer");
        if(!(x == y) || !(x == z) || x != z) fail("range iterator equality","iterators to the same loop differ");
        if(w-x != dj-di || x-w != di-dj) fail("range iterator difference","wrong difference");
        if((x < w) != (i < j) || (x > w) != (i > j) || (x <= w) != (i <= j) || (x >= w) != (i >= j) || (x == w) != (i == j) || (x != w) != (i != j)) fail("range iterator order","iterators are ordered wrongly");
        w -= dj; if(!(w == b)) fail("range iterator -=","-= does not undo +=");
        It u = x; It p = u++; if(!(p == x) || u-x != 1) fail("range iterator ++","it++ is wrong");
        p = u--; if(p-x != 1 || !(u == x)) fail("range iterator --","it-- is wrong");
        ++u; if(u-x != 1) fail("range iterator ++","++it is wrong");
        --u; if(!(u == x)) fail("range iterator --","--it is wrong");
        if(x[std::ptrdiff_t(j < n ? dj-di : 0)].size() != ref[j < n ? j : i].size()) fail("range iterator operator[]","indexing relative to an iterator is wrong");
    }
    { std::size_t k = n; for(auto i=e; i!=b;) { --i; --k; eq(loop_of(*i),k,"backward iteration"); } if(k) fail("range backward iteration","wrong number"); }
    { std::size_t k = 0; for(auto &&l : range) { eq(loop_of(l),k,"range for"); ++k; } }
    // loops outlive the iterator they came from
    { std::vector<decltype(*b)> kept; for(auto i=b;i!=e;++i) kept.push_back(*i); for(std::size_t k=0;k<n;++k) eq(loop_of(kept[k]),k,"kept loop"); }
    stats.ctr[constant ? "const_ranges_checked" : "ranges_checked"]++;
    return ref;
}

template<typename R> void check_tree(Rng &r,R &&range,Loops &all,int depth) {
    auto &rr = range;
    Loops here = check_outer(r,rr,[](auto &&l) { return loop_of(l); },false);
    std::size_t k = 0;
    for(auto &&l : rr) {
        Loop x = check_loop(r,l); if(str(x) != str(here[k])) fail("tree loop","differs between passes"); ++k;
        all.push_back(x);
        stats.ctr[depth == 0 ? "tree_top" : "tree_inner"]++;
        check_tree(r,l.inner_loops(),all,depth+1);
    }
}
static std::string multiset_str(const Loops &ls) { std::vector<std::string> s; for(auto &l : ls) {
        std::size_t best = 0; for(std::size_t i=1;i<l.size();++i) { for(std::size_t k=0;k<l.size();++k) { auto &p = l[(i+k)%l.size()], &q = l[(best+k)%l.size()]; if(p.x != q.x || p.y != q.y) { if(p.x < q.x || (p.x == q.x && p.y < q.y)) best = i; break; } } }
        Loop c(l); std::rotate(c.begin(),c.begin()+std::ptrdiff_t(best),c.end()); s.push_back(str(c)); }
    std::sort(s.begin(),s.end()); std::string o; for(auto &x : s) o += x + ";"; return o; }

template<typename C,typename I,typename Tracker> void ranges_case(Rng &r,const Input &in,bool_op op) {
    iter_count = 0;
    auto s = to_pts<C>(in.s), cl = to_pts<C>(in.c);
    auto peek = [](auto &&l) { return loop_of(l); };
    auto each = [&](auto &range,const Loops &ref) { std::size_t k = 0; for(auto &&l : range) { Loop x = check_loop(r,l); if(str(x) != str(ref[k])) fail("loop","differs between passes"); ++k; } };
    Loops flat, tree;
    { // owned by the result
        auto res = po::boolean_op<false,C,I>(s,cl,op,Tracker{});
        flat = check_outer(r,res,peek,false); each(res,flat);
        const auto &cres = res;
        if constexpr(requires { cres.begin(); }) { Loops c2 = check_outer(r,cres,peek,true); if(str(c2) != str(flat)) fail("const range","a const result shows other loops"); }
        auto moved = std::move(res);
        if(r.chance(1,2)) { std::vector<char> junk(std::size_t(r.range(1,5000)),char(0x5a)); (void)junk; }
        Loops m = check_outer(r,moved,peek,false); if(str(m) != str(flat)) fail("moved range","a moved result shows other loops");
        auto onheap = std::make_unique<decltype(moved)>(std::move(moved));
        m = check_outer(r,*onheap,peek,false); if(str(m) != str(flat)) fail("moved range","a result moved to the heap shows other loops");
        // results as input
        if constexpr(std::is_same_v<Tracker,po::null_tracker<C,I>>) {
        iter_count = 0;
        Loops direct = loops_of(po::normalize_op<false,C,I>(*onheap));
        Loops copied = loops_of(po::normalize_op<false,C,I>(to_pts<C>(flat)));
        if(str(direct) != str(copied)) fail("result as input","a result range given back as input behaves differently from a copy of its points"); }
    }
    { // borrowed from the clipper
        iter_count = 0;
        po::tclipper<C,I,Tracker> c;
        c.add_loops(s,bool_set::subject); c.add_loops(cl,bool_set::clip);
        auto &&res = c.template execute<false>(op);
        Loops b = check_outer(r,res,peek,false); each(res,b);
        // iterators live on when the proxy of their loop is gone
        using Proxy = std::remove_cvref_t<decltype(*res.begin())>;
        if constexpr(!std::ranges::borrowed_range<Proxy>) fail("borrowed loop","a loop of a result is not a borrowed range");
        Loops late;
        for(auto i=res.begin();i!=res.end();++i) {
            auto ends = [&] { Proxy p = *i; return std::pair(std::ranges::begin(p),std::ranges::end(p)); }();
            std::vector<std::ranges::subrange<decltype(ends.first),decltype(ends.second)>> one{{ends.first,ends.second}};
            Loops l = loops_of(one); late.insert(late.end(),l.begin(),l.end());
        }
        if(str(late) != str(b)) fail("borrowed loop","the iterators of a loop give other points once its proxy is gone");
        if(multiset_str(b) != multiset_str(flat)) fail("borrowed range","the result borrowed from a clipper differs from the owned one");
    }
    { iter_count = 0;
        auto res = po::boolean_op<true,C,I>(s,cl,op,Tracker{});
        check_tree(r,res,tree,0);
        auto moved = std::move(res); Loops again; flatten(tree_of(moved),again);
        if(str(again) != str(tree)) fail("moved tree","a moved tree shows other loops");
    }
    { iter_count = 0;
        po::tclipper<C,I,Tracker> c; c.add_loops(s,bool_set::subject); c.add_loops(cl,bool_set::clip);
        auto &&res = c.template execute<true>(op);
        Loops b; check_tree(r,res,b,0);
        if(str(b) != str(tree)) fail("borrowed tree","the tree borrowed from a clipper differs from the owned one");
    }
    stats.sig(sig_of(flat,std::uint64_t(op)));
    if(flat.size() > 1) stats.ctr["results_with_several_loops"]++;
}

// --------------------------------------------------------- strided ranges

template<typename C,typename S> void strided(Rng &r) {
    // points_length points and loops_length loops laid out with arbitrary strides in one block
    std::size_t np = std::size_t(r.range(0,6)), nl = std::size_t(r.range(0,4));
    if(r.chance(3,4)) { np = std::size_t(r.range(3,6)); nl = std::size_t(r.range(1,4)); }
    std::ptrdiff_t unit = sizeof(S);
    // choose an order of the three axes and pad each
    std::ptrdiff_t st[3]; std::size_t len[3] = {2,np ? np : 1,nl ? nl : 1};
    int order[3] = {0,1,2}; for(int i=2;i>0;--i) std::swap(order[i],order[r.range(0,i)]);
    std::ptrdiff_t cur_s = unit * std::ptrdiff_t(r.range(1,2));
    for(int i=0;i<3;++i) { st[order[i]] = cur_s; cur_s = cur_s*std::ptrdiff_t(len[order[i]]) + unit*std::ptrdiff_t(r.range(0,2)); }
    for(auto &x : st) if(r.chance(1,3)) x = -x;
    std::ptrdiff_t lo = 0, hi = 0; for(int i=0;i<3;++i) { std::ptrdiff_t e = st[i]*std::ptrdiff_t(len[i]-1); (e < 0 ? lo : hi) += e; }
    std::size_t total = std::size_t((hi-lo)/unit)+1;
    std::unique_ptr<S[]> buf(new S[total]); // exact size: the address sanitizer sees anything outside
    for(std::size_t i=0;i<total;++i) buf[i] = static_cast<S>(r.range(std::is_signed_v<S> ? -50 : 0,100)) + (std::is_floating_point_v<S> ? static_cast<S>(double(r.range(0,3))/4) : S(0));
    const char *base = reinterpret_cast<const char*>(buf.get()) - lo;
    cur = "strided np=" + std::to_string(np) + " nl=" + std::to_string(nl) + " strides=" + std::to_string(st[0]) + "," + std::to_string(st[1]) + "," + std::to_string(st[2]) + " source size " + std::to_string(sizeof(S)) + " coord size " + std::to_string(sizeof(C));
    auto at = [&](std::size_t l,std::size_t p,std::size_t c) { S x; std::memcpy(&x,base + st[2]*std::ptrdiff_t(l) + st[1]*std::ptrdiff_t(p) + st[0]*std::ptrdiff_t(c),sizeof x); return static_cast<C>(x); };
    auto want = [&](std::size_t l,std::size_t p) { return point_t<C>(at(l,p,0),at(l,p,1)); };

    auto laws = [&](auto &&rng,std::size_t n,auto &&get,auto &&expect,const char *what) {
        std::string w(what);
        static_assert(std::ranges::forward_range<decltype(rng)>);
        if(std::size_t(std::ranges::distance(rng)) != n) fail(w + " length","length is " + std::to_string(std::ranges::distance(rng)));
        std::size_t k = 0;
        auto b = rng.begin(), e = rng.end();
        for(auto i=b;i!=e;++i) { if(k >= n) fail(w + " length","more elements than given"); expect(get(*i),k); ++k; }
        if(k != n) fail(w + " length","fewer elements than given");
        if constexpr(std::bidirectional_iterator<decltype(b)>) { k = n; for(auto i=e;i!=b;) { --i; --k; expect(get(*i),k); }
            auto i = b; for(std::size_t j=0;j<n;++j) { auto o = i++; expect(get(*o),j); } if(!(i == e)) fail(w + " increment","it++ does not reach the end");
            for(std::size_t j=n;j>0;--j) { auto keep = i; auto o = i--; if(!(o == keep) || o == i) fail(w + " decrement","it-- does not return the iterator to the same element"); expect(get(*i),j-1); }
            // the iterators below the ones of the range
            if constexpr(requires { b.base(); }) { auto u = b.base(); const auto u0 = u, ue = e.base();
                for(std::size_t j=0;j<n;++j) { auto keep = u; auto o = u++; if(!(o == keep) || o == u) fail(w + " base increment","base()++ does not return the iterator to the same element"); }
                if(!(u == ue)) fail(w + " base increment","base()++ does not reach the end");
                for(std::size_t j=n;j>0;--j) { auto keep = u; auto o = u--; if(!(o == keep) || o == u) fail(w + " base decrement","base()-- does not return the iterator to the same element"); }
                if(!(u == u0)) fail(w + " base decrement","base()-- does not reach the start");
                stats.ctr["strided_base_iterators"]++; }  stats.ctr["strided_bidirectional"]++; }
        if constexpr(std::random_access_iterator<decltype(b)>) stats.ctr["strided_random_access"]++;
        if constexpr(requires { b+1; e-b; b[0]; b < e; b += 1; }) {
            if(std::size_t(e-b) != n || b-e != -std::ptrdiff_t(n)) fail(w + " difference","end - begin is " + std::to_string(e-b));
            for(std::size_t t=0;n && t<6;++t) { auto i = std::ptrdiff_t(r.range(0,std::int64_t(n)-1)), j = std::ptrdiff_t(r.range(0,std::int64_t(n)));
                auto x = b+i, y = b+j;
                expect(get(*x),std::size_t(i)); expect(get(b[i]),std::size_t(i)); expect(get(*(e-(std::ptrdiff_t(n)-i))),std::size_t(i));
                if(y-x != j-i || (x<y) != (i<j) || (x>y) != (i>j) || (x==y) != (i==j) || (x<=y) != (i<=j) || (x>=y) != (i>=j)) fail(w + " order","iterators are ordered or subtracted wrongly: positions " + std::to_string(i) + "," + std::to_string(j) + " difference " + std::to_string(y-x));
                auto z = b; z += j; if(!(z == y)) fail(w + " +=","+= differs from +"); z -= j; if(!(z == b)) fail(w + " -=","-= does not undo +=");
            }
            stats.ctr["strided_arithmetic"]++;
        } };
    auto same_pt = [&](std::size_t l,const char *what) { return [&,l,what](const point_t<C> &p,std::size_t i) { if(!(p == want(l,i))) fail(std::string(what) + " element","element " + std::to_string(i) + " of loop " + std::to_string(l) + " is " + ps(p) + " instead of " + ps(want(l,i))); }; };
    if(nl) for(std::size_t l=0;l<nl;++l) {
        auto rng = po::blob_to_point_range<C,S>(base + st[2]*std::ptrdiff_t(l),st[0],st[1],np);
        laws(rng,np,[](auto &&p) { return point_t<C>(p); },same_pt(l,"point range"),"point range");
    }
    auto rr = po::blob_to_point_range_range<C,S>(base,st[0],st[1],st[2],np,nl);
    laws(rr,nl,[](auto &&x) { return x; },[&](auto &&x,std::size_t l) { std::size_t k = 0; for(auto &&p : x) { if(k >= np) fail("nested range length","too long"); same_pt(l,"nested range")(p,k); ++k; } if(k != np) fail("nested range length","too short"); },"range of ranges");
    { // the functor and mutable versions
        std::unique_ptr<char[]> mem(new char[64]); for(int i=0;i<64;++i) mem[std::size_t(i)] = char(i);
        std::size_t n = std::size_t(r.range(0,9)); std::ptrdiff_t s = std::ptrdiff_t(r.range(1,7)) * (r.chance(1,2) ? -1 : 1); std::size_t first = s < 0 ? 63 : 0;
        if(r.chance(1,2)) laws(po::make_strided_range(static_cast<const char*>(mem.get()+first),n,s,[](const char *p) { return int(*p); }),n,[](int x) { return x; },[&](int x,std::size_t i) { if(x != int(first)+int(s)*int(i)) fail("make_strided_range element","wrong element"); },"make_strided_range");
        else { for(auto &&c : po::make_strided_range(mem.get()+first,n,s,[](char *p) -> char& { return *p; })) c = 99;
            for(int i=0;i<64;++i) { bool hit = false; for(std::size_t k=0;k<n;++k) if(int(first)+int(s)*int(k) == i) hit = true; if((mem[std::size_t(i)] == 99) != hit) if(i != 99) fail("make_strided_range write","wrote to the wrong byte"); } }
    }
    // as input of an operation
    if(np && nl) {
        std::vector<std::vector<point_t<C>>> copy; for(std::size_t l=0;l<nl;++l) { copy.emplace_back(); for(std::size_t p=0;p<np;++p) copy.back().push_back(want(l,p)); }
        iter_count = 0;
        std::string a,b;
        int how = int(r.range(0,3));
        std::vector<std::vector<point_t<C>>> rect{{{C(0),C(0)},{C(60),C(0)},{C(60),C(40)},{C(0),C(40)}}};
        if(how == 0) { a = str(loops_of(po::union_op<false,C>(rr))); b = str(loops_of(po::union_op<false,C>(copy))); }
        else if(how == 1) { a = str(loops_of(po::boolean_op<false,C>(rr,rect,bool_op::difference))); b = str(loops_of(po::boolean_op<false,C>(copy,rect,bool_op::difference))); }
        else if(how == 2) { a = str(loops_of(po::normalize_op<false,C>(rr))); b = str(loops_of(po::normalize_op<false,C>(copy))); }
        else { C arc(2); a = str(loops_of(po::offset<false,C>(rr,3.0,arc,r.chance(1,2)))); (void)arc; b = a; // an offset only has to be possible here
            bool closed = r.chance(1,2); iter_count = 0; a = str(loops_of(po::offset<false,C>(rr,3.0,arc,closed))); b = str(loops_of(po::offset<false,C>(copy,3.0,arc,closed))); }
        if(a != b) fail("strided input","an operation on a strided range differs from the same on a copy: " + a + " instead of " + b);
        if(a.size() > 2) stats.ctr["strided_operations"]++;
    }
    if(st[1] < 0 || st[2] < 0 || st[0] < 0) stats.ctr["negative_strides"]++;
    stats.sig(hash_str(cur.c_str()));
}

// ----------------------------------------- the container of tracked origins

struct CountRes : std::pmr::memory_resource {
    std::map<void*,std::pair<std::size_t,std::size_t>> live; std::size_t total = 0;
    void *do_allocate(std::size_t n,std::size_t a) override { void *p = std::pmr::new_delete_resource()->allocate(n,a); live[p] = {n,a}; ++total; return p; }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override { auto i = live.find(p); if(i == live.end()) fail("origin memory","released a block it did not get"); if(i->second != std::pair{n,a}) fail("origin memory","released a block with another size"); live.erase(i); std::pmr::new_delete_resource()->deallocate(p,n,a); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
    ~CountRes() { for(auto &[p,x] : live) std::pmr::new_delete_resource()->deallocate(p,x.first,x.second); }
};

template<typename I> void otset(Rng &r) {
    CountRes res;
    int nops = int(r.range(1,r.chance(1,6) ? 400 : 60));
    int style = int(r.range(0,4)); // how values repeat and how merges chain
    cur = "origin history, index size " + std::to_string(sizeof(I)) + " ops=" + std::to_string(nops) + " style=" + std::to_string(style) + ":";
    {
        bool own = r.chance(2,3);
        auto tr = own ? std::make_unique<po::origin_point_tracker<I>>(&res) : std::make_unique<po::origin_point_tracker<I>>();
        po::i_point_tracker<I> *cb = tr->callbacks();
        std::vector<std::set<I>> model; std::vector<bool> gone;
        std::uint64_t merges = 0; std::size_t biggest = 0;
        I counter = 0;
        auto verify = [&](std::size_t i) {
            point_t<std::int32_t> p{int(i),-int(i)};
            auto v = tr->template get_value<std::int32_t>(static_cast<I>(i),p);
            if(!(v.p == p)) fail("origin value point","get_value changes the point");
            std::vector<I> got(v.original_points.begin(),v.original_points.end()), exp(model[i].begin(),model[i].end());
            if(got != exp) { std::string a,b; for(auto x : got) a += std::to_string(x) + " "; for(auto x : exp) b += std::to_string(x) + " ";
                fail("origin set","the origins of point " + std::to_string(i) + " are {" + a + "} instead of {" + b + "}"); }
            biggest = std::max(biggest,exp.size());
            stats.ctr["origin_sets_compared"]++;
        };
        for(int o=0;o<nops;++o) {
            int k = int(r.range(0,20));
            if(model.size() < 2 || k < 8) {
                I val = style == 0 ? counter++ : style == 1 ? static_cast<I>(r.range(0,4)) : style == 2 ? static_cast<I>(r.next()) : style == 3 ? static_cast<I>(std::numeric_limits<I>::max() - counter++) : static_cast<I>(r.range(0,100));
                cb->point_added(val); model.push_back({val}); gone.push_back(false); cur += " +" + std::to_string(val);
            } else if(k < 11) {
                cb->new_point_between(static_cast<I>(r.range(0,std::int64_t(model.size())-1)),static_cast<I>(r.range(0,std::int64_t(model.size())-1)));
                model.push_back({}); gone.push_back(false); cur += " |";
            } else if(k < 19) {
                std::size_t a = std::size_t(r.range(0,std::int64_t(model.size())-1)), b = std::size_t(r.range(0,std::int64_t(model.size())-1));
                if(r.chance(1,3)) b = (a+1) % model.size();
                if(a == b || gone[a] || gone[b]) continue;
                cb->point_merge(static_cast<I>(a),static_cast<I>(b)); model[b].insert(model[a].begin(),model[a].end()); gone[a] = true; ++merges; cur += " " + std::to_string(a) + ">" + std::to_string(b);
                verify(b);
            } else if(k < 20 && r.chance(1,4)) {
                cur += " reset"; cb->reset(); model.clear(); gone.clear();
                if(own && !res.live.empty()) { /* capacity of the vector may stay, sets may not */ if(res.live.size() > 1) fail("origin reset","reset keeps the sets' memory"); }
            } else if(r.chance(1,4)) {
                cur += " move"; auto t2 = std::make_unique<po::origin_point_tracker<I>>(std::move(*tr)); tr = std::move(t2); cb = tr->callbacks();
            } else { std::size_t i = std::size_t(r.range(0,std::int64_t(model.size())-1)); if(!gone[i]) verify(i); }
        }
        for(std::size_t i=0;i<model.size();++i) if(!gone[i]) verify(i);
        if(biggest > 2) stats.ctr["origin_sets_big"]++;
        if(merges) stats.sig(hash_str(cur.c_str()));
        stats.ctr["merges"] += merges;
        if(own && model.size() > 1 && res.total == 0) fail("origin memory","the tracker ignores the memory resource it was given");
    }
    if(!res.live.empty()) fail("origin memory leak",std::to_string(res.live.size()) + " blocks are still held after the tracker is gone");
}

// The container itself: every way of changing a set, compared with std::set; failing allocations leave valid sets.
struct FailRes : std::pmr::memory_resource {
    std::map<void*,std::pair<std::size_t,std::size_t>> live; long fail_at = -1; std::uint64_t failed = 0;
    void *do_allocate(std::size_t n,std::size_t a) override {
        if(fail_at > 0 && --fail_at == 0) { fail_at = -1; ++failed; throw std::bad_alloc(); }
        void *p = ::operator new(n,std::align_val_t(a)); std::memset(p,0xa5,n); live[p] = {n,a}; return p; }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override {
        auto i = live.find(p); if(i == live.end()) fail("container memory","released a block it did not get, or twice");
        if(i->second != std::pair{n,a}) fail("container memory","released a block with another size");
        live.erase(i); ::operator delete(p,std::align_val_t(a)); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

template<typename I> void flatset(Rng &r) {
    using A = std::pmr::polymorphic_allocator<I>;
    using S = po::detail::mini_flat_set<I,A>;
    FailRes res; A al(&res);
    constexpr int K = 4;
    std::vector<std::unique_ptr<S>> s; std::vector<std::set<I>> m(K);
    for(int i=0;i<K;++i) s.push_back(r.chance(1,2) ? std::make_unique<S>() : std::make_unique<S>(al));
    int span = int(r.range(1,40)); bool faults = r.chance(1,3);
    int nops = int(r.range(1,r.chance(1,8) ? 150 : 30));
    cur = "container history, index size " + std::to_string(sizeof(I)) + (faults ? ", allocations may fail:" : ":");
    auto content = [&](int i) { std::vector<I> v(std::as_const(*s[i]).begin(),std::as_const(*s[i]).end()); return v; };
    auto check = [&](int i) {
        auto v = content(i); std::vector<I> e(m[i].begin(),m[i].end());
        if(v != e || s[i]->size() != e.size() || s[i]->empty() != e.empty()) { std::string a,b; for(auto x : v) a += std::to_string(x) + " "; for(auto x : e) b += std::to_string(x) + " ";
            fail("container content","set " + std::to_string(i) + " holds {" + a + "} instead of {" + b + "}"); }
        stats.ctr["containers_compared"]++;
    };
    auto value = [&]() { return static_cast<I>(r.range(0,span)); };
    for(int o=0;o<nops;++o) {
        int i = int(r.range(0,K-1)), j = int(r.range(0,K-2)); if(j >= i) ++j;
        int k = int(r.range(0,9));
        std::set<I> allowed = m[i]; allowed.insert(m[j].begin(),m[j].end());
        std::vector<I> vals;
        if(faults && r.chance(1,3)) res.fail_at = long(r.range(1,2));
        try {
            if(k < 3) {
                I x = value(); allowed.insert(x); cur += " " + std::to_string(i) + "+" + std::to_string(x);
                auto [it,fresh] = s[i]->insert(al,x);
                bool was = !m[i].insert(x).second;
                if(fresh == was) fail("container insert","insert() reports the wrong success");
                if(it < s[i]->begin() || it >= s[i]->end() || *it != x) fail("container insert","insert() does not return the position of the value");
            } else if(k < 6) {
                int n = int(r.range(0,r.chance(1,4) ? 30 : 5)); for(int q=0;q<n;++q) vals.push_back(value());
                if(r.chance(1,4)) std::sort(vals.begin(),vals.end());
                allowed.insert(vals.begin(),vals.end());
                cur += " " + std::to_string(i) + (k == 3 ? "+input{" : "+{"); for(auto x : vals) cur += std::to_string(x) + ","; cur += "}";
                if(k == 3) { std::stringstream st; for(auto x : vals) st << x << ' '; s[i]->insert(al,std::istream_iterator<I>(st),std::istream_iterator<I>()); }
                else s[i]->insert(al,vals.begin(),vals.end());
                m[i].insert(vals.begin(),vals.end());
            } else if(k == 6) {
                cur += " " + std::to_string(i) + "|=" + std::to_string(j);
                s[i]->merge(al,*s[j]); m[i].insert(m[j].begin(),m[j].end());
                // what is left of the other set is not specified, but it is a set
                auto v = content(j); if(!std::is_sorted(v.begin(),v.end()) || std::adjacent_find(v.begin(),v.end()) != v.end()) fail("container merge","the other set is no longer sorted and distinct");
                for(auto x : v) if(!m[i].count(x)) fail("container merge","the other set holds a value from elsewhere");
                m[j] = {v.begin(),v.end()};
            } else if(k == 7) {
                if(r.chance(1,2)) { cur += " " + std::to_string(i) + "=" + std::to_string(j); s[i]->assign(al,std::as_const(*s[j])); m[i] = m[j]; }
                else { cur += " " + std::to_string(i) + "=move(" + std::to_string(j) + ")"; s[i]->assign(al,std::move(*s[j])); m[i] = m[j]; auto v = content(j); m[j] = {v.begin(),v.end()};
                    for(auto x : v) if(!m[i].count(x)) fail("container move","the source of a move holds foreign values"); }
            } else if(k == 8) {
                cur += " swap(" + std::to_string(i) + "," + std::to_string(j) + ")"; swap(*s[i],*s[j]); std::swap(m[i],m[j]);
            } else {
                bool mv = r.chance(1,2); cur += std::string(mv ? " moved " : " copied ") + std::to_string(i);
                auto t = mv ? (r.chance(1,2) ? std::make_unique<S>(std::move(*s[i])) : std::make_unique<S>(al,std::move(*s[i]))) : std::make_unique<S>(al,std::as_const(*s[i]));
                s[i]->destroy(al); s[i] = std::move(t);
            }
            res.fail_at = -1;
        } catch(const std::bad_alloc&) {
            cur += "(failed)";
            for(int q : {i,j}) {
                auto v = content(q);
                if(!std::is_sorted(v.begin(),v.end()) || std::adjacent_find(v.begin(),v.end()) != v.end()) fail("container failure","a set is not sorted and distinct after a failed allocation");
                for(auto x : v) if(!allowed.count(x)) fail("container failure","a set holds a foreign value after a failed allocation");
                m[q] = {v.begin(),v.end()};
            }
            stats.ctr["container_failures"]++;
        }
        check(i); check(j);
    }
    std::size_t big = 0;
    for(int i=0;i<K;++i) { check(i); big = std::max(big,m[i].size()); s[i]->destroy(al); }
    if(big > 1) stats.sig(hash_str(cur.c_str()));
    if(!res.live.empty()) fail("container memory leak",std::to_string(res.live.size()) + " blocks are still held after the sets are gone");
}

// ------------------------------------------------------------------- main

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
#if !defined(PART) || PART == 1
    if(args.mode == "pred") return run_cases([](Rng &r,std::uint64_t i) {
        for(int k=0;k<8;++k) switch(i%3) { case 0: pred<std::int32_t>(r); break; case 1: pred<std::int64_t>(r); break; default: pred<std::int16_t>(r); } },witness);
#endif
#if !defined(PART) || PART == 2
    if(args.mode == "strided") return run_cases([](Rng &r,std::uint64_t i) {
        switch(i%7) { case 0: strided<std::int32_t,std::int32_t>(r); break; case 1: strided<std::int64_t,std::int32_t>(r); break; case 2: strided<std::int32_t,std::int8_t>(r); break;
            case 3: strided<std::int32_t,double>(r); break; case 4: strided<std::int64_t,std::uint16_t>(r); break; case 5: strided<std::int32_t,std::int64_t>(r); break; default: strided<std::int64_t,float>(r); } },witness);
#endif
#if !defined(PART) || PART == 3
    if(args.mode == "otset") return run_cases([](Rng &r,std::uint64_t i) {
        if(i%3 == 2) { switch(i/3%4) { case 0: flatset<std::size_t>(r); break; case 1: flatset<std::uint32_t>(r); break; case 2: flatset<std::uint16_t>(r); break; default: flatset<int>(r); } return; }
        switch(i%4) { case 0: otset<std::size_t>(r); break; case 1: otset<std::uint32_t>(r); break; case 2: otset<std::uint16_t>(r); break; default: otset<int>(r); } },witness);
#endif
#if !defined(PART) || PART == 4
    if(args.mode == "ranges") return run_cases([](Rng &r,std::uint64_t i) {
        Input in = gen_general(r,1000,int(r.range(0,1)));
        bool_op op = static_cast<bool_op>(r.range(0,4));
        cur = std::string(op_name(op)) + " " + in.str();
#ifdef FEW
        if(i%2) ranges_case<std::int64_t,std::size_t,po::null_tracker<std::int64_t,std::size_t>>(r,in,op);
        else ranges_case<std::int32_t,std::uint16_t,po::origin_point_tracker<std::uint16_t>>(r,in,op);
        return;
#else
        switch(i%6) {
        case 0: ranges_case<std::int32_t,std::size_t,po::null_tracker<std::int32_t,std::size_t>>(r,in,op); break;
        case 1: ranges_case<std::int64_t,std::size_t,po::null_tracker<std::int64_t,std::size_t>>(r,in,op); break;
        case 2: ranges_case<std::int32_t,std::uint32_t,po::null_tracker<std::int32_t,std::uint32_t>>(r,in,op); break;
        case 3: ranges_case<std::int32_t,std::uint16_t,po::origin_point_tracker<std::uint16_t>>(r,in,op); break;
        case 4: ranges_case<std::int32_t,int,po::null_tracker<std::int32_t,int>>(r,in,op); break;
        default: ranges_case<std::int64_t,std::size_t,po::origin_point_tracker<std::size_t>>(r,in,op); }
#endif
        },witness);
#endif
    return 2;
}
