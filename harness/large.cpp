// Wide integer arithmetic against an independent bignum (boost cpp_int).
// modes: arith (add sub neg abs compare shift convert), mul, div, geo (the exact
// predicates built on it)
#include "vcommon.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <poly_ops/large_ints.hpp>
using namespace v;
namespace li = poly_ops::large_ints;
using Big = boost::multiprecision::cpp_int;

static std::string cur;
static std::string witness() { return cur; }
static std::string S(const Big &b) { return b.str(); }

template<typename T> Big big(const T &x) {
    if constexpr(std::is_integral_v<T>) return Big(x);
    else {
        Big r = 0;
        constexpr unsigned n = sizeof(T)/8;
        for(unsigned i=n;i>0;--i) { r <<= 64; r += Big(x[i-1]); }
        if constexpr(li::detail::signed_type<T>) { if(std::int64_t(x[n-1]) < 0) r -= Big(1) << (64*n); }
        return r;
    }
}
template<typename T> constexpr unsigned bits() { return sizeof(T)*8; }
template<typename T> constexpr bool sgn() { return li::detail::signed_type<T>; }
static Big wrap(Big x,unsigned nbits,bool s) {
    Big m = Big(1) << nbits;
    x %= m; if(x < 0) x += m;
    if(s && x >= (m >> 1)) x -= m;
    return x;
}
template<typename T> bool fits(const Big &x) { return wrap(x,bits<T>(),sgn<T>()) == x; }

static std::uint64_t word(Rng &r) {
    switch(r.range(0,10)) {
    case 0: case 1: return 0;
    case 2: case 3: return ~0ull;
    case 4: return 1ull << r.range(0,63);
    case 5: return (1ull << r.range(0,63)) - 1;
    case 6: return ~0ull << r.range(0,63);
    case 7: return std::uint64_t(r.range(-3,3));
    case 8: return r.next() >> r.range(0,63);
    default: return r.next();
    }
}
template<typename T> T gen(Rng &r) {
    if constexpr(std::is_integral_v<T>) return static_cast<T>(word(r));
    else {
        T x;
        constexpr unsigned n = sizeof(T)/8;
        for(unsigned i=0;i<n;++i) x[i] = word(r);
        if(r.chance(1,3)) { // small magnitude
            unsigned k = unsigned(r.range(0,n-1));
            std::uint64_t f = li::detail::signed_type<T> && r.chance(1,2) ? ~0ull : 0;
            for(unsigned i=n-k;i<n;++i) x[i] = f;
        }
        return x;
    }
}
template<typename T> const char *tname() {
    static std::string n = std::string(std::is_integral_v<T> ? "int" : "wide") + (sgn<T>()?"-s":"-u") + std::to_string(bits<T>());
    return n.c_str();
}
#define CHECK_EQ(what,got,want) do { Big g_ = (got), w_ = (want); stats.ctr["results_compared"]++; \
    if(g_ != w_) throw Viol{std::string(what), std::string(what) + " gives " + S(g_) + ", exact value is " + S(w_)}; } while(0)
#define CHECK(what,cond) do { stats.ctr["results_compared"]++; if(!(cond)) throw Viol{std::string(what),std::string(what) + " is wrong"}; } while(0)

template<typename A,typename B> void set_cur(const A &a,const B &b) {
    cur = std::string(tname<A>()) + " " + S(big(a)) + " , " + tname<B>() + " " + S(big(b));
    stats.ctr[std::string("operands_") + (sgn<A>()?"s":"u") + (sgn<B>()?"s":"u")]++;
}

template<typename F> void check_float(const Big &x,F got) {
    // exact comparison: |got - x| <= |x| * 2^-(digits-3)
    Big g(got);
    Big e = g > x ? g - x : x - g, m = x < 0 ? -x : x;
    stats.ctr["float_conversions"]++;
    if((e << (std::numeric_limits<F>::digits - 3)) > m)
        throw Viol{"to-float","conversion to floating point gives " + S(g) + " for " + S(x)};
}

template<typename A> void unary(const A &a,Rng &r) {
    Big x = big(a);
    cur = std::string(tname<A>()) + " " + S(x);
    constexpr unsigned W = bits<A>();
    constexpr bool sg = sgn<A>();
    unsigned amount = unsigned(r.range(0,W-1));
    if(r.chance(1,4)) amount = amount / 64 * 64;
    if(r.chance(1,8)) amount = W-1;
    cur += " amount " + std::to_string(amount);
    if constexpr(!std::is_integral_v<A>) {
        CHECK_EQ("shift-right",big(a >> (unsigned char)amount),x >= 0 ? Big(x >> amount) : Big(-((-x - 1) >> amount) - 1));
        CHECK_EQ("shift-left",big(a << (unsigned char)amount),wrap(x << amount,W,sg));
        A t = a; t >>= (unsigned char)amount;
        CHECK_EQ("shift-right-assign",big(t),x >= 0 ? Big(x >> amount) : Big(-((-x - 1) >> amount) - 1));
        t = a; t <<= (unsigned char)amount;
        CHECK_EQ("shift-left-assign",big(t),wrap(x << amount,W,sg));
        if constexpr(sg) if(x != -(Big(1) << (W-1))) CHECK_EQ("negate",big(A(-a)),wrap(-x,W,true));
        CHECK("bool",bool(a) == (x != 0));
        CHECK("negative",li::negative(a) == (x < 0));
        CHECK_EQ("to-int64",Big(static_cast<std::int64_t>(a)),wrap(x,64,true));
        CHECK_EQ("to-uint64",Big(static_cast<std::uint64_t>(a)),wrap(x,64,false));
        CHECK_EQ("to-int32",Big(static_cast<std::int32_t>(a)),wrap(x,32,true));
        CHECK_EQ("to-uint16",Big(static_cast<std::uint16_t>(a)),wrap(x,16,false));
#if _POLY_OPS_IMPL_HAVE_INT128BIT
        {
            __int128 v = static_cast<__int128>(a);
            Big g = Big(std::int64_t(v >> 64)) * (Big(1) << 64) + Big(std::uint64_t(v));
            CHECK_EQ("to-int128",g,wrap(x,128,true));
        }
#endif
        if(x == wrap(x,W,sg)) {
            if(!(sg && x == -(Big(1) << (W-1)))) {
                check_float<double>(x,static_cast<double>(a));
                check_float<long double>(x,static_cast<long double>(a));
                if(W <= 64 || (x < (Big(1) << 120) && x > -(Big(1) << 120))) check_float<float>(x,static_cast<float>(a));
            }
        }
        int lz = li::countl_zero(a);
        Big ux = wrap(x,W,false); int want = W; while(ux != 0) { ux >>= 1; --want; }
        CHECK("countl_zero",lz == want);
    }
    if constexpr(!std::is_integral_v<A> || sizeof(A) >= 4)
        if(x != -(Big(1) << (W-1))) CHECK_EQ("abs",big(li::abs(a)),x < 0 ? Big(-x) : x);
}

template<typename A,typename B> void arith(Rng &r) {
    A a = gen<A>(r); B b = gen<B>(r);
    if(r.chance(1,6)) { // near-equal operands
        if constexpr(!std::is_integral_v<A> && !std::is_integral_v<B>) {
            for(unsigned i=0;i<std::min(sizeof(A),sizeof(B))/8;++i) b[i] = a[i];
            if(r.chance(1,2)) b[unsigned(r.range(0,sizeof(B)/8-1))] += std::uint64_t(r.range(-1,1));
        }
    }
    unary(a,r);
    set_cur(a,b);
    Big x = big(a), y = big(b);
    { auto s = a + b; CHECK_EQ("add",big(s),wrap(x+y,bits<decltype(s)>(),sgn<decltype(s)>()));
      if constexpr(sgn<A>() || sgn<B>()) CHECK("add-signedness",(sgn<decltype(s)>()));
      auto s2 = li::add(b,a); CHECK_EQ("add-swapped",big(s2),wrap(x+y,bits<decltype(s2)>(),sgn<decltype(s2)>())); }
    { auto s = a - b; CHECK_EQ("subtract",big(s),wrap(x-y,bits<decltype(s)>(),sgn<decltype(s)>()));
      auto s2 = li::sub(b,a); CHECK_EQ("subtract-swapped",big(s2),wrap(y-x,bits<decltype(s2)>(),sgn<decltype(s2)>())); }
    if constexpr(requires(A t,B u) { t += u; } && !std::is_integral_v<A>) {
        A t = a; t += b; CHECK_EQ("add-assign",big(t),wrap(x+y,bits<A>(),sgn<A>()));
        t = a; t -= b; CHECK_EQ("subtract-assign",big(t),wrap(x-y,bits<A>(),sgn<A>()));
    }
    auto c = li::cmp(a,b), c2 = li::cmp(b,a);
    CHECK("compare",(c < 0) == (x < y) && (c > 0) == (x > y) && (c == 0) == (x == y));
    CHECK("compare-swapped",(c2 < 0) == (y < x) && (c2 > 0) == (y > x) && (c2 == 0) == (x == y));
    if constexpr(!std::is_integral_v<A>) {
        CHECK("equality",(a == b) == (x == y));
        CHECK("less-than",(a < b) == (x < y));
        CHECK("greater-equal",(a >= b) == (x >= y));
    }
    CHECK("eq-function",li::eq(a,b) == (x == y));
    if constexpr(!std::is_integral_v<A>) { // conversion between widths
        A conv(b);
        CHECK_EQ("convert",big(conv),wrap(y,bits<A>(),sgn<A>()));
    }
    stats.sig(mix64(hash_str(cur.c_str())));
    stats.sample(cur);
}
// combinations the library does not offer do not compile; they are left out
template<typename A,typename B> constexpr bool has_mul() {
    constexpr bool sg = sgn<A>() || sgn<B>();
    constexpr unsigned na = li::detail::int_count<sg,A>, nb = li::detail::int_count<sg,B>;
    if(sg) return !(std::is_integral_v<A> && na > 1) && !(std::is_integral_v<B> && nb > 1);
    return na == 1 && nb == 1 || na > 1 && nb > 1;
}
template<typename A,typename B> void mulm(Rng &r) {
    if constexpr(has_mul<A,B>()) {
    A a = gen<A>(r); B b = gen<B>(r);
    set_cur(a,b);
    auto p = li::mul(a,b);
    CHECK_EQ("multiply",big(p),big(a)*big(b));
    if constexpr(!std::is_integral_v<A>) { auto q = a * b; CHECK_EQ("multiply-operator",big(q),big(a)*big(b)); }
    stats.sig(mix64(hash_str(cur.c_str())));
    stats.sample(cur);
    }
}
// the mode called "euclid": the quotient is rounded down and the remainder is
// what was cut off, as a non-negative multiple of 1/|y|
static void euclid(const Big &x,const Big &y,Big &q,Big &m) {
    q = x / y; m = x % y;
    if(m != 0 && ((m < 0) != (y < 0))) { q -= 1; m += y; }
    if(m < 0) m = -m;
}
template<typename A,typename B> void divm(Rng &r) {
    A a = gen<A>(r); B b = gen<B>(r);
    Big y = big(b);
    if(y == 0) return;
    if(r.chance(1,4)) { // exact multiples
        Big k = Big(r.range(-1000,1000));
        Big t = k*y;
        if(fits<A>(t)) {
            if constexpr(std::is_integral_v<A>) a = static_cast<A>(static_cast<long long>(wrap(t,64,true)));
            else for(unsigned i=0;i<sizeof(A)/8;++i) a[i] = static_cast<std::uint64_t>(wrap(t >> (64*i),64,false));
        }
    }
    Big x = big(a);
    set_cur(a,b);
    using Q = decltype(li::divmod(a,b).quot);
    if(!fits<Q>(x/y)) return; // the only quotient that does not fit: minimum / -1
    auto dm = li::divmod(a,b);
    CHECK_EQ("divide",big(dm.quot),x / y);
    CHECK_EQ("remainder",big(dm.rem),x % y);
    { Big q,m; euclid(x,y,q,m);
      auto de = li::divmod(a,b,li::modulo_t::euclid);
      if(fits<Q>(q)) { CHECK_EQ("floor-divide",big(de.quot),q); CHECK_EQ("floor-remainder",big(de.rem),m); } }
    if constexpr(!std::is_integral_v<A>) CHECK_EQ("divide-operator",big(a / b),x / y);
    // unmul with a quotient known to fit
    {
        auto f = [&]<unsigned Nr>() {
            using QR = li::compound_xint<Nr,(sgn<A>() || sgn<B>())>;
            if(fits<QR>(x/y) && fits<QR>(x/y - 1) && fits<QR>(x/y + 1)) {
                stats.ctr["unmul_checked"]++;
                auto u = li::unmul<Nr>(a,b);
                CHECK_EQ("unmul",big(u.quot),x / y);
                CHECK_EQ("unmul-remainder",big(u.rem),x % y);
                Big q,m; euclid(x,y,q,m);
                auto ue = li::unmul<Nr>(a,b,li::modulo_t::euclid);
                CHECK_EQ("unmul-floor",big(ue.quot),q);
                CHECK_EQ("unmul-floor-remainder",big(ue.rem),m);
            }
        };
        f.template operator()<1>();
        f.template operator()<2>();
    }
    stats.sig(mix64(hash_str(cur.c_str())));
    stats.sample(cur);
}

#define PAIRS_WIDE(F,A) &F<A,li::compound_int<1>>,&F<A,li::compound_int<2>>,&F<A,li::compound_int<3>>,&F<A,li::compound_int<4>>, \
    &F<A,li::compound_uint<1>>,&F<A,li::compound_uint<2>>,&F<A,li::compound_uint<3>>
#define PAIRS(F,A) PAIRS_WIDE(F,A), &F<A,std::int64_t>,&F<A,std::uint64_t>,&F<A,std::int32_t>,&F<A,std::uint32_t>
using Fn = void(*)(Rng&);
#ifdef PART_ARITH
static const std::vector<Fn> fns{ PAIRS(arith,li::compound_int<1>), PAIRS(arith,li::compound_int<2>), PAIRS(arith,li::compound_int<3>), PAIRS(arith,li::compound_int<4>),
    PAIRS(arith,li::compound_uint<1>), PAIRS(arith,li::compound_uint<2>), PAIRS(arith,li::compound_uint<3>), PAIRS_WIDE(arith,std::int64_t), PAIRS_WIDE(arith,std::int32_t), PAIRS_WIDE(arith,std::uint64_t) };
#elif defined(PART_MUL)
static const std::vector<Fn> fns{ PAIRS(mulm,li::compound_int<1>), PAIRS(mulm,li::compound_int<2>), PAIRS(mulm,li::compound_int<3>), PAIRS(mulm,li::compound_int<4>),
    PAIRS(mulm,li::compound_uint<1>), PAIRS(mulm,li::compound_uint<2>), PAIRS(mulm,li::compound_uint<3>),
    &mulm<std::int32_t,std::int32_t>, &mulm<std::int64_t,std::int64_t>, &mulm<std::int64_t,std::int32_t>, &mulm<std::int32_t,std::int64_t>, &mulm<std::int16_t,std::int16_t>,
    &mulm<std::uint64_t,std::uint64_t>, &mulm<std::int64_t,std::uint64_t>, &mulm<std::uint32_t,std::uint32_t>, &mulm<std::int16_t,std::int32_t> };
#else
static const std::vector<Fn> fns{ PAIRS(divm,li::compound_int<1>), PAIRS(divm,li::compound_int<2>), PAIRS(divm,li::compound_int<3>), PAIRS(divm,li::compound_int<4>),
    PAIRS(divm,li::compound_uint<1>), PAIRS(divm,li::compound_uint<2>), PAIRS(divm,li::compound_uint<3>), PAIRS_WIDE(divm,std::int64_t), PAIRS_WIDE(divm,std::int32_t) };
#endif

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    return run_cases([](Rng &r,std::uint64_t i) { fns[i % fns.size()](r); for(int k=0;k<30;++k) fns[std::size_t(r.range(0,std::int64_t(fns.size())-1))](r); },witness);
}
