// The rasterizer's spans against the exact winding number on every scan line.
#include "geom.hpp"
#ifdef VERIF_ASSERTS
#define POLY_OPS_ASSERT(X) do { if(!(X)) throw v::AssertFail{#X,"poly_ops",__LINE__}; } while(0)
#endif
#include <poly_ops/polydraw.hpp>
using namespace v;
using poly_ops::draw::fill_rule_t;

static Input cur;
static std::string cur_out;
static unsigned W,H;
static std::string witness() { return cur.str() + " size " + std::to_string(W) + "x" + std::to_string(H) + " " + cur_out; }

struct Span { std::int64_t x1,x2; long w; bool operator==(const Span&) const = default; };
using Rows = std::map<unsigned,std::vector<Span>>;
static void normalize(std::vector<Span> &s,unsigned y) {
    std::sort(s.begin(),s.end(),[](const Span &a,const Span &b){ return a.x1 != b.x1 ? a.x1 < b.x1 : a.x2 < b.x2; });
    std::vector<Span> r;
    for(auto &x : s) {
        if(!r.empty() && r.back().x2 > x.x1) throw Viol{"overlapping-spans","spans overlap on row " + std::to_string(y)};
        if(!r.empty() && r.back().x2 == x.x1 && r.back().w == x.w) r.back().x2 = x.x2;
        else r.push_back(x);
    }
    s = r;
}

// exact: x intercept of an edge on row y as a fraction
struct Cross { i128 num; std::int64_t den; int d; };
static bool less(const Cross &a,const Cross &b) { return a.num * b.den < b.num * a.den; }
static Rows expected(const Loops &ls) {
    Rows rows;
    auto es = edges_of(ls);
    for(unsigned y=0;y<H;++y) {
        std::vector<Cross> c;
        for(auto &e : es) {
            P a = e.a, b = e.b; int d = 1;
            if(a.y == b.y) continue;
            if(a.y > b.y) { std::swap(a,b); d = -1; }
            if(std::int64_t(y) < a.y || std::int64_t(y) >= b.y) continue;
            std::int64_t den = b.y - a.y;
            c.push_back({i128(a.x)*den + i128(b.x-a.x)*(y - a.y),den,d});
        }
        std::sort(c.begin(),c.end(),less);
        long w = 0;
        stats.ctr["rows_checked"]++;
        for(std::size_t i=0;i+1<c.size();++i) {
            w -= c[i].d; // upward edge (towards smaller y) on the left of a clockwise region
            if(w == 0) continue;
            auto px = [&](const Cross &k) { i128 q = k.num / k.den; return std::int64_t(q < 0 ? 0 : q > i128(W-1) ? i128(W-1) : q); };
            std::int64_t x1 = px(c[i]), x2 = px(c[i+1]);
            if(x1 < x2) rows[y].push_back({x1,x2,w});
        }
    }
    for(auto &[y,s] : rows) normalize(s,y);
    return rows;
}
static void check_span(unsigned x1,unsigned x2,unsigned y) {
    if(x2 >= W || x1 > x2 || y >= H) {
        if(y >= H || x1 >= W || x2 >= W) throw Viol{"span-out-of-bounds","span " + std::to_string(x1) + ".." + std::to_string(x2) + " on row " + std::to_string(y)};
        throw Viol{"span-reversed","span " + std::to_string(x1) + ".." + std::to_string(x2) + " on row " + std::to_string(y)};
    }
}
static std::string str(const std::vector<Span> &s) { std::string r; for(auto &x : s) r += "[" + std::to_string(x.x1) + "," + std::to_string(x.x2) + ")w" + std::to_string(x.w) + " "; return r; }
static void compare(const Rows &got,const Rows &want,const char *what) {
    for(unsigned y=0;y<H;++y) {
        auto g = got.find(y), w = want.find(y);
        std::vector<Span> gs = g == got.end() ? std::vector<Span>{} : g->second, ws = w == want.end() ? std::vector<Span>{} : w->second;
        if(gs != ws) throw Viol{what,"row " + std::to_string(y) + ": spans " + str(gs) + "expected " + str(ws)};
        stats.ctr["spans_compared"] += ws.size();
        for(auto &s : ws) stats.ctr[std::abs(s.w) > 1 ? "spans_multiple_winding" : s.w < 0 ? "spans_negative_winding" : "spans_single_winding"]++;
    }
}

template<typename C> static std::vector<std::vector<poly_ops::point_t<C>>> pts(const Loops &ls) {
    std::vector<std::vector<poly_ops::point_t<C>>> r;
    for(auto &l : ls) { r.emplace_back(); for(auto &p : l) r.back().push_back({static_cast<C>(p.x),static_cast<C>(p.y)}); }
    return r;
}
template<typename C> static void run(Rng &r) {
    Loops all = cur.s; all.insert(all.end(),cur.c.begin(),cur.c.end());
    Rows want = expected(clean(all));
    poly_ops::draw::rasterizer<C> rast;
    int rounds = r.chance(1,4) ? 2 : 1;
    if(r.chance(1,4)) { // an unrelated polygon first, then clear
        Loops junk{gen_random_loop(r,5,0,20)};
        rast.add_loops(pts<C>(junk));
        if(r.chance(1,2)) { poly_ops::draw::scan_line sc; auto st = rast.scan_lines(W,H); int k = int(r.range(0,12)); while(k-- > 0 && st(rast,sc)); stats.ctr["abandoned_scans"]++; if(r.chance(1,2)) rast.clear(); }
        else rast.clear();
    }
    if(r.chance(1,3)) rast.add_loops(pts<C>(all));
    else for(auto &l : pts<C>(all)) {
        if(r.chance(1,2)) rast.add_loops(l);
        else { auto s = rast.add_loop(); for(auto &p : l) s(p); }
    }
    for(int k=0;k<rounds;++k) {
        Rows got;
        auto st = rast.scan_lines(W,H);
        poly_ops::draw::scan_line sc;
        std::size_t n = 0;
        while(st(rast,sc)) {
            if(++n > 1000000) throw Viol{"no-termination","more than a million spans"};
            check_span(sc.x1,sc.x2,sc.y);
            if(sc.winding == 0) throw Viol{"zero-winding-span","span with winding number zero"};
            if(sc.x1 < sc.x2) got[sc.y].push_back({sc.x1,sc.x2,sc.winding});
        }
        for(auto &[y,s] : got) normalize(s,y);
        compare(got,want,"spans");
    }
    // fill rules
    for(auto rule : {fill_rule_t::non_zero,fill_rule_t::even_odd,fill_rule_t::positive,fill_rule_t::negative}) {
        std::vector<std::vector<char>> img(H,std::vector<char>(W,0)), ref = img;
        rast.draw(W,H,[&](unsigned x1,unsigned x2,unsigned y) { check_span(x1,x2,y); for(unsigned x=x1;x<x2;++x) img[y][x] = 1; },rule);
        for(auto &[y,s] : want) for(auto &x : s) {
            bool f = rule == fill_rule_t::non_zero || (rule == fill_rule_t::even_odd && x.w % 2 != 0) || (rule == fill_rule_t::positive && x.w > 0) || (rule == fill_rule_t::negative && x.w < 0);
            if(f) for(auto i=x.x1;i<x.x2;++i) ref[y][std::size_t(i)] = 1;
        }
        if(img != ref) throw Viol{"fill-rule","pixels set under fill rule " + std::to_string(int(rule)) + " differ from the exact winding"};
        stats.ctr["images_compared"]++;
    }
}

static void mode_raster(Rng &r,std::uint64_t) {
    std::int64_t mag = r.chance(1,3) ? 8 : r.chance(1,2) ? 40 : 150;
    cur = gen_general(r,mag,int(r.range(0,2)));
    if(r.chance(1,2)) { // move around the window
        std::int64_t dx = r.range(-mag/2,mag/2), dy = r.range(-mag/2,mag/2);
        for(auto *ls : {&cur.s,&cur.c}) for(auto &l : *ls) for(auto &p : l) { p.x += dx; p.y += dy; }
    }
    if(r.chance(1,6)) for(auto *ls : {&cur.s,&cur.c}) for(auto &l : *ls) for(auto &p : l) p.x *= r.chance(1,2) ? 1000 : 1; 
    W = unsigned(r.range(1,mag+mag/2)); H = unsigned(r.range(1,mag+mag/2));
    cur_out.clear();
    std::int64_t m = max_coord(cur);
    int k = int(r.range(0,2));
    if(k == 0 && m < 10000 && W < 10000 && H < 10000) run<std::int16_t>(r);
    else if(k == 1) run<std::int64_t>(r);
    else run<std::int32_t>(r);
    stats.ctr["family_" + cur.family]++;
    stats.sig(sig_of(cur.s,sig_of(cur.c)) ^ mix64(W*100003u+H));
    stats.sample(witness());
}
int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    return run_cases(mode_raster,witness);
}
