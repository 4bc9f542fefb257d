// The same input through every way of using the library, histories of one
// clipper, and identities between operations.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#include <list>
#include <deque>
#include <forward_list>
#include <span>
#include <iterator>
using namespace v;
using poly_ops::bool_op;
using poly_ops::bool_set;

struct MyPoint { short pad; float a; std::int32_t px; std::int64_t py; };
template<> struct poly_ops::point_ops<MyPoint> {
    static std::int32_t get_x(const MyPoint &p) { return p.px; }
    static std::int32_t get_y(const MyPoint &p) { return std::int32_t(p.py); }
};

static Input cur;
static std::string note;
static std::string witness() { return note + " family=" + cur.family + " " + cur.str(); }
static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};
static int size_class(Rng &r) { int k = int(r.range(0,19)); return k < 13 ? 0 : k < 19 ? 1 : 2; }

// a range that can be traversed only once, with a sentinel
template<typename T> struct SinglePass {
    const std::vector<T> *src; mutable bool used = false;
    struct sent {};
    struct iter {
        using iterator_concept = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
        const std::vector<T> *src; std::size_t i = 0;
        iter(const std::vector<T> *s) : src(s) {}
        iter(iter&&) = default; iter &operator=(iter&&) = default;
        T operator*() const { return (*src)[i]; }
        iter &operator++() { ++i; return *this; }
        void operator++(int) { ++i; }
        friend bool operator==(const iter &a,sent) { return a.i == a.src->size(); }
    };
    iter begin() const { if(used) throw Viol{"single-pass","a single-pass input range was traversed twice"}; used = true; return iter{src}; }
    sent end() const { return {}; }
};

template<typename C> using Pts = std::vector<std::vector<poly_ops::point_t<C>>>;

template<typename C,typename I,bool Tree,typename Clip> Loops exec(Clip &c,bool_op op) {
    if constexpr(Tree) { Loops o; flatten(tree_of(c.template execute<true>(op)),o); return o; }
    else return loops_of(c.template execute<false>(op));
}

static const char *ways[] = {"ranges of ranges","single loops","point sink","list of deques","user point type","single-pass ranges","lazy views","arrays of two","spans","free function","free function with memory resource",
    "const input","rvalue input","origin tracking clipper","moved clipper","set-specific functions","interleaved sets","forward lists","subranges with sentinel","origin tracking clipper, loops with sets","origin tracking clipper, point sinks","origin tracking clipper, moved","tracker of the user","free function with tracker","free function with tracker and memory resource"};
const int n_ways = 25;
// a tracker of the user's own that adds nothing to the points
template<typename I> struct OwnTracker {
    poly_ops::i_point_tracker<I> *callbacks() { return nullptr; }
    template<typename C> poly_ops::point_t<C> get_value(I,const poly_ops::point_t<C> &p) const { return p; }
    void reset() {}
};

template<typename C,typename I,bool Tree> Loops feed(int way,const Input &in,bool_op op) {
    using PT = poly_ops::point_t<C>;
    iter_count = 0;
    auto s = to_pts<C>(in.s), cl = to_pts<C>(in.c);
    auto finish = [&](auto &&r) { if constexpr(Tree) { Loops o; flatten(tree_of(r),o); return o; } else return loops_of(r); };
    poly_ops::clipper<C,I> c;
    auto each = [&](auto &&f) { for(auto &l : s) f(l,bool_set::subject); for(auto &l : cl) f(l,bool_set::clip); };
    switch(way) {
    case 0: c.add_loops(s,bool_set::subject); c.add_loops(cl,bool_set::clip); break;
    case 1: each([&](auto &l,bool_set b) { c.add_loops(l,b); }); break;
    case 2: { bool expl = false; I k = 0; each([&](auto &l,bool_set b) { auto sink = c.add_loop(b); expl = !expl; for(auto &p : l) { if(expl) sink(p,k); else sink(p); ++k; } }); break; }
    case 3: { auto conv = [](auto &v) { std::list<std::deque<PT>> r; for(auto &l : v) r.emplace_back(l.begin(),l.end()); return r; }; auto a = conv(s); auto b = conv(cl); c.add_loops(a,bool_set::subject); c.add_loops(b,bool_set::clip); break; }
    case 4: each([&](auto &l,bool_set b) { std::vector<MyPoint> m; for(auto &p : l) m.push_back({-1,0.5f,std::int32_t(p[0]),std::int64_t(p[1])}); c.add_loops(m,b); }); break;
    case 5: each([&](auto &l,bool_set b) { SinglePass<PT> sp{&l}; c.add_loops(sp,b); }); break;
    case 6: { auto conv = [](auto &v) { return v | std::views::transform([](auto &l) { return l | std::views::transform([](const PT &p) { return p; }); }); }; c.add_loops(conv(s),bool_set::subject); c.add_loops(conv(cl),bool_set::clip); break; }
    case 7: each([&](auto &l,bool_set b) { struct A { C d[2]; }; std::vector<C> flat; for(auto &p : l) { flat.push_back(p[0]); flat.push_back(p[1]); }
        auto v = std::views::iota(std::size_t(0),l.size()) | std::views::transform([&](std::size_t i) -> C(&)[2] { return *reinterpret_cast<C(*)[2]>(&flat[2*i]); }); c.add_loops(v,b); }); break;
    case 8: each([&](auto &l,bool_set b) { std::vector<C> flat; for(auto &p : l) { flat.push_back(p[0]); flat.push_back(p[1]); } std::vector<std::span<C,2>> sp; for(std::size_t i=0;i<l.size();++i) sp.emplace_back(&flat[2*i],2); c.add_loops(sp,b); }); break;
    case 9:
    case 10: {
        std::pmr::memory_resource *mr = nullptr; std::pmr::monotonic_buffer_resource mono; if(way == 10) mr = &mono;
        if(op == bool_op::normalize && cl.empty()) return finish(poly_ops::normalize_op<Tree,C,I>(s,mr));
        if(op == bool_op::union_ && cl.empty()) return finish(poly_ops::union_op<Tree,C,I>(s,mr));
        return finish(poly_ops::boolean_op<Tree,C,I>(s,cl,op,mr)); }
    case 11: { const auto &cs = s; const auto cc = cl; c.add_loops(cs,bool_set::subject); c.add_loops(cc,bool_set::clip); break; }
    case 12: c.add_loops(std::move(s),bool_set::subject); c.add_loops(std::move(cl),bool_set::clip); break;
    case 13: { poly_ops::origin_tracked_clipper<C,I> t; t.add_loops_subject(s); t.add_loops_clip(cl); return exec<C,I,Tree>(t,op); }
    case 14: { // the result owns the data
        std::optional<decltype(std::move(c).template execute<Tree>(op))> res;
        { poly_ops::clipper<C,I> d; d.add_loops(s,bool_set::subject); d.add_loops(cl,bool_set::clip); res.emplace(std::move(d).template execute<Tree>(op)); }
        s.clear(); cl.clear();
        return finish(std::move(*res)); }
    case 15: c.add_loops_subject(s); c.add_loops_clip(cl); break;
    case 16: c.add_loops(s,bool_set::subject); for(auto &l : cl) { c.add_loops(Pts<C>{},bool_set::subject); c.add_loops(l,bool_set::clip); c.add_loops(std::vector<PT>{},bool_set::clip); } break;
    case 17: { std::forward_list<std::forward_list<PT>> a; each([&](auto &l,bool_set b) { std::forward_list<PT> f(l.begin(),l.end()); c.add_loops(f,b); }); break; }
    case 19: { poly_ops::origin_tracked_clipper<C,I> t; each([&](auto &l,bool_set b) { t.add_loops(l,b); }); t.add_loops(Pts<C>{},bool_set::clip); return exec<C,I,Tree>(t,op); }
    case 20: { poly_ops::origin_tracked_clipper<C,I> t; I k = 0; each([&](auto &l,bool_set b) { auto sink = t.add_loop(b); for(auto &p : l) { if(k % 2) sink(p,k); else sink(p); ++k; } }); return exec<C,I,Tree>(t,op); }
    case 21: {
        auto go = [&] { poly_ops::origin_tracked_clipper<C,I> t; t.add_loops_subject(s); t.add_loops_clip(cl); return std::move(t).template execute<Tree>(op); };
        auto res = go(); s.clear(); cl.clear(); return finish(res); }
    case 22: { poly_ops::tclipper<C,I,OwnTracker<I>> t; for(auto &l : s) t.add_loops_subject(l); for(auto &l : cl) t.add_loops_clip(l); return exec<C,I,Tree>(t,op); }
    case 23:
    case 24: {
        std::pmr::memory_resource *mr = nullptr; std::pmr::monotonic_buffer_resource mono; if(way == 24) mr = &mono;
        poly_ops::origin_point_tracker<I> own; // not taken over: an lvalue stays with the caller
        auto go = [&](auto &&t) {
            if(op == bool_op::normalize && cl.empty()) return finish(mr ? poly_ops::normalize_op<Tree,C,I>(s,std::forward<decltype(t)>(t),mr) : poly_ops::normalize_op<Tree,C,I>(s,std::forward<decltype(t)>(t)));
            if(op == bool_op::union_ && cl.empty()) return finish(mr ? poly_ops::union_op<Tree,C,I>(s,std::forward<decltype(t)>(t),mr) : poly_ops::union_op<Tree,C,I>(s,std::forward<decltype(t)>(t)));
            return finish(mr ? poly_ops::boolean_op<Tree,C,I>(s,cl,op,std::forward<decltype(t)>(t),mr) : poly_ops::boolean_op<Tree,C,I>(s,cl,op,std::forward<decltype(t)>(t))); };
        return go(poly_ops::origin_point_tracker<I>{}); }
    default: each([&](auto &l,bool_set b) { c.add_loops(l | std::views::take_while([](const PT&) { return true; }),b); });
    }
    return exec<C,I,Tree>(c,op);
}
template<typename C> Loops feed_cfg(int way,int index,bool tree,const Input &in,bool_op op) {
    switch(index) {
    case 0: return tree ? feed<C,std::size_t,true>(way,in,op) : feed<C,std::size_t,false>(way,in,op);
    case 1: return tree ? feed<C,std::uint32_t,true>(way,in,op) : feed<C,std::uint32_t,false>(way,in,op);
    case 3: return tree ? feed<C,std::int16_t,true>(way,in,op) : feed<C,std::int16_t,false>(way,in,op);
    default: return tree ? feed<C,std::int32_t,true>(way,in,op) : feed<C,std::int32_t,false>(way,in,op);
    }
}
static Canon canon_lattice(const Input &in,bool_op op) { return canon(run_flat<std::int32_t>(in,op)); }

// ---- the representation of the input does not matter
static void equiv(Rng &r,std::uint64_t) {
    cur = r.chance(1,5) ? gen_lattice(r,size_class(r)) : gen_scaled(r,r.chance(1,2)?1000:60000,size_class(r));
    if(r.chance(1,10)) cur.c.clear();
    bool_op op = r.pick(std::vector<bool_op>(ops,ops+5));
    bool c64 = r.chance(1,3), few = edges_of(cur.s).size() + edges_of(cur.c).size() <= 60;
    for(int tree=0;tree<2;++tree) {
        auto call = [&](int way,int index) { return c64 ? feed_cfg<std::int64_t>(way,index,tree,cur,op) : feed_cfg<std::int32_t>(way,index,tree,cur,op); };
        Loops base = call(0,0);
        stats.ctr["results_nonempty"] += !base.empty();
        Canon cb = canon(base);
        for(int k=0;k<4;++k) {
            int way = int(r.range(0,n_ways-1)), index = int(r.range(0,2));
            if(few && r.chance(1,4)) { index = 3; stats.ctr["narrow_indices"]++; }
            note = std::string("op=") + op_name(op) + (tree?" tree":" flat") + " given as " + ways[way] + (index == 0 ? "" : index == 1 ? " with 32-bit indices" : index == 3 ? " with 16-bit indices" : " with signed indices");
            Loops o = call(way,index);
            stats.ctr["representations_compared"]++;
            if(canon(o) != cb) throw Viol{std::string("differs: ") + ways[way],"the result is " + str(o).substr(0,1200) + " instead of " + str(base).substr(0,1200)};
        }
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c,std::uint64_t(op))));
    stats.sample(witness().substr(0,400));
}

// ---- offsets: every entry point gives the same
template<typename C,typename I,bool Tree> Loops offset_way(int way,const Input &in,double ms,double mc,int step,bool closed,bool_op op) {
    using PT = poly_ops::point_t<C>;
    auto s = to_pts<C>(in.s), cl = to_pts<C>(in.c); C st = C(step);
    iter_count = 0;
    auto finish = [&](auto &&r) { if constexpr(Tree) { Loops o; flatten(tree_of(r),o); return o; } else return loops_of(r); };
    poly_ops::clipper<C,I> c; poly_ops::origin_tracked_clipper<C,I> t; std::pmr::monotonic_buffer_resource mono;
    auto lists = [](auto &v) { std::list<std::forward_list<PT>> r; for(auto &l : v) r.emplace_back(l.begin(),l.end()); return r; };
    switch(way) {
    case 0: poly_ops::add_offset(c,s,bool_set::subject,ms,st,closed); poly_ops::add_offset(c,cl,bool_set::clip,mc,st,closed); return exec<C,I,Tree>(c,op);
    case 1: poly_ops::add_offset_subject(c,s,ms,st,closed); poly_ops::add_offset_clip(c,cl,mc,st,closed); return exec<C,I,Tree>(c,op);
    case 2: if(closed) { poly_ops::add_offset_subject(c,s,ms,st); poly_ops::add_offset_clip(c,cl,mc,st); } else { poly_ops::add_offset_subject(c,s,ms,st,false); poly_ops::add_offset_clip(c,cl,mc,st,false); } return exec<C,I,Tree>(c,op);
    case 3: if(closed) { poly_ops::add_offset(c,s,bool_set::subject,ms,st); poly_ops::add_offset(c,cl,bool_set::clip,mc,st); } else { for(auto &l : s) poly_ops::add_offset(c,l,bool_set::subject,ms,st,false); poly_ops::add_offset(c,std::move(cl),bool_set::clip,mc,st,false); } return exec<C,I,Tree>(c,op);
    case 4: poly_ops::add_offset(t,s,bool_set::subject,ms,st,closed); poly_ops::add_offset(t,cl,bool_set::clip,mc,st,closed); return exec<C,I,Tree>(t,op);
    case 5: poly_ops::add_offset_subject(t,s,ms,st,closed); poly_ops::add_offset_clip(t,cl,mc,st,closed); return exec<C,I,Tree>(t,op);
    case 6: if(closed) { poly_ops::add_offset_subject(t,s,ms,st); poly_ops::add_offset_clip(t,cl,mc,st); } else { for(auto &l : s) poly_ops::add_offset_subject(t,l,ms,st,false); for(auto &l : cl) poly_ops::add_offset_clip(t,l,mc,st,false); } return exec<C,I,Tree>(t,op);
    case 7: if(closed) { poly_ops::add_offset(t,s,bool_set::subject,ms,st); poly_ops::add_offset(t,cl,bool_set::clip,mc,st); } else { const auto cs = s; poly_ops::add_offset(t,cs,bool_set::subject,ms,st,false); poly_ops::add_offset(t,cl,bool_set::clip,mc,st,false); } return finish(std::move(t).template execute<Tree>(op));
    case 8: { auto a = lists(s), b = lists(cl); poly_ops::add_offset_subject(c,a,ms,st,closed); poly_ops::add_offset_clip(t.base,b,mc,st,closed); t.reset(); poly_ops::add_offset_clip(c,b,mc,st,closed); return exec<C,I,Tree>(c,op); }
    case 9: for(auto &l : s) { std::vector<MyPoint> m; for(auto &p : l) m.push_back({-1,0.5f,std::int32_t(p[0]),std::int64_t(p[1])}); poly_ops::add_offset_subject(c,m,ms,st,closed); }
        for(auto &l : cl) if(!l.empty()) poly_ops::add_offset_clip(c,l | std::views::take_while([](const PT&) { return true; }),mc,st,closed);
        return exec<C,I,Tree>(c,op);
    // a single set of loops
    case 10: return finish(poly_ops::offset<Tree,C,I>(s,ms,st,closed));
    case 11: return closed ? finish(poly_ops::offset<Tree,C,I>(s,ms,st)) : finish(poly_ops::offset<Tree,C,I>(s,ms,st,false,&mono));
    case 12: return finish(poly_ops::offset<Tree,C,I>(std::move(s),ms,st,poly_ops::origin_point_tracker<I>{},closed));
    case 13: return closed ? finish(poly_ops::offset<Tree,C,I>(s,ms,st,poly_ops::origin_point_tracker<I>{})) : finish(poly_ops::offset<Tree,C,I>(s,ms,st,poly_ops::origin_point_tracker<I>{},false,&mono));
    default: return finish(poly_ops::offset<Tree,C,I>(lists(s),ms,st,OwnTracker<I>{},closed,&mono));
    }
}
static void offways(Rng &r,std::uint64_t) {
    cur = gen_general(r,r.chance(1,2) ? 60 : 2000,int(r.range(0,1)));
    for(auto *ls : {&cur.s,&cur.c}) for(auto &l : *ls) for(auto &p : l) { p.x = std::clamp<std::int64_t>(p.x,-20000,20000); p.y = std::clamp<std::int64_t>(p.y,-20000,20000); }
    bool closed = r.chance(1,2), tree = r.chance(1,3), c64 = r.chance(1,3), single = r.chance(1,3);
    double ms = (r.chance(1,2) ? -1 : 1)*(double(r.range(0,40)) + r.real()), mc = (r.chance(1,2) ? -1 : 1)*(double(r.range(0,40)) + r.real()); int step = int(r.range(1,30));
    if(single) cur.c.clear();
    bool_op op = single ? bool_op::union_ : r.pick(std::vector<bool_op>(ops,ops+5));
    int index = 0;
    auto call = [&](int way) {
        auto go = [&]<typename C,typename I>() { return tree ? offset_way<C,I,true>(way,cur,ms,mc,step,closed,op) : offset_way<C,I,false>(way,cur,ms,mc,step,closed,op); };
        if(c64) return go.template operator()<std::int64_t,std::size_t>();
        return index ? go.template operator()<std::int32_t,std::int32_t>() : go.template operator()<std::int32_t,std::size_t>(); };
    note = "offset reference"; iter_inconclusive = true;
    Canon want = canon(call(0)); stats.ctr["results_nonempty"] += !want.empty();
    for(int k=0;k<5;++k) {
        int way = int(r.range(0,single ? 14 : 9)); index = int(r.range(0,1));
        note = "offset way " + std::to_string(way) + (closed ? " closed " : " open ") + op_name(op) + (tree ? " tree" : "") + " magnitudes " + std::to_string(ms) + "," + std::to_string(mc) + " step " + std::to_string(step);
        Loops o = call(way);
        stats.ctr["offset_ways_compared"]++;
        if(canon(o) != want) throw Viol{"differs: offset way " + std::to_string(way),"the result is " + str(o).substr(0,900)};
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c,std::uint64_t(op)))); stats.sample(witness().substr(0,400));
}

// ---- changes of the input that do not change the shape
static void metam(Rng &r,std::uint64_t) {
    cur = gen_lattice(r,size_class(r));
    bool_op op = r.pick(std::vector<bool_op>(ops,ops+5));
    note = std::string("op=") + op_name(op);
    Canon want = canon_lattice(cur,op);
    stats.ctr["results_nonempty"] += !want.empty();
    auto back = [&](Loops o,std::int64_t k,std::int64_t dx,std::int64_t dy,int sym) {
        for(auto &l : o) { for(auto &p : l) {
            std::int64_t x=p.x-dx,y=p.y-dy;
            if(x % k || y % k) throw Viol{"off-lattice","a scaled and moved copy gives a point that is not on the lattice: " + str(p)};
            x/=k; y/=k;
            if(sym & 1) x = -x; if(sym & 2) y = -y; if(sym & 4) std::swap(x,y);
            p = {x,y}; }
          if((sym & 1) ^ ((sym>>1) & 1) ^ ((sym>>2) & 1)) std::reverse(l.begin(),l.end()); }
        return o;
    };
    for(int k=0;k<5;++k) {
        Input in = cur; std::string what; std::int64_t sc=1,dx=0,dy=0; int sym=0;
        auto both = [&](auto &&f) { for(auto *ls : {&in.s,&in.c}) f(*ls); };
        int kind = int(r.range(0,6));
        if(kind == 0 || kind == 6) { what += " other first points;"; both([&](Loops &ls) { for(auto &l : ls) if(l.size()) std::rotate(l.begin(),l.begin()+r.range(0,std::int64_t(l.size())-1),l.end()); }); }
        if(kind == 1 || kind == 6) { what += " other order of loops;"; both([&](Loops &ls) { for(std::size_t i=ls.size();i>1;--i) std::swap(ls[i-1],ls[std::size_t(r.range(0,std::int64_t(i)-1))]); }); }
        if(kind == 2 || kind == 6) { what += " duplicated points;"; both([&](Loops &ls) { for(auto &l : ls) { Loop o; for(auto &p : l) { o.push_back(p); while(r.chance(1,3)) o.push_back(p); } if(!l.empty() && r.chance(1,3)) o.push_back(l[0]); l = o; } }); }
        if(kind == 4 || kind == 6) { // points in the middle of a line, on the lattice
            what += " extra points on lines;"; both([&](Loops &ls) { for(auto &l : ls) { if(clean({l}).empty()) continue; Loop o; for(std::size_t i=0;i<l.size();++i) { o.push_back(l[i]); P a=l[i], b=l[(i+1)%l.size()]; std::int64_t g = std::gcd(b.x-a.x,b.y-a.y); if(g > 1 && l.size() > 2 && r.chance(1,2)) { std::int64_t q = r.range(1,g-1); o.push_back({a.x+(b.x-a.x)/g*q,a.y+(b.y-a.y)/g*q}); } } l = o; } }); }
        if(kind == 3 || kind == 6) { what += " degenerate companions;"; both([&](Loops &ls) { int n=int(r.range(1,3)); for(int i=0;i<n;++i) { Loop d; int m=int(r.range(0,3)); P a{r.range(-3,20),r.range(-3,20)}, b{r.range(-3,20),r.range(-3,20)}; if(m > 0) d.push_back(a); if(m > 1) d.push_back(b); if(m > 2) { d.push_back(b); if(r.chance(1,2)) d.push_back(a); } ls.insert(ls.begin()+r.range(0,std::int64_t(ls.size())),d); } }); }
        if(kind == 5 || kind == 6) {
            what += " moved, scaled or mirrored;";
            sc = r.chance(1,2) ? 1 : r.range(2,1000); dx = r.range(-100000,100000); dy = r.range(-100000,100000); sym = int(r.range(0,7));
            both([&](Loops &ls) { for(auto &l : ls) { for(auto &p : l) { std::int64_t x=p.x,y=p.y; if(sym & 4) std::swap(x,y); if(sym & 2) y=-y; if(sym & 1) x=-x; p={x*sc+dx,y*sc+dy}; }
                if((sym & 1) ^ ((sym>>1) & 1) ^ ((sym>>2) & 1)) std::reverse(l.begin(),l.end()); } });
        }
        note = std::string("op=") + op_name(op) + " changes:" + what;
        iter_count = 0;
        Loops o = back(r.chance(1,2) ? run_flat<std::int64_t>(in,op) : run_flat<std::int32_t,std::uint32_t>(in,op),sc,dx,dy,sym);
        stats.ctr["variants_compared"]++;
        Canon got = canon(o);
        if(op == bool_op::normalize) { // pairs of coinciding lines may vanish: compare modulo direction and parity via the region
            auto par = [](const Loops &x) { Loops y = x; std::map<LineKey,std::map<std::int64_t,int>> m; for(auto &e : edges_of(y)) { std::int64_t ex=e.b.x-e.a.x,ey=e.b.y-e.a.y; if(!ex&&!ey) continue; std::int64_t g=std::gcd(ex,ey); ex/=g; ey/=g; if(ex<0||(ex==0&&ey<0)) { ex=-ex; ey=-ey; } i128 off=i128(ex)*e.a.y-i128(ey)*e.a.x; std::int64_t t1=ex?e.a.x:e.a.y,t2=ex?e.b.x:e.b.y; auto &q = m[LineKey{ex,ey,i128_str(off)}]; q[t1] ^= 1; q[t2] ^= 1; }
                for(auto i=m.begin();i!=m.end();) { std::erase_if(i->second,[](auto &x) { return x.second == 0; }); if(i->second.empty()) i = m.erase(i); else ++i; } return m; };
            auto a = par(run_flat<std::int32_t>(cur,op)), b = par(o);
            if(a != b) throw Viol{"shape-changed","even-odd area differs: " + str(b) + " instead of " + str(a)};
            continue;
        }
        if(got != want) throw Viol{"shape-changed","the result covers " + str(got) + " instead of " + str(want)};
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c,std::uint64_t(op))));
    stats.sample(witness().substr(0,400));
}

// ---- parts that lie apart do not matter to each other, however many there are
template<typename C,typename I> Loops run_big(const Input &in,bool_op op,bool tree) {
    poly_ops::clipper<C,I> c; c.add_loops_subject(to_pts<C>(in.s)); c.add_loops_clip(to_pts<C>(in.c));
    return tree ? exec<C,I,true>(c,op) : exec<C,I,false>(c,op);
}
static void big(Rng &r,std::uint64_t) {
    bool_op op = r.pick(std::vector<bool_op>(ops,ops+5));
    std::vector<Input> kinds; std::int64_t lo = 0, hi = 0; std::size_t pts = 0;
    for(int i=int(r.range(1,120));i>0;--i) {
        Input k = gen_lattice(r,size_class(r));
        for(std::size_t j=0;j<k.s.size();++j) if(r.chance(1,3)) { k.s.push_back(k.s[j]); if(r.chance(1,2)) std::reverse(k.s.back().begin(),k.s.back().end()); if(r.chance(1,2)) for(auto &p : k.s.back()) p.x += 2; break; }
        for(auto *ls : {&k.s,&k.c}) for(auto &l : *ls) { pts += l.size(); for(auto &p : l) { lo = std::min({lo,p.x,p.y}); hi = std::max({hi,p.x,p.y}); } }
        kinds.push_back(k);
    }
    std::int64_t pitch = hi - lo + 1;
    std::size_t target = std::size_t(r.chance(1,4) ? r.range(3000,40000) : r.range(68000,args.thorough ? 300000 : 110000)), n = std::max<std::size_t>(2,target*kinds.size()/std::max<std::size_t>(pts,1));
    std::int64_t rows = r.range(1,12), cols = std::int64_t(n)/rows + 1;
    bool flip = target <= 40000 && r.chance(1,2), apart = r.chance(3,4), shuffle = apart && r.chance(1,2); // loops given tile by tile, or all loops number i of the tiles after another
    std::vector<int> kind; for(std::int64_t i=0;i<rows*cols;++i) kind.push_back(int(r.range(0,std::int64_t(kinds.size())-1)));
    auto at = [&](std::int64_t i) { P p{(i/rows)*pitch,(i%rows)*pitch}; if(flip) std::swap(p.x,p.y); return p; };
    Input in; in.family = "tiles";
    std::size_t most = 0; for(auto &k : kinds) most = std::max({most,k.s.size(),k.c.size()});
    for(std::size_t li=0;li<(apart ? most : 1);++li) for(std::size_t i=0;i<kind.size();++i) {
        P o = at(std::int64_t(i));
        for(int w=0;w<2;++w) { auto &src = w ? kinds[std::size_t(kind[i])].c : kinds[std::size_t(kind[i])].s; auto &dst = w ? in.c : in.s;
            for(std::size_t j=apart ? li : 0;j<(apart ? std::min(li+1,src.size()) : src.size());++j) { Loop l = src[j]; for(auto &p : l) { p.x += o.x; p.y += o.y; } dst.push_back(l); } }
    }
    if(shuffle) for(auto *ls : {&in.s,&in.c}) for(std::size_t i=ls->size();i>1;--i) std::swap((*ls)[i-1],(*ls)[std::size_t(r.range(0,std::int64_t(i)-1))]);
    std::size_t total = 0; for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) total += l.size();
    bool tree = r.chance(1,6) && total < 100000, c64 = r.chance(1,3); int index = int(r.range(0,2));
    note = std::string("op=") + op_name(op) + (tree ? " tree " : " flat ") + std::to_string(total) + " points in " + std::to_string(kind.size()) + " tiles of " + std::to_string(pitch) + (flip ? " upright" : "") + (c64 ? " 64-bit" : " 32-bit") + " index kind " + std::to_string(index);
    cur = kinds[0];
    iter_count = 0; auto lim = iter_limit; iter_limit = ~std::uint64_t(0);
    Loops o = c64 ? (index == 0 ? run_big<std::int64_t,std::size_t>(in,op,tree) : index == 1 ? run_big<std::int64_t,std::uint32_t>(in,op,tree) : run_big<std::int64_t,std::int32_t>(in,op,tree))
                  : (index == 0 ? run_big<std::int32_t,std::size_t>(in,op,tree) : index == 1 ? run_big<std::int32_t,std::uint32_t>(in,op,tree) : run_big<std::int32_t,std::int32_t>(in,op,tree));
    iter_limit = lim;
    std::vector<Loops> part(kind.size());
    auto fl = [](std::int64_t a,std::int64_t b) { return a >= 0 ? a/b : -((b-1-a)/b); };
    for(auto &l : o) {
        if(l.empty()) throw Viol{"empty-loop","the result has a loop without points"};
        std::int64_t x = fl(l[0].x-lo,pitch), y = fl(l[0].y-lo,pitch); if(flip) std::swap(x,y);
        if(x < 0 || y < 0 || y >= rows || x >= cols) throw Viol{"outside","a loop of the result begins outside of the tiles at " + str(l[0])};
        std::size_t i = std::size_t(x*rows+y); P off = at(std::int64_t(i));
        for(auto &p : l) { p.x -= off.x; p.y -= off.y; if(p.x < lo || p.y < lo || p.x > hi || p.y > hi) throw Viol{"across","a loop of the result reaches from one tile into another: " + str(l)}; }
        part[i].push_back(l);
    }
    auto parity = [](const Loops &x) { std::map<LineKey,std::map<std::int64_t,std::int64_t>> m; auto c = canon(x); for(auto &[k,v] : c) for(auto &[t,w] : v) { auto z = ((w % 2) + 2) % 2; if(z) m[k][t] = z; } return m; };
    std::vector<Canon> want; std::vector<std::map<LineKey,std::map<std::int64_t,std::int64_t>>> wantp;
    for(auto &k : kinds) { Loops w = run_flat<std::int32_t>(k,op); want.push_back(canon(w)); wantp.push_back(parity(w)); }
    for(std::size_t i=0;i<part.size();++i) {
        std::size_t k = std::size_t(kind[i]);
        bool same = op == bool_op::normalize ? parity(part[i]) == wantp[k] : canon(part[i]) == want[k];
        if(!same) { cur = kinds[k]; throw Viol{"parts-influence-each-other","tile " + std::to_string(i) + " gives " + str(part[i]).substr(0,700) + " but alone it gives " + str(run_flat<std::int32_t>(kinds[k],op)).substr(0,700)}; }
    }
    stats.ctr["tiles_compared"] += part.size(); stats.ctr["points_in_big_inputs"] += total; stats.ctr["inputs_beyond_65536_points"] += total > 65536;
    stats.ctr["results_nonempty"] += !o.empty();
    stats.sig(sig_of(kinds[0].s,total)); stats.sample(witness().substr(0,400));
}

// ---- histories of one clipper
template<typename C,typename I,bool Tracked> void reuse_t(Rng &r) {
    using Clip = std::conditional_t<Tracked,poly_ops::origin_tracked_clipper<C,I>,poly_ops::clipper<C,I>>;
    std::pmr::monotonic_buffer_resource mono;
    auto up = std::make_unique<Clip>(r.chance(1,4) ? static_cast<std::pmr::memory_resource*>(&mono) : nullptr);
    Clip &c = *up;
    int steps = int(r.range(2,6));
    note = Tracked ? "tracked:" : "plain:";
    std::vector<std::pair<Input,bool_op>> hist;
    auto orig_index = [&]() -> I& { if constexpr(Tracked) return c.base.next_orig_i(); else return c.next_orig_i(); };
    for(int k=0;k<steps;++k) {
        // something that must leave no trace
        int junk = int(r.range(0,5));
        if(junk == 0) { note += " add+reset;"; Input t = gen_general(r,50,0); c.add_loops(to_pts<C>(t.s),bool_set::subject); c.reset(); }
        else if(junk == 1) { note += " reset;"; c.reset(); }
        else if(junk == 2) { note += " add+drop result;"; Input t = gen_general(r,50,0); c.add_loops(to_pts<C>(t.s),bool_set::subject); (void)c.template execute<true>(bool_op::union_); }
        else if(junk == 3 && k) { // nothing added since the last operation: nothing left
            note += " execute again;";
            auto o = exec<C,I,false>(c,bool_op::xor_);
            if(k && !o.empty()) throw Viol{"input-not-consumed","executing again without input gives " + str(o).substr(0,400)};
            stats.ctr["empty_reexecutions"]++;
        }
        bool lattice = r.chance(1,2);
        cur = lattice ? gen_lattice(r,size_class(r)) : gen_scaled(r,60000,size_class(r));
        bool_op op = r.pick(std::vector<bool_op>(ops,ops+5));
        std::size_t points = 0;
        {
            auto s = to_pts<C>(cur.s), cl = to_pts<C>(cur.c);
            std::size_t i=0,j=0;
            // pieces in any order; what was added first does not matter to the shape
            while(i < s.size() || j < cl.size()) {
                bool sub = j == cl.size() || (i < s.size() && r.chance(1,2));
                auto &l = sub ? s[i++] : cl[j++];
                points += l.size();
                bool_set b = sub ? bool_set::subject : bool_set::clip;
                switch(r.range(0,3)) {
                case 0: c.add_loops(l,b); break;
                case 1: { auto sink = c.add_loop(b); for(auto &p : l) sink(p); break; }
                case 2: { Pts<C> one{l}; if(sub) c.add_loops_subject(one); else c.add_loops_clip(one); break; }
                default: { std::list<poly_ops::point_t<C>> li(l.begin(),l.end()); c.add_loops(li,b); }
                }
            }
            if(points && orig_index() != I(points)) throw Viol{"original-index","after adding " + std::to_string(points) + " points the next index is " + std::to_string(orig_index())};
            // the input may be changed and freed before the operation
            for(auto *x : {&s,&cl}) for(auto &l : *x) for(auto &p : l) p = {C(7777),C(-7777)};
        }
        if(points == 0) c.reset();
        note += std::string(" ") + op_name(op) + (k+1 == steps ? "" : ";");
        bool tree = r.chance(1,3), move = k+1 == steps && r.chance(1,2);
        Loops o;
        iter_count = 0;
        if(move) {
            note += " moved";
            if(tree) { auto res = std::move(c).template execute<true>(op); up.reset(); flatten(tree_of(res),o); }
            else { auto res = std::move(c).template execute<false>(op); up.reset(); o = loops_of(res); }
            stats.ctr["moved_results"]++;
        } else if(tree) {
            auto res = c.template execute<true>(op);
            if(r.chance(1,2)) for(auto &&l : res) { (void)l; break; }
            flatten(tree_of(res),o);
        } else {
            auto res = c.template execute<false>(op);
            o = loops_of(res);
            if(r.chance(1,3) && loops_of(res) != o) throw Viol{"result-changed","reading a result twice gives different loops"};
        }
        iter_count = 0;
        Loops fresh = run_flat<C,I>(cur,op);
        stats.ctr["steps_compared"]++;
        stats.ctr["results_nonempty"] += !fresh.empty();
        if(lattice) {
            stats.ctr["exact_steps"]++;
            if(op == bool_op::normalize) {
                auto eo = edges_of(o), ef = edges_of(fresh);
                for(int q=0;q<30;++q) { P p{r.range(-4,80),r.range(-4,80)}; p.x = 2*p.x+1; p.y = 2*p.y; if(on_any_edge(eo,p,4) || on_any_edge(ef,p,4)) continue; if((winding(eo,p,4) ^ winding(ef,p,4)) & 1) throw Viol{"history-matters","even-odd area at " + str(p) + "/4 differs from a fresh clipper's"}; }
            } else if(canon(o) != canon(fresh)) throw Viol{"history-matters","step " + std::to_string(k) + " gives " + str(o).substr(0,800) + " but a fresh clipper gives " + str(fresh).substr(0,800)};
        } else {
            // rounding differs, so the region is compared away from lines
            std::size_t n = cur.s.size() + cur.c.size(); for(auto *x : {&cur.s,&cur.c}) for(auto &l : *x) n += l.size();
            double tol = n <= 8 ? 4 : std::min(2+0.5*double(n),16.0) + 0.05*double(n);
            auto es = edges_of(cur.s), ec = edges_of(cur.c); auto ei = es; ei.insert(ei.end(),ec.begin(),ec.end());
            auto eo = edges_of(o), ef = edges_of(fresh);
            std::int64_t m = max_coord(cur)+3;
            for(int q=0;q<25;++q) {
                P p{r.range(-m*2,m*2),r.range(-m*2,m*2)};
                if(ei.empty() || min_dist(ei,p,2)/2 <= tol || on_any_edge(eo,p,2) || on_any_edge(ef,p,2)) continue;
                int a = winding(eo,p,2), b = winding(ef,p,2); if(op == bool_op::normalize) { a &= 1; b &= 1; }
                stats.ctr["samples"]++;
                if(a != b) throw Viol{"history-matters","step " + std::to_string(k) + ": winding number at " + str(p) + "/2 is " + std::to_string(a) + " but " + std::to_string(b) + " with a fresh clipper"};
            }
        }
        stats.sig(sig_of(cur.s,sig_of(cur.c,std::uint64_t(k)*8+std::uint64_t(op))));
    }
    stats.sample(witness().substr(0,400));
}
static void reuse(Rng &r,std::uint64_t) {
    switch(r.range(0,3)) {
    case 0: reuse_t<std::int32_t,std::size_t,false>(r); break;
    case 1: reuse_t<std::int64_t,std::int32_t,false>(r); break;
    case 2: reuse_t<std::int32_t,std::uint32_t,true>(r); break;
    default: reuse_t<std::int64_t,std::size_t,true>(r);
    }
}

// ---- identities
static void ident(Rng &r,std::uint64_t) {
    bool lattice = r.chance(1,2);
    cur = lattice ? gen_lattice(r,size_class(r)) : gen_scaled(r,r.chance(1,2)?1000:300000,size_class(r));
    bool c64 = r.chance(1,3);
    auto run = [&](const Loops &a,const Loops &b,bool_op op) { Input in; in.s = a; in.c = b; iter_count = 0; return c64 ? run_flat<std::int64_t,std::size_t>(in,op) : run_flat<std::int32_t,std::size_t>(in,op); };
    auto same = [&](const Loops &a,const Loops &b,const char *law) { stats.ctr[std::string("law ") + law]++; auto ca = canon(a), cb = canon(b); if(ca != cb) throw Viol{std::string("law: ") + law,std::string("left side ") + str(a).substr(0,900) + " right side " + str(b).substr(0,900)}; };
    const Loops none;
    // bounding box
    P lo{INT64_MAX,INT64_MAX},hi{INT64_MIN,INT64_MIN};
    for(auto *x : {&cur.s,&cur.c}) for(auto &l : *x) for(auto &p : l) { lo.x=std::min(lo.x,p.x); lo.y=std::min(lo.y,p.y); hi.x=std::max(hi.x,p.x); hi.y=std::max(hi.y,p.y); }
    Loops A;
    for(auto op : ops) {
        note = std::string("op=") + op_name(op);
        Loops R = run(cur.s,cur.c,op);
        for(auto &l : R) for(auto &p : l) if(p.x < lo.x || p.x > hi.x || p.y < lo.y || p.y > hi.y) throw Viol{"outside-bounds","result point " + str(p) + " is outside the bounding box of the input"};
        stats.ctr["bounding_boxes"]++;
        if(op == bool_op::normalize) continue;
        stats.ctr["results_nonempty"] += !R.empty();
        // a result is a valid shape already: nothing changes any more
        note += std::string(" result=") + str(R).substr(0,900);
        same(run(R,none,bool_op::union_),R,"union of a result is the result");
        same(run(none,R,bool_op::union_),R,"union of a result given as clip is the result");
        same(run(R,none,bool_op::difference),R,"result minus nothing is the result");
        same(run(R,none,bool_op::xor_),R,"result xor nothing is the result");
        same(run(none,R,bool_op::xor_),R,"nothing xor result is the result");
        same(run(R,none,bool_op::intersection),none,"intersection with nothing is nothing");
        same(run(none,R,bool_op::difference),none,"nothing minus result is nothing");
        same(run(R,R,bool_op::intersection),R,"result and itself is the result");
        same(run(R,R,bool_op::union_),R,"result or itself is the result");
        same(run(R,R,bool_op::xor_),none,"result xor itself is nothing");
        same(run(R,R,bool_op::difference),none,"result minus itself is nothing");
        if(op == bool_op::union_) A = R;
    }
    if(lattice) {
        // normal forms of both sides, on which set algebra holds
        Loops a = run(cur.s,none,bool_op::union_), b = run(cur.c,none,bool_op::union_);
        note = "A=" + str(a).substr(0,600) + " B=" + str(b).substr(0,600);
        auto U = bool_op::union_, I = bool_op::intersection, X = bool_op::xor_, D = bool_op::difference;
        Loops u = run(a,b,U), i = run(a,b,I), x = run(a,b,X), d = run(a,b,D), e = run(b,a,D);
        same(run(b,a,U),u,"union commutes"); same(run(b,a,I),i,"intersection commutes"); same(run(b,a,X),x,"xor commutes");
        same(run(u,i,D),x,"xor is union minus intersection");
        same(run(d,e,U),x,"xor is both differences");
        same(run(a,i,D),d,"difference is subject minus intersection");
        same(run(d,i,U),a,"difference and intersection make the subject");
        same(run(x,b,X),a,"xor undoes itself");
        same(run(x,i,X),u,"xor with intersection is union");
        same(run(i,a,U),a,"absorption of intersection"); same(run(u,a,I),a,"absorption of union");
        auto i2 = i; i2.insert(i2.end(),x.begin(),x.end());
        same(run(i2,none,U),u,"pieces make the union");
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(witness().substr(0,400));
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    CaseFn f = args.mode == "equiv" ? equiv : args.mode == "metam" ? metam : args.mode == "reuse" ? reuse : args.mode == "big" ? big : args.mode == "offways" ? offways : ident;
    return run_cases(f,witness);
}
