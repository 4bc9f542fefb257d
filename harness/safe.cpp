// Random programs over the whole interface. Nothing is compared here: the
// programs are run under sanitizers, a checking standard library or valgrind,
// which are the judges. Every value that comes out is read and influences a
// branch, so that uninitialised results do not go unnoticed.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#include <poly_ops/polydraw.hpp>
#include <poly_ops/strided_itr.hpp>
#include <forward_list>
#include <list>
#include <optional>
#include <ranges>

using namespace v;
namespace po = poly_ops;
using po::bool_op; using po::bool_set; using po::point_t;

static std::string cur;
static std::string witness() { return cur; }
static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};
static std::uint64_t sink = 0;
static void eat(std::uint64_t x) { sink = (sink ^ x) * 1099511628211ull; if((sink & 0xFFFFFFFFFFull) == 0x123456789Aull) stats.ctr["lucky"]++; }
template<typename C> void eat_pt(const point_t<C> &p) { eat(static_cast<std::uint64_t>(p[0])); eat(static_cast<std::uint64_t>(p[1])); }
template<typename P> void eat_any(const P &p) {
    if constexpr(requires { p.original_points; }) { eat_pt(p.p); for(auto x : p.original_points) eat(static_cast<std::uint64_t>(x)); eat(p.original_points.size()); }
    else if constexpr(requires { p.p; }) { eat_pt(p.p); }
    else eat_pt(p);
}
template<typename R> void walk(Rng &r,R &&range,int depth=0) {
    int how = int(r.range(0,3));
    std::size_t nl = 0;
    for(auto &&l : range) {
        ++nl; eat(l.size()); stats.ctr["loops_read"]++;
        switch(how) {
        case 0: for(auto &&p : l) eat_any(p); break;
        case 1: { auto i = l.begin(); for(std::size_t k=0,n=l.size();k<n;++k) { auto o = i++; eat_any(*o); } eat(i == l.end()); } break;
        case 2: { auto i = l.begin(); std::size_t k = 0; while(i != l.end()) { eat_any(*i); ++i; if(++k > 3 && r.chance(1,4)) break; } } break; // not to the end
        default: { auto b = l.begin(); auto i = l.end(); std::size_t k = l.size(); if constexpr(requires { --i; }) while(k-- > 0) { --i; eat_any(*i); } eat(i == b); }
        }
        if constexpr(requires { l.inner_loops(); }) if(depth < 50) walk(r,l.inner_loops(),depth+1);
        if(r.chance(1,20)) break;
    }
    eat(nl);
}

template<typename C> struct Cfg { static std::int64_t limit() { return sizeof(C) == 2 ? 4000 : sizeof(C) == 4 ? (std::int64_t(1) << 28) : (std::int64_t(1) << 48); } };

static Input input(Rng &r,std::int64_t limit,int size) {
    Input in;
    std::int64_t m = r.chance(1,2) ? std::min<std::int64_t>(limit,r.range(5,900)) : r.chance(1,2) ? std::min<std::int64_t>(limit,std::int64_t(1) << r.range(3,20)) : limit;
    in = r.chance(1,4) ? gen_lattice(r,std::min(size,1)) : gen_general(r,m,size);
    for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) { p.x = std::clamp(p.x,-limit,limit); p.y = std::clamp(p.y,-limit,limit); }
    if(r.chance(1,6)) in.s.push_back({});
    if(r.chance(1,6)) in.s.insert(in.s.begin(),Loop{{3,4}});
    if(r.chance(1,6)) in.c.push_back(Loop{{1,1},{5,7}});
    return in;
}

template<typename C,typename Cl> void add(Rng &r,Cl &cl,const std::vector<std::vector<point_t<C>>> &ls,bool_set set) {
    switch(r.range(0,7)) {
    case 0: cl.add_loops(ls,set); break;
    case 1: for(auto &l : ls) cl.add_loops(l,set); break;
    case 2: for(auto &l : ls) { auto s = cl.add_loop(set); for(auto &p : l) s(p); } break;
    case 3: for(auto &l : ls) { std::forward_list<point_t<C>> f(l.begin(),l.end()); cl.add_loops(f,set); } break;
    case 4: for(auto &l : ls) cl.add_loops(l | std::views::transform([](const point_t<C> &p) { return point_t<C>(p[0],p[1]); }),set); break;
    case 5: for(auto &l : ls) cl.add_loops(l | std::views::take_while([](const auto&) { return true; }),set); break;
    case 6: for(auto &l : ls) cl.add_loops(po::blob_to_point_range<C>(l.data(),sizeof(C),sizeof(point_t<C>),l.size()),set); break;
    default: { std::list<std::list<point_t<C>>> x; for(auto &l : ls) x.emplace_back(l.begin(),l.end()); cl.add_loops(x,set); }
    }
}
template<typename C,typename Cl> void add_off(Rng &r,Cl &cl,const std::vector<std::vector<point_t<C>>> &ls,bool_set set,std::int64_t limit) {
    double mag = (r.chance(1,3) ? -1.0 : 1.0)*(r.chance(1,8) ? 0.0 : r.chance(1,4) ? double(std::min<std::int64_t>(limit/2,5000))*r.real() : 12*r.real());
    std::int64_t least = std::max<std::int64_t>(1,std::int64_t(std::fabs(mag)/40));
    C step = C(std::min<std::int64_t>(r.range(least,least*60),30000));
    bool closed = r.chance(2,3);
    cur += " offset(" + std::to_string(mag) + "," + std::to_string(step) + (closed ? ")" : ",open)");
    switch(r.range(0,2)) {
    case 0: po::add_offset(cl,ls,set,mag,step,closed); break;
    case 1: for(auto &l : ls) po::add_offset(cl,l,set,mag,step,closed); break;
    default: for(auto &l : ls) { std::forward_list<point_t<C>> f(l.begin(),l.end()); po::add_offset(cl,f,set,mag,step,closed); }
    }
}

template<typename C,typename I> void program(Rng &r) {
    const std::int64_t limit = Cfg<C>::limit();
    bool small = sizeof(I) == 2;
    std::pmr::monotonic_buffer_resource mono;
    std::pmr::memory_resource *pick[] = {nullptr,std::pmr::new_delete_resource(),&mono};
    auto rs = [&]{ return pick[r.range(0,2)]; };
    std::optional<po::clipper<C,I>> a; std::optional<po::origin_tracked_clipper<C,I>> t;
    po::draw::rasterizer<C> rast;
    a.emplace(rs()); t.emplace(rs());
    int steps = int(r.range(1,9));
    cur = "program coord" + std::to_string(sizeof(C)*8) + " index" + std::to_string(sizeof(I)*8) + (std::is_signed_v<I> ? "s:" : "u:");
    auto data = [&](std::int64_t lim) { Input in = input(r,lim,small ? 0 : r.chance(1,12) ? 2 : int(r.range(0,1))); cur += " " + in.str().substr(0,3000); return in; };
    // room for offsets and for differences
    for(int s=0;s<steps;++s) {
        try {
            iter_count = 0; iter_limit = 20000;
            bool_op op = ops[r.range(0,4)]; bool_set set = r.chance(1,2) ? bool_set::subject : bool_set::clip;
            switch(r.range(0,13)) {
            case 0: case 1: { Input in = data(limit); cur += " add"; add<C>(r,*a,to_pts<C>(in.s),bool_set::subject); add<C>(r,*a,to_pts<C>(in.c),bool_set::clip); } break;
            case 2: { Input in = data(limit); cur += " tracked-add"; add<C>(r,*t,to_pts<C>(in.s),bool_set::subject); add<C>(r,*t,to_pts<C>(in.c),bool_set::clip); } break;
            case 3: { Input in = data(limit/4); add_off<C>(r,*a,to_pts<C>(in.s),set,limit/4); } break;
            case 4: { Input in = data(limit/4); cur += " tracked"; add_off<C>(r,*t,to_pts<C>(in.s),set,limit/4); } break;
            case 5: { cur += std::string(" execute ") + op_name(op); if(r.chance(1,2)) { auto o = a->template execute<false>(op); walk(r,o); if(r.chance(1,3)) walk(r,o); } else { auto o = a->template execute<true>(op); walk(r,o); } stats.ctr["executions"]++; } break;
            case 6: { cur += std::string(" tracked-execute ") + op_name(op); if(r.chance(1,2)) { auto o = t->template execute<false>(op); walk(r,o); } else { auto o = t->template execute<true>(op); walk(r,o); walk(r,o); } stats.ctr["executions"]++; } break;
            case 7: { cur += std::string(" moved-execute ") + op_name(op); auto o = std::move(*a).template execute<false>(op); a.emplace(rs()); auto o2 = std::move(o); walk(r,o2); stats.ctr["executions"]++; } break;
            case 8: { cur += std::string(" moved-tracked-tree ") + op_name(op); auto o = std::move(*t).template execute<true>(op); t.emplace(rs()); auto o2 = std::move(o); walk(r,o2); stats.ctr["executions"]++; } break;
            case 9: { cur += " chain"; Input in = data(limit); po::clipper<C,I> b(rs()); add<C>(r,b,to_pts<C>(in.s),bool_set::subject); auto o = b.template execute<false>(op); a->add_loops(o,set); if(max_coord(in) < 4000) rast.add_loops(o); for(auto &&l : o) { t->add_loops(l,set); eat(po::winding_dir<C>(l) > 0); } stats.ctr["results_fed_back"]++; } break;
            case 10: { cur += " chain-tree"; Input in = data(limit); auto o = po::boolean_op<true,C,I>(to_pts<C>(in.s),to_pts<C>(in.c),op,rs()); walk(r,o); for(auto &&l : o) { a->add_loops(l,set); a->add_loops(l.inner_loops(),bool_set::clip); } stats.ctr["results_fed_back"]++; } break;
            case 11: { cur += " reset"; if(r.chance(1,2)) a->reset(); else t->reset(); } break;
            case 12: { Input in = data(std::min<std::int64_t>(limit,3000)); cur += " raster"; unsigned w = unsigned(r.range(1,90)), h = unsigned(r.range(1,90));
                if(r.chance(1,3)) rast.clear();
                auto p = to_pts<C>(in.s); rast.add_loops(p);
                if(r.chance(1,2)) { auto st = rast.scan_lines(w,h); po::draw::scan_line sc; int k = int(r.range(0,400)); while(k-- > 0 && st(rast,sc)) { eat(sc.x1); eat(sc.x2); eat(sc.y); eat(static_cast<std::uint64_t>(sc.winding)); } }
                else { std::vector<char> img(std::size_t(w)*h); rast.draw(w,h,[&](unsigned x1,unsigned x2,unsigned y) { for(unsigned x=x1;x<x2;++x) img.at(std::size_t(y)*w+x) = 1; },static_cast<po::draw::fill_rule_t>(r.range(0,3))); for(char c : img) eat(static_cast<std::uint64_t>(c)); }
                stats.ctr["rasters"]++; } break;
            default: { Input in = data(limit); cur += " free"; switch(r.range(0,4)) {
                case 0: { auto o = po::union_op<false,C,I>(to_pts<C>(in.s),po::origin_point_tracker<I>{rs()},rs()); walk(r,o); } break;
                case 1: { auto o = po::normalize_op<true,C,I>(to_pts<C>(in.s),rs()); walk(r,o); } break;
                case 2: { auto o = po::boolean_op<false,C,I>(to_pts<C>(in.s),to_pts<C>(in.c),op,po::origin_point_tracker<I>{},rs()); walk(r,o); } break;
                case 3: { auto q = input(r,limit/4,0); cur += q.str(); auto o = po::offset<true,C,I>(to_pts<C>(q.s),3.5,C(2),r.chance(1,2),rs()); walk(r,o); } break;
                default: { auto q = input(r,limit/4,0); cur += q.str(); auto o = po::offset<false,C,I>(to_pts<C>(q.s),-2.25,C(2),po::origin_point_tracker<I>{rs()},r.chance(1,2),rs()); walk(r,o); } }
                stats.ctr["executions"]++; }
            }
        } catch(const IterLimit&) {
            stats.ctr["given_up"]++; a.reset(); t.reset(); a.emplace(rs()); t.emplace(rs()); rast.clear();
        }
        stats.ctr["steps"]++;
    }
    stats.sig(hash_str(cur.c_str())); stats.sample(cur.substr(0,600));
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    return run_cases([](Rng &r,std::uint64_t i) {
        switch(i%5) {
        case 0: program<std::int32_t,std::size_t>(r); break;
        case 1: program<std::int64_t,std::size_t>(r); break;
        case 2: program<std::int16_t,std::uint16_t>(r); break;
        case 3: program<std::int64_t,std::int32_t>(r); break;
        default: program<std::int32_t,std::uint32_t>(r); break;
        }
    },witness);
}
