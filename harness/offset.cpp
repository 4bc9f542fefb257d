// Monitor of offsetting: the region of the real output is compared with the
// exact distance of sampled points to the input shape.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
#include <list>
#include <forward_list>
using namespace v;
using poly_ops::bool_op;
using poly_ops::bool_set;

static Input cur;
static std::string cur_note,cur_out;
static std::string witness() { return cur_note + " " + cur.str() + (cur_out.empty() ? "" : " output=" + cur_out); }

static double ndist(const std::vector<Seg> &es,const P &p,std::int64_t S) { return es.empty() ? 1e300 : min_dist(es,p,S)/double(S); }
static void cw(Loop &l) { if(area2(l) < 0) std::reverse(l.begin(),l.end()); }
static void ccw(Loop &l) { if(area2(l) > 0) std::reverse(l.begin(),l.end()); }
static void drop_dups(Loop &l) { Loop q; for(auto &p : l) if(q.empty() || q.back() != p) q.push_back(p); while(q.size() > 1 && q.front() == q.back()) q.pop_back(); l = q; }

static Loop skyline(Rng &r,std::int64_t m) {
    std::int64_t g=r.range(2,6), u=std::max<std::int64_t>(m/g,1); int n=int(r.range(2,7));
    Loop l{{0,0},{n*u,0}};
    for(int i=n;i-->0;) { std::int64_t h = r.range(1,g)*u; l.push_back({(i+1)*u,h}); l.push_back({i*u,h}); }
    bool sw = r.chance(1,2);
    for(auto &p : l) { p.x -= n*u/2; if(sw) std::swap(p.x,p.y); }
    drop_dups(l); cw(l);
    return l;
}
static Loop convex(Rng &r,std::int64_t m,std::int64_t cx=0,std::int64_t cy=0) {
    Loop l; int n=int(r.range(3,10)); double sq = 0.2 + 0.8*r.real();
    for(int i=0;i<n;++i) { double a=(i+0.7*r.real())*6.283185307179586/n; l.push_back({cx+std::int64_t(double(m)*std::cos(a)),cy+std::int64_t(double(m)*std::sin(a)*sq)}); }
    drop_dups(l); cw(l);
    return l;
}
static bool simple(const Loops &ls) {
    auto es = edges_of(ls);
    std::set<P> pts;
    for(auto &l : ls) { if(l.size() < 3) return false; for(auto &p : l) if(!pts.insert(p).second) return false; }
    for(std::size_t i=0;i<es.size();++i) for(std::size_t j=i+1;j<es.size();++j) if(bad_relation(es[i],es[j])) return false;
    return true;
}

// interior on the same side of every edge, winding 0 or 1 everywhere
static bool solid(const Loops &ls) {
    for(auto &e : edge_sides(ls)) if(!((e.left == 0 && e.right == 1) || (e.left == 1 && e.right == 0))) return false;
    return true;
}

// edges running back over each other enclose nothing
static std::vector<Seg> uncancelled(const std::vector<Seg> &es) {
    std::map<std::pair<P,P>,int> n;
    for(auto &e : es) { if(e.a < e.b) ++n[{e.a,e.b}]; else --n[{e.b,e.a}]; }
    std::vector<Seg> r;
    for(auto &[k,c] : n) for(int i=0;i<std::abs(c);++i) r.push_back(c > 0 ? Seg{k.first,k.second} : Seg{k.second,k.first});
    return r;
}

// loops without any thickness are left over from rounding and carry no region
static void drop_thin(Loops &ls) {
    std::erase_if(ls,[](const Loop &l) {
        double per = 0, a = double(area2(l));
        for(std::size_t i=0;i<l.size();++i) { P d = l[(i+1)%l.size()]; per += std::hypot(double(d.x-l[i].x),double(d.y-l[i].y)); }
        bool thin = a < 2*per && a > -2*per;
        if(thin) stats.ctr["thin_loops"]++;
        return thin;
    });
}

struct Spec { bool open = false; double mag = 0; int step = 1; bool lines = false; };

// expected membership: 1 inside, 0 outside, -1 too close to the border to say.
static int expect(const std::vector<Seg> &es,bool area,const P &p,std::int64_t S,const Spec &sp,double sag,double tol,double *sd_out=nullptr) {
    double d = ndist(es,p,S);
    bool inside = area && !on_any_edge(es,p,S) && winding(es,p,S) > 0;
    double sd = inside ? -d : d;
    if(sd_out) *sd_out = sd;
    double am = std::abs(sp.mag);
    if(sp.mag > 0) { if(sd < am - sag - tol) return 1; if(sd > am + tol) return 0; }
    else { if(sd < -am - tol) return 1; if(sd > -am + sag + tol) return 0; }
    return -1;
}

template<typename C,typename I> Loops run_offset(Rng &r,const Loops &in,const Spec &sp) {
    iter_count = 0;
    auto pts = to_pts<C>(in);
    bool tree = r.chance(1,4);
    auto fl = [](auto &&t) { Loops o; flatten(t,o); return o; };
    switch(r.range(0,6)) {
    case 0:
        if(tree) return fl(tree_of(poly_ops::offset<true,C,I>(pts,sp.mag,C(sp.step),!sp.open)));
        return loops_of(poly_ops::offset<false,C,I>(pts,sp.mag,C(sp.step),!sp.open));
    case 1: {
        poly_ops::clipper<C,I> c;
        poly_ops::add_offset_subject(c,pts,sp.mag,C(sp.step),!sp.open);
        if(tree) return fl(tree_of(c.template execute<true>(bool_op::union_)));
        return loops_of(c.template execute<false>(bool_op::union_)); }
    case 2: {
        poly_ops::clipper<C,I> c;
        for(auto &l : pts) poly_ops::add_offset_clip(c,l,sp.mag,C(sp.step),!sp.open);
        return loops_of(c.template execute<false>(bool_op::union_)); }
    case 3: { // forward-only input
        poly_ops::clipper<C,I> c;
        for(auto &l : pts) { std::forward_list<poly_ops::point_t<C>> fw(l.begin(),l.end()); poly_ops::add_offset(c,fw,bool_set::subject,sp.mag,C(sp.step),!sp.open); }
        return loops_of(c.template execute<false>(bool_op::union_)); }
    case 4: { // sentinel-terminated, single-pass-like input
        poly_ops::clipper<C,I> c;
        for(auto &l : pts) {
            auto w = l | std::views::take_while([](const auto&) { return true; });
            if(l.empty()) continue;
            poly_ops::add_offset(c,w,bool_set::subject,sp.mag,C(sp.step),!sp.open); }
        return loops_of(c.template execute<false>(bool_op::union_)); }
    case 5: {
        poly_ops::origin_tracked_clipper<C,I> c;
        poly_ops::add_offset_subject(c,pts,sp.mag,C(sp.step),!sp.open);
        Loops o; 
        if(tree) { return fl(tree_of(c.template execute<true>(bool_op::union_))); }
        return loops_of(c.template execute<false>(bool_op::union_)); }
    default: {
        std::list<std::list<poly_ops::point_t<C>>> li; for(auto &l : pts) li.emplace_back(l.begin(),l.end());
        return loops_of(poly_ops::offset<false,C,I>(li,sp.mag,C(sp.step),!sp.open)); }
    }
}
static Loops run_any(Rng &r,const Loops &in,const Spec &sp) {
    switch(r.range(0,3)) {
    case 0: return run_offset<std::int64_t,std::size_t>(r,in,sp);
    case 1: return run_offset<std::int32_t,std::uint32_t>(r,in,sp);
    case 2: return run_offset<std::int64_t,std::int32_t>(r,in,sp);
    default: return run_offset<std::int32_t,std::size_t>(r,in,sp);
    }
}

static void one(Rng &r,std::uint64_t) {
    cur = Input{}; cur_out.clear(); cur_note.clear();
    std::int64_t m = r.chance(1,2) ? 200 : r.chance(1,2) ? 3000 : r.chance(1,2) ? 30 : 300000;
    Spec sp;
    int fam = int(r.range(0,8));
    static const char *names[] = {"convex","rect","star","skyline","ring","several","open","points","pair"};
    cur.family = names[fam];
    bool area = true;
    double tol = 3;
    switch(fam) {
    case 0: cur.s.push_back(convex(r,m)); break;
    case 1: cur.s.push_back(gen_rect(r,-m,m)); cw(cur.s[0]); break;
    case 2: cur.s.push_back(gen_star(r,int(r.range(3,12)),0,0,m,false)); break;
    case 3: cur.s.push_back(skyline(r,m)); break;
    case 4: { Loop o = r.chance(1,2) ? convex(r,m) : gen_star(r,int(r.range(5,12)),0,0,m,false); Loop h = r.chance(1,2) ? convex(r,std::max<std::int64_t>(m/5,4)) : gen_star(r,int(r.range(3,9)),0,0,std::max<std::int64_t>(m/5,4),false); ccw(h); cur.s = {o,h}; if(r.chance(1,2)) std::swap(cur.s[0],cur.s[1]); break; }
    case 5: { int n=int(r.range(2,5)); for(int i=0;i<n;++i) { Loop l = r.chance(1,2) ? convex(r,std::max<std::int64_t>(m/5,4)) : skyline(r,std::max<std::int64_t>(m/6,4)); std::int64_t dx=(i%3)*m-m,dy=(i/3)*m-m/2; for(auto &p : l) { p.x+=dx; p.y+=dy; } cur.s.push_back(l); } break; }
    case 6: { sp.open = true; int n=int(r.range(1,3)); for(int i=0;i<n;++i) { Loop l = gen_random_loop(r,int(r.range(2,6)),-m,m); drop_dups(l); if(r.chance(1,5) && l.size()>1) l.push_back(l[0]); if(r.chance(1,5)) for(auto &p : l) p.y = 0; cur.s.push_back(l); } tol = 4.5; break; }
    case 7: { int n=int(r.range(1,4)); sp.open = r.chance(1,2); for(int i=0;i<n;++i) cur.s.push_back(Loop(std::size_t(r.range(1,3)),P{r.range(-m,m),r.range(-m,m)})); area = false; break; }
    default: { P a{r.range(-m,m),r.range(-m,m)}, b{r.range(-m,m),r.range(-m,m)}; if(a == b) b.x += 5; cur.s.push_back({a,b}); area = false; sp.open = r.chance(1,2); }
    }
    if(sp.open) area = false;
    if(area) { for(auto &l : cur.s) drop_dups(l); if(!simple(cur.s) || !solid(cur.s)) { stats.ctr["rejected_inputs"]++; return; } }
    // duplicates and the choice of the first point do not matter
    if(area) for(auto &l : cur.s) if(r.chance(1,2)) std::rotate(l.begin(),l.begin()+r.range(0,std::int64_t(l.size())-1),l.end());
    if(r.chance(1,4)) for(auto &l : cur.s) { Loop o; for(auto &p : l) { o.push_back(p); while(r.chance(1,4)) o.push_back(p); } if(area && r.chance(1,3)) o.push_back(o.front()); l = o; }
    if(r.chance(1,8)) cur.s.insert(cur.s.begin()+r.range(0,std::int64_t(cur.s.size())),Loop{});
    int big = int(r.range(0,3));
    sp.mag = double(r.range(1,big == 0 ? 2*m : big == 1 ? std::max<std::int64_t>(m/20,2) : std::max<std::int64_t>(m/2,2))) + (r.chance(1,2) ? r.real() : 0);
    if(r.chance(2,5)) sp.mag = -sp.mag;
    if(r.chance(1,40)) sp.mag = 0.3*r.real();
    double am = std::abs(sp.mag);
    sp.step = int(r.range(1,r.chance(1,2) ? 6 : 80));
    if(am/sp.step > 3000) sp.step = int(am/3000)+1;
    cur_note = "magnitude=" + std::to_string(sp.mag) + " arc_step=" + std::to_string(sp.step) + (sp.open?" open":" closed");

    Loops out = run_any(r,cur.s,sp);
    cur_out = str(out).substr(0,1500);
    auto es = edges_of(cur.s);
    if(sp.open || !area) { es.clear(); for(auto &l : cur.s) { if(l.size()==1) es.push_back({l[0],l[0]}); for(std::size_t i=0;i+1<l.size();++i) es.push_back({l[i],l[i+1]}); } }
    drop_thin(out);
    auto eo = uncancelled(edges_of(out));
    std::set<P> live; for(auto &e : eo) { live.insert(e.a); live.insert(e.b); }
    double sag = am > 0 ? am*(1-std::cos(std::min(double(sp.step)/am,1.5707963267949))) : 0;
    const std::int64_t S=4;
    stats.ctr[std::string(sp.mag > 0 ? "outset_" : "inset_") + cur.family]++;

    // second use: the offset takes part in a boolean operation with the shape
    bool combine = area && sp.mag < 0 && r.chance(1,4);
    Loops frame;
    std::vector<Seg> ef;
    if(combine) {
        typedef std::int32_t C;
        iter_count = 0;
        poly_ops::clipper<C> c;
        c.add_loops_subject(to_pts<C>(cur.s));
        poly_ops::add_offset(c,to_pts<C>(cur.s),bool_set::clip,sp.mag,C(sp.step));
        frame = loops_of(c.execute<false>(bool_op::difference));
        drop_thin(frame);
        ef = uncancelled(edges_of(frame));
        stats.ctr["frames"]++;
    }

    auto judge = [&](P p) {
        double sd;
        int want = expect(es,area,p,S,sp,sag,tol,&sd);
        if(want < 0) return;
        stats.ctr[want ? "samples_inside" : "samples_outside"]++;
        // rounding leaves slits and slivers no wider than two units
        bool on = on_any_edge(eo,p,S);
        int w = on ? 1-want : winding(eo,p,S);
        if(w != want && ndist(eo,p,S) < 1.6) { stats.ctr["samples_in_slits"]++; return; }
        if(w != want) throw Viol{want ? "missing" : "extra","at " + str(p) + "/4, signed distance " + std::to_string(sd) + " to the input: expected winding " + std::to_string(want) + " but got " + std::to_string(w) + " (arc tolerance " + std::to_string(sag) + ")"};
        if(combine && std::abs(sd) > tol && !on_any_edge(ef,p,S)) {
            int fw = winding(ef,p,S), fe = sd < 0 && !want;
            if(fw != fe && ndist(ef,p,S) >= 1.6) throw Viol{"combined","at " + str(p) + "/4, signed distance " + std::to_string(sd) + ": shape minus its inset has winding " + std::to_string(fw) + " instead of " + std::to_string(fe)};
            stats.ctr["samples_combined"]++;
        }
    };
    std::int64_t lx=INT64_MAX,hx=INT64_MIN,ly=INT64_MAX,hy=INT64_MIN;
    for(auto &e : es) for(auto &p : {e.a,e.b}) { lx=std::min(lx,p.x);hx=std::max(hx,p.x);ly=std::min(ly,p.y);hy=std::max(hy,p.y); }
    std::int64_t g = std::int64_t(sp.mag > 0 ? am : 0) + 8;
    for(int i=0;i<60;++i) judge({r.range((lx-g)*S,(hx+g)*S),r.range((ly-g)*S,(hy+g)*S)});
    // around the expected border
    for(int i=0;i<80;++i) {
        const Seg &e = r.pick(es);
        double ln = std::hypot(double(e.b.x-e.a.x),double(e.b.y-e.a.y));
        double t = r.chance(1,3) ? 0 : r.real();
        double px = double(e.a.x)+t*double(e.b.x-e.a.x), py = double(e.a.y)+t*double(e.b.y-e.a.y);
        double q = am + (r.real()-0.5)*2*(sag + tol + 3 + 0.05*am);
        double a = (t == 0 || ln == 0) ? r.real()*6.283185307179586 : std::atan2(double(e.b.x-e.a.x),-double(e.b.y-e.a.y)) + (r.chance(1,2)?0:3.14159265358979);
        judge({std::int64_t((px+q*std::cos(a))*double(S)),std::int64_t((py+q*std::sin(a))*double(S))});
    }
    // arcs are cut no further than the arc step allows: every output vertex is on
    // the border
    for(auto &l : out) {
      for(auto &p : l) if(live.count(p)) {
        P q{p.x*S,p.y*S};
        double sd;
        int want = expect(es,area,q,S,sp,sag,tol+4,&sd);
        if(want >= 0) throw Viol{"stray-vertex","output vertex " + str(p) + ", at signed distance " + std::to_string(sd) + ", is not on the border of the offset shape"};
        stats.ctr["vertices_checked"]++;
      }
    }
    stats.sig(sig_of(cur.s,mix64(std::uint64_t(sp.mag*64)) ^ std::uint64_t(sp.step)));
    stats.sample(witness().substr(0,500));
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    return run_cases(one,witness);
}
