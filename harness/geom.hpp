// Polygon generators and exact-integer geometric oracles. Nothing in this file
// uses the library under test.
#pragma once
#include <numeric>
#include "vcommon.hpp"

namespace v {

struct P { std::int64_t x,y;
    friend bool operator==(const P&a,const P&b){return a.x==b.x&&a.y==b.y;}
    friend bool operator!=(const P&a,const P&b){return !(a==b);}
    friend bool operator<(const P&a,const P&b){return a.x<b.x||(a.x==b.x&&a.y<b.y);} };
typedef std::vector<P> Loop;
typedef std::vector<Loop> Loops;
struct Seg { P a,b; };

inline std::string str(const P &p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; }
inline std::string str(const Loop &l) {
    std::string s = "["; for(std::size_t i=0;i<l.size();++i) { if(i) s += ","; s += "[" + std::to_string(l[i].x) + "," + std::to_string(l[i].y) + "]"; } return s + "]"; }
inline std::string str(const Loops &ls) {
    std::string s = "["; for(std::size_t i=0;i<ls.size();++i) { if(i) s += ","; s += str(ls[i]); } return s + "]"; }

inline i128 cross(const P &a,const P &b,const P &c) {
    return static_cast<i128>(b.x-a.x)*(c.y-a.y) - static_cast<i128>(c.x-a.x)*(b.y-a.y);
}
inline int sgn(i128 v) { return (v>0)-(v<0); }

inline i128 area2(const Loop &l) {
    i128 r = 0;
    for(std::size_t i=0;i<l.size();++i) { const P &a=l[i],&b=l[(i+1)%l.size()]; r += static_cast<i128>(a.x)*b.y - static_cast<i128>(b.x)*a.y; }
    return r; // positive = clockwise with y pointing down
}

inline std::vector<Seg> edges_of(const Loops &ls) {
    std::vector<Seg> r;
    for(auto &l : ls) for(std::size_t i=0;i<l.size();++i) r.push_back({l[i],l[(i+1)%l.size()]});
    return r;
}

// winding number of the loops (given as directed edges) around p; coordinates
// of the edges are multiplied by `scale` first. p must not be on an edge.
inline int winding(const std::vector<Seg> &es,const P &p,std::int64_t scale) {
    int w = 0;
    for(auto &e : es) {
        P a{e.a.x*scale,e.a.y*scale}, b{e.b.x*scale,e.b.y*scale};
        if((a.y <= p.y) != (b.y <= p.y)) {
            i128 c = cross(a,b,p);
            // ray toward +x
            if(a.y <= p.y) { if(c > 0) ++w; }
            else if(c < 0) --w;
        }
    }
    return w;
}

inline bool on_any_edge(const std::vector<Seg> &es,const P &p,std::int64_t scale) {
    for(auto &e : es) {
        P a{e.a.x*scale,e.a.y*scale}, b{e.b.x*scale,e.b.y*scale};
        if(cross(a,b,p) == 0
            && std::min(a.x,b.x) <= p.x && p.x <= std::max(a.x,b.x)
            && std::min(a.y,b.y) <= p.y && p.y <= std::max(a.y,b.y)) return true;
    }
    return false;
}

inline double dist_to_seg(const P &p,const Seg &s,std::int64_t scale) {
    double ax=double(s.a.x)*double(scale), ay=double(s.a.y)*double(scale), bx=double(s.b.x)*double(scale), by=double(s.b.y)*double(scale);
    double px=double(p.x), py=double(p.y);
    double vx=bx-ax, vy=by-ay, l2=vx*vx+vy*vy;
    double t = l2 > 0 ? ((px-ax)*vx+(py-ay)*vy)/l2 : 0;
    t = std::max(0.0,std::min(1.0,t));
    double dx=ax+t*vx-px, dy=ay+t*vy-py;
    return __builtin_sqrt(dx*dx+dy*dy);
}
// result in scaled units
inline double min_dist(const std::vector<Seg> &es,const P &p,std::int64_t scale) {
    double m = 1e300;
    for(auto &e : es) m = std::min(m,dist_to_seg(p,e,scale));
    return m;
}

// Relation of two segments with respect to the guarantee "edges only touch at
// end points of both, or coincide completely". Returns nullptr when allowed.
inline const char *bad_relation(const Seg &s,const Seg &t) {
    if(std::max(s.a.x,s.b.x) < std::min(t.a.x,t.b.x) || std::max(t.a.x,t.b.x) < std::min(s.a.x,s.b.x)
        || std::max(s.a.y,s.b.y) < std::min(t.a.y,t.b.y) || std::max(t.a.y,t.b.y) < std::min(s.a.y,s.b.y)) return nullptr;
    if((s.a == t.a && s.b == t.b) || (s.a == t.b && s.b == t.a)) return nullptr;
    int d1 = sgn(cross(s.a,s.b,t.a)), d2 = sgn(cross(s.a,s.b,t.b));
    int d3 = sgn(cross(t.a,t.b,s.a)), d4 = sgn(cross(t.a,t.b,s.b));
    auto interior = [](const Seg &q,const P &p) { // p known collinear with q
        return p != q.a && p != q.b
            && std::min(q.a.x,q.b.x) <= p.x && p.x <= std::max(q.a.x,q.b.x)
            && std::min(q.a.y,q.b.y) <= p.y && p.y <= std::max(q.a.y,q.b.y);
    };
    if(d1 == 0 && d2 == 0) {
        if(interior(s,t.a) || interior(s,t.b) || interior(t,s.a) || interior(t,s.b)) return "partial-overlap";
        return nullptr;
    }
    if(d1 == 0 && interior(s,t.a)) return "endpoint-inside-edge";
    if(d2 == 0 && interior(s,t.b)) return "endpoint-inside-edge";
    if(d3 == 0 && interior(t,s.a)) return "endpoint-inside-edge";
    if(d4 == 0 && interior(t,s.b)) return "endpoint-inside-edge";
    if(d1*d2 < 0 && d3*d4 < 0) return "crossing";
    return nullptr;
}

// throws Viol when the arrangement guarantee is broken
inline void check_arrangement(const Loops &out,const char *what) {
    auto es = edges_of(out);
    std::vector<std::size_t> ord(es.size());
    for(std::size_t i=0;i<es.size();++i) {
        ord[i] = i;
        if(es[i].a == es[i].b) throw Viol{"zero-length-edge",std::string(what) + ": output edge of zero length at " + str(es[i].a)};
    }
    auto lo = [&](std::size_t i){ return std::min(es[i].a.x,es[i].b.x); };
    auto hi = [&](std::size_t i){ return std::max(es[i].a.x,es[i].b.x); };
    std::sort(ord.begin(),ord.end(),[&](std::size_t a,std::size_t b){ return lo(a) < lo(b); });
    for(std::size_t i=0;i<ord.size();++i) {
        for(std::size_t j=i+1;j<ord.size();++j) {
            if(lo(ord[j]) > hi(ord[i])) break;
            if(const char *r = bad_relation(es[ord[i]],es[ord[j]])) {
                auto &s = es[ord[i]]; auto &t = es[ord[j]];
                throw Viol{r,std::string(what) + ": output edges " + str(s.a) + "-" + str(s.b) + " and " + str(t.a) + "-" + str(t.b) + " have relation " + r};
            }
        }
    }
}

// Winding numbers immediately to the two sides of the middle of each distinct
// edge; the arrangement must already be known to be valid. Coordinates must be
// below 2^16 in magnitude.
struct EdgeSides { Seg e; int left,right; int mult; };
inline std::vector<EdgeSides> edge_sides(const Loops &out) {
    auto es = edges_of(out);
    std::set<std::pair<P,P>> done;
    std::vector<EdgeSides> r;
    const std::int64_t S = std::int64_t(1) << 40;
    for(auto &e : es) {
        auto k = std::minmax(e.a,e.b);
        if(!done.insert({k.first,k.second}).second) continue;
        // normal vector rotated: direction d, left normal n
        std::int64_t dx = e.b.x-e.a.x, dy = e.b.y-e.a.y;
        std::int64_t m = std::max(std::abs(dx),std::abs(dy));
        // offset below 2^-18 units
        std::int64_t nx = (-dy) * (std::int64_t(1) << 20) / m, ny = dx * (std::int64_t(1) << 20) / m;
        P mid{(e.a.x+e.b.x)*(S/2),(e.a.y+e.b.y)*(S/2)};
        P l{mid.x+nx,mid.y+ny}, rr{mid.x-nx,mid.y-ny};
        r.push_back({e,winding(es,l,S),winding(es,rr,S),0});
    }
    return r;
}

// ---------------------------------------------------------------------------
// generators

inline Loop gen_random_loop(Rng &r,int n,std::int64_t lo,std::int64_t hi) {
    Loop l;
    for(int i=0;i<n;++i) l.push_back({r.range(lo,hi),r.range(lo,hi)});
    return l;
}
inline Loop gen_star(Rng &r,int n,std::int64_t cx,std::int64_t cy,std::int64_t rad,bool ccw) {
    Loop l;
    for(int i=0;i<n;++i) {
        double a = (i + 0.8*r.real()) * 6.283185307179586 / n;
        double q = double(rad) * (0.3 + 0.7*r.real());
        l.push_back({cx + static_cast<std::int64_t>(q*__builtin_cos(a)),cy + static_cast<std::int64_t>(q*__builtin_sin(a))});
    }
    if(ccw) std::reverse(l.begin(),l.end());
    return l;
}
inline Loop gen_rectilinear(Rng &r,int n,std::int64_t lo,std::int64_t hi) {
    // alternating horizontal and vertical moves, closed
    std::vector<std::int64_t> xs,ys;
    for(int i=0;i<n;++i) { xs.push_back(r.range(lo,hi)); ys.push_back(r.range(lo,hi)); }
    Loop l;
    for(int i=0;i<n;++i) { l.push_back({xs[std::size_t(i)],ys[std::size_t(i)]}); l.push_back({xs[std::size_t((i+1)%n)],ys[std::size_t(i)]}); }
    return l;
}
inline Loop gen_rect(Rng &r,std::int64_t lo,std::int64_t hi) {
    std::int64_t x1=r.range(lo,hi-1),x2=r.range(x1+1,hi),y1=r.range(lo,hi-1),y2=r.range(y1+1,hi);
    Loop l{{x1,y1},{x2,y1},{x2,y2},{x1,y2}};
    if(r.chance(1,3)) std::reverse(l.begin(),l.end());
    if(r.chance(1,2)) std::rotate(l.begin(),l.begin()+r.range(0,3),l.end());
    return l;
}
// octilinear closed walk with even coordinates: every edge horizontal, vertical
// or diagonal, so every intersection of two edges is a lattice point
inline Loop gen_octi(Rng &r,int n,std::int64_t lo,std::int64_t hi) {
    Loop l;
    P p{r.range(lo,hi)*2,r.range(lo,hi)*2};
    P start = p;
    l.push_back(p);
    static const int dx[8]={1,1,0,-1,-1,-1,0,1}, dy[8]={0,1,1,1,0,-1,-1,-1};
    for(int i=0;i<n;++i) {
        int d = int(r.range(0,7));
        std::int64_t maxk = 1000000;
        if(dx[d] > 0) maxk = std::min(maxk,(hi*2-p.x)/2);
        if(dx[d] < 0) maxk = std::min(maxk,(p.x-lo*2)/2);
        if(dy[d] > 0) maxk = std::min(maxk,(hi*2-p.y)/2);
        if(dy[d] < 0) maxk = std::min(maxk,(p.y-lo*2)/2);
        if(maxk < 1) continue;
        std::int64_t k = r.range(1,maxk)*2;
        p.x += dx[d]*k; p.y += dy[d]*k;
        l.push_back(p);
    }
    // close with an L (keeps everything octilinear)
    if(p.x != start.x && p.y != start.y) l.push_back({start.x,p.y});
    return l;
}

struct Input {
    Loops s,c;
    std::string family;
    std::string str() const { return "family=" + family + " subject=" + v::str(s) + " clip=" + v::str(c); }
};

inline void sprinkle_dups(Rng &r,Loop &l) {
    Loop o;
    for(auto &p : l) { o.push_back(p); while(r.chance(1,5)) o.push_back(p); }
    if(r.chance(1,4) && !o.empty()) o.push_back(o.front());
    l = o;
}

// hostile general inputs; maximal coordinate magnitude `mag`
inline Input gen_general(Rng &r,std::int64_t mag,int size_class) {
    Input in;
    int fam = int(r.range(0,11));
    auto nl = [&](int hi) { return int(r.range(1,hi)); };
    int maxn = size_class == 0 ? 6 : size_class == 1 ? 14 : 40;
    switch(fam) {
    case 0: { // tiny grid, random loops
        in.family = "tiny-grid";
        std::int64_t g = r.range(2,7);
        int a = nl(3), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(gen_random_loop(r,int(r.range(3,maxn)),0,g));
        for(int i=0;i<b;++i) in.c.push_back(gen_random_loop(r,int(r.range(3,maxn)),0,g));
        break; }
    case 1: { // medium grid random loops
        in.family = "mid-grid";
        std::int64_t g = r.range(8,60);
        int a = nl(3), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(gen_random_loop(r,int(r.range(3,maxn)),-g,g));
        for(int i=0;i<b;++i) in.c.push_back(gen_random_loop(r,int(r.range(3,maxn)),-g,g));
        break; }
    case 2: { // large range random loops
        in.family = "wide";
        int a = nl(2), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(gen_random_loop(r,int(r.range(3,maxn)),-mag,mag));
        for(int i=0;i<b;++i) in.c.push_back(gen_random_loop(r,int(r.range(3,maxn)),-mag,mag));
        break; }
    case 3: { // stars
        in.family = "stars";
        int a = nl(3), b = int(r.range(0,3));
        auto st = [&]{ std::int64_t rad = r.range(std::max<std::int64_t>(mag/8,3),std::max<std::int64_t>(mag/2,4)); std::int64_t c = std::max<std::int64_t>(mag-rad,0);
            return gen_star(r,int(r.range(3,maxn)),r.range(-c,c),r.range(-c,c),rad,r.chance(1,3)); };
        for(int i=0;i<a;++i) in.s.push_back(st());
        for(int i=0;i<b;++i) in.c.push_back(st());
        break; }
    case 4: { // slivers: nearly collinear points
        in.family = "slivers";
        int a = nl(3), b = int(r.range(0,2));
        auto sl = [&]{ Loop l; int n=int(r.range(3,maxn)); bool vert=r.chance(1,2); std::int64_t base=r.range(-5,5);
            std::int64_t m = r.chance(1,2) ? 30 : mag;
            for(int i=0;i<n;++i) { std::int64_t u=r.range(-m,m), w=base+r.range(-2,2); l.push_back(vert?P{w,u}:P{u,w}); } return l; };
        for(int i=0;i<a;++i) in.s.push_back(sl());
        for(int i=0;i<b;++i) in.c.push_back(sl());
        break; }
    case 5: { // rectilinear
        in.family = "rectilinear";
        std::int64_t g = r.range(3,20);
        int a = nl(4), b = int(r.range(0,3));
        for(int i=0;i<a;++i) in.s.push_back(r.chance(1,2)?gen_rect(r,0,g):gen_rectilinear(r,int(r.range(2,std::max(3,maxn/2))),0,g));
        for(int i=0;i<b;++i) in.c.push_back(r.chance(1,2)?gen_rect(r,0,g):gen_rectilinear(r,int(r.range(2,std::max(3,maxn/2))),0,g));
        break; }
    case 6: { // coincident copies
        in.family = "copies";
        std::int64_t g = r.range(4,30);
        Loop base = r.chance(1,2) ? gen_random_loop(r,int(r.range(3,maxn)),0,g) : gen_star(r,int(r.range(3,maxn)),0,0,g,false);
        int a = nl(3), b = int(r.range(0,3));
        auto cp = [&]{ Loop l = base; if(r.chance(1,3)) std::reverse(l.begin(),l.end());
            std::rotate(l.begin(),l.begin()+r.range(0,std::int64_t(l.size())-1),l.end());
            if(r.chance(1,3)) { std::int64_t dx=r.range(-1,1),dy=r.range(-1,1); for(auto &p:l){p.x+=dx;p.y+=dy;} }
            if(r.chance(1,4)) l[std::size_t(r.range(0,std::int64_t(l.size())-1))].x += r.range(-2,2);
            return l; };
        for(int i=0;i<a;++i) in.s.push_back(cp());
        for(int i=0;i<b;++i) in.c.push_back(cp());
        break; }
    case 7: { // spikes: out-and-back excursions
        in.family = "spikes";
        std::int64_t g = r.range(4,25);
        auto sp = [&]{ Loop l = gen_random_loop(r,int(r.range(3,std::max(4,maxn/2))),0,g); Loop o;
            for(auto &p : l) { o.push_back(p); if(r.chance(1,2)) { o.push_back({r.range(0,g),r.range(0,g)}); o.push_back(p); } } return o; };
        int a = nl(2), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(sp());
        for(int i=0;i<b;++i) in.c.push_back(sp());
        break; }
    case 8: { // many small loops
        in.family = "many-loops";
        std::int64_t g = r.range(6,40);
        int a = int(r.range(2,size_class == 2 ? 30 : 8)), b = int(r.range(0,size_class == 2 ? 20 : 6));
        auto t = [&]{ std::int64_t x=r.range(0,g),y=r.range(0,g); Loop l; int n=int(r.range(3,5));
            for(int i=0;i<n;++i) l.push_back({x+r.range(-4,4),y+r.range(-4,4)}); return l; };
        for(int i=0;i<a;++i) in.s.push_back(t());
        for(int i=0;i<b;++i) in.c.push_back(t());
        break; }
    case 9: { // nested squares/diamonds sharing vertices
        in.family = "nested";
        int k = int(r.range(1,size_class == 2 ? 12 : 5));
        std::int64_t st = r.range(1,4);
        for(int i=0;i<k;++i) {
            std::int64_t q = st*(i+1);
            Loop l = r.chance(1,2) ? Loop{{-q,-q},{q,-q},{q,q},{-q,q}} : Loop{{0,-q},{q,0},{0,q},{-q,0}};
            if(r.chance(1,2)) std::reverse(l.begin(),l.end());
            (r.chance(2,3) ? in.s : in.c).push_back(l);
        }
        if(in.s.empty()) in.s.push_back({{-1,-1},{1,-1},{1,1},{-1,1}});
        break; }
    case 10: { // fans: many edges through few shared points
        in.family = "fans";
        std::int64_t g = r.range(3,20);
        std::vector<P> hubs; for(int i=0;i<int(r.range(1,3));++i) hubs.push_back({r.range(0,g),r.range(0,g)});
        auto f = [&]{ Loop l; int n=int(r.range(2,std::max(3,maxn/2))); for(int i=0;i<n;++i) { l.push_back(r.pick(hubs)); l.push_back({r.range(0,g),r.range(0,g)}); } return l; };
        int a = nl(2), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(f());
        for(int i=0;i<b;++i) in.c.push_back(f());
        break; }
    default: { // octilinear on even lattice
        in.family = "octilinear";
        std::int64_t g = r.range(2,10);
        int a = nl(3), b = int(r.range(0,2));
        for(int i=0;i<a;++i) in.s.push_back(gen_octi(r,int(r.range(3,maxn)),0,g));
        for(int i=0;i<b;++i) in.c.push_back(gen_octi(r,int(r.range(3,maxn)),0,g));
        break; }
    }
    if(r.chance(1,5)) { for(auto &l : in.s) sprinkle_dups(r,l); for(auto &l : in.c) sprinkle_dups(r,l); in.family += "+dups"; }
    if(r.chance(1,10)) {
        // degenerate companions: empty, one point, two points, all equal points
        in.family += "+degenerate";
        auto dg = [&]{ Loop l; int n=int(r.range(0,3)); P p{r.range(-9,9),r.range(-9,9)}; for(int i=0;i<n;++i) { l.push_back(p); if(r.chance(1,2)) p = {r.range(-9,9),r.range(-9,9)}; } if(n==3&&r.chance(1,2)) l[1]=l[2]=l[0]; return l; };
        for(int i=0;i<int(r.range(1,3));++i) {
            auto &t = r.chance(1,2) ? in.s : in.c;
            t.insert(t.begin()+r.range(0,std::int64_t(t.size())),dg());
        }
    }
    return in;
}

// inputs whose pairwise edge intersections are all lattice points
inline Input gen_lattice(Rng &r,int size_class) {
    Input in;
    int maxn = size_class == 0 ? 5 : size_class == 1 ? 10 : 24;
    std::int64_t g = r.range(2,size_class == 2 ? 16 : 8);
    int a = int(r.range(1,4)), b = int(r.range(0,3));
    int fam = int(r.range(0,2));
    in.family = fam == 0 ? "lattice-octi" : fam == 1 ? "lattice-rect" : "lattice-mix";
    auto g1 = [&]() -> Loop {
        if(fam == 0 || (fam == 2 && r.chance(1,2))) return gen_octi(r,int(r.range(2,maxn)),0,g);
        Loop l = r.chance(1,2) ? gen_rect(r,0,g) : gen_rectilinear(r,int(r.range(2,maxn)),0,g);
        for(auto &p : l) { p.x *= 2; p.y *= 2; }
        return l;
    };
    for(int i=0;i<a;++i) in.s.push_back(g1());
    for(int i=0;i<b;++i) in.c.push_back(g1());
    if(r.chance(1,4)) { // shared copies, same or opposite direction
        Loop l = in.s[0]; if(r.chance(1,2)) std::reverse(l.begin(),l.end());
        (r.chance(1,2)?in.s:in.c).push_back(l); in.family += "+copy";
    }
    if(r.chance(1,5)) { for(auto &l : in.s) sprinkle_dups(r,l); for(auto &l : in.c) sprinkle_dups(r,l); in.family += "+dups"; }
    return in;
}

// affine copies of an input: integer scaling and translation
inline void scale_input(Input &in,std::int64_t k,std::int64_t dx,std::int64_t dy) {
    for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) { p.x = p.x*k+dx; p.y = p.y*k+dy; }
}
inline std::int64_t max_coord(const Input &in) {
    std::int64_t m = 0;
    for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) m = std::max({m,std::abs(p.x),std::abs(p.y)});
    return m;
}
// A general input, often magnified so that rounding to whole coordinates is
// small compared to the features; the magnitude stays at or below `limit`.
inline Input gen_scaled(Rng &r,std::int64_t limit,int size_class) {
    std::int64_t mag = r.chance(1,2) ? 100 : r.chance(1,2) ? 1000 : limit;
    Input in = gen_general(r,std::min(mag,limit),size_class);
    std::int64_t m = std::max<std::int64_t>(max_coord(in),1);
    if(m < limit/2 && r.chance(2,3)) {
        std::int64_t k = limit/m;
        std::int64_t f = r.chance(1,3) ? r.range(1,std::min<std::int64_t>(k,10)) : r.range(1,k);
        std::int64_t room = limit - m*f;
        scale_input(in,f,r.chance(1,2)?0:r.range(-room,room),r.chance(1,2)?0:r.range(-room,room));
        in.family += "+scaled";
    }
    return in;
}

// the non-degenerate part of a loop: consecutive duplicates dropped (the loop
// is cyclic); loops of fewer than three points disappear
inline Loops clean(const Loops &ls) {
    Loops r;
    for(auto &l : ls) {
        Loop o;
        for(auto &p : l) if(o.empty() || o.back() != p) o.push_back(p);
        while(o.size() > 1 && o.front() == o.back()) o.pop_back();
        if(o.size() >= 3) r.push_back(o);
    }
    return r;
}

// number of times each unit step of the lattice (or unit diagonal) is covered
// by edges, regardless of direction; only for octilinear edges
typedef std::map<std::pair<P,P>,int> StepMap;
inline bool step_cover(const Loops &ls,StepMap &m) {
    for(auto &e : edges_of(ls)) {
        std::int64_t dx=e.b.x-e.a.x, dy=e.b.y-e.a.y;
        std::int64_t n = std::max(std::abs(dx),std::abs(dy));
        if(n == 0) continue;
        if(!(dx == 0 || dy == 0 || std::abs(dx) == std::abs(dy))) return false;
        P p = e.a;
        for(std::int64_t i=0;i<n;++i) { P q{p.x+dx/n,p.y+dy/n}; ++m[std::minmax(p,q)]; p = q; }
    }
    return true;
}

inline std::uint64_t sig_of(const Loops &ls,std::uint64_t h=7) {
    for(auto &l : ls) { h = mix64(h ^ l.size()); for(auto &p : l) { h = mix64(h ^ std::uint64_t(p.x)); h = mix64(h ^ std::uint64_t(p.y) * 31); } }
    return h;
}

// The directed coverage of every supporting line: two sets of loops have equal
// canonical forms when the same stretches of the same lines are covered the same
// (net) number of times, however they are cut into segments and loops.
typedef std::tuple<std::int64_t,std::int64_t,std::string> LineKey;
typedef std::map<LineKey,std::map<std::int64_t,int>> Canon;
inline std::string i128_str(i128 v) { bool n = v < 0; std::string r; unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v); do { r += char('0'+int(u%10)); u /= 10; } while(u); if(n) r += '-'; std::reverse(r.begin(),r.end()); return r; }
inline Canon canon(const Loops &ls) {
    Canon c;
    for(auto &e : edges_of(ls)) {
        std::int64_t dx=e.b.x-e.a.x, dy=e.b.y-e.a.y;
        if(!dx && !dy) continue;
        std::int64_t g = std::gcd(dx,dy); dx /= g; dy /= g;
        int dir = 1;
        if(dx < 0 || (dx == 0 && dy < 0)) { dx = -dx; dy = -dy; dir = -1; }
        i128 off = i128(dx)*e.a.y - i128(dy)*e.a.x;
        auto &m = c[LineKey{dx,dy,i128_str(off)}];
        std::int64_t t1 = dx ? e.a.x : e.a.y, t2 = dx ? e.b.x : e.b.y;
        if(t1 > t2) std::swap(t1,t2);
        m[t1] += dir; m[t2] -= dir;
    }
    for(auto i=c.begin();i!=c.end();) {
        std::erase_if(i->second,[](auto &x) { return x.second == 0; });
        if(i->second.empty()) i = c.erase(i); else ++i;
    }
    return c;
}
inline std::string str(const Canon &c) {
    std::string r; int n=0;
    for(auto &[k,m] : c) { if(++n > 12) { r += "..."; break; } r += "dir(" + std::to_string(std::get<0>(k)) + "," + std::to_string(std::get<1>(k)) + ") off " + std::get<2>(k) + ":"; for(auto &[t,d] : m) r += " " + std::to_string(t) + (d>0?"+":"") + std::to_string(d); r += "; "; }
    return r;
}

} // namespace v
