// Monitors of the boolean operations: arrangement, region, orientation,
// normalize and hierarchy oracles over the output of the real clipper.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
using namespace v;
using poly_ops::bool_op;
using poly_ops::bool_set;

static Input cur;
static bool_op cur_op;
static std::string cur_cfg, cur_out;
static std::string witness() {
    return std::string("op=") + op_name(cur_op) + " config=" + cur_cfg + " " + cur.str() + (cur_out.empty() ? "" : " output=" + cur_out);
}

struct Out { Loops flat; std::vector<Node> tree; Loops treeflat; };

// configurations: coordinate type x index type
static const char *cfg_names[] = {"int32/size_t","int64/size_t","int32/uint32","int16/uint16","int64/int32"};
// lattice inputs can be run magnified by a power of two and moved far away,
// without any rounding; results are brought back before they are examined
static int up_shift = 0;
static P up_move{0,0};
static void pick_up(Rng &r,int cfg,const Input &in,bool lattice=true) {
    up_shift = 0; up_move = {0,0};
    if(r.chance(1,2)) return;
    static const int bits[] = {32,64,32,16,64};
    int w = bits[cfg] - 2, need = 1;
    while((std::int64_t(1) << need) <= max_coord(in)) ++need;
    int most = w - need - 1;
    if(most <= 0) return;
    if(lattice) up_shift = int(r.range(0,most));
    if(r.chance(1,2)) {
        std::int64_t t = (std::int64_t(1) << (w - up_shift)) - 2*(std::int64_t(1) << need);
        if(t > 0) up_move = {r.range(-t,t),r.range(-t,t)};
    }
    stats.ctr["magnified_or_moved_cases"]++;
    if(bits[cfg] == 64 && (up_shift > 31 || std::max(std::abs(up_move.x),std::abs(up_move.y)) > (std::int64_t(1) << 33))) stats.ctr["cases_beyond_32_bits"]++;
}
static Input up_in(Input in) {
    for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) for(auto &p : l) { p.x = (p.x + up_move.x) * (std::int64_t(1) << up_shift); p.y = (p.y + up_move.y) * (std::int64_t(1) << up_shift); }
    return in;
}
static void up_out(Loop &l) {
    std::int64_t q = std::int64_t(1) << up_shift;
    for(auto &p : l) {
        if(p.x % q || p.y % q) throw Viol{"not-exact","output point " + str(p) + " is off the lattice of " + std::to_string(q)};
        p.x = p.x / q - up_move.x; p.y = p.y / q - up_move.y;
    }
}
static void up_out(std::vector<Node> &t) { for(auto &n : t) { up_out(n.loop); up_out(n.kids); } }
static Out run_cfg(int cfg,const Input &in0,bool_op op,bool tree) {
    Input in = up_shift || up_move.x || up_move.y ? up_in(in0) : in0;
    cur_cfg = cfg_names[cfg]; cur_op = op; cur_out.clear();
    if(up_shift || up_move.x || up_move.y) cur_cfg += " input*2^" + std::to_string(up_shift) + " after moving by " + str(up_move);
    Out o;
    iter_inconclusive = max_coord(in) > (std::int64_t(1) << 20) && !up_shift && !up_move.x && !up_move.y;
    iter_limit = iter_inconclusive ? 3000000 : VERIF_MAX_ITERATIONS;
    auto go = [&]<typename C,typename I>() {
        o.flat = run_flat<C,I>(in,op);
        for(auto &l : o.flat) up_out(l);
        if(tree) { o.tree = run_tree<C,I>(in,op); up_out(o.tree); flatten(o.tree,o.treeflat); }
    };
    switch(cfg) {
    case 0: go.operator()<std::int32_t,std::size_t>(); break;
    case 1: go.operator()<std::int64_t,std::size_t>(); break;
    case 2: go.operator()<std::int32_t,std::uint32_t>(); break;
    case 3: go.operator()<std::int16_t,std::uint16_t>(); break;
    default: go.operator()<std::int64_t,std::int32_t>(); break;
    }
    cur_out = str(o.flat).substr(0,2500);
    return o;
}
static int pick_cfg(Rng &r,std::int64_t m,std::size_t pts) {
    int c = int(r.range(0,9));
    if(c <= 4) return 0;
    if(c <= 6) return 1;
    if(c == 7) return 2;
    if(c == 8 && m < (1<<14) && pts < 60) return 3;
    return 4;
}
static std::size_t npts(const Input &in) { std::size_t n=0; for(auto *ls : {&in.s,&in.c}) for(auto &l : *ls) n += l.size(); return n; }

static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};

static int size_class(Rng &r) { int k = int(r.range(0,19)); return k < 13 ? 0 : k < 19 ? 1 : 2; }

static bool expected_in(bool_op op,int ws,int wc) {
    switch(op) {
    case bool_op::union_: return ws+wc > 0;
    case bool_op::intersection: return ws > 0 && wc > 0;
    case bool_op::xor_: return (ws > 0) != (wc > 0);
    case bool_op::difference: return ws > 0 && !(wc > 0);
    case bool_op::normalize: return ((ws+wc) % 2) != 0;
    }
    return false;
}
static void note(const Out &o) {
    stats.ctr["output_loops"] += o.flat.size();
    std::size_t n = 0; for(auto &l : o.flat) n += l.size();
    stats.ctr["output_edges"] += n;
    if(!o.flat.empty()) stats.ctr[std::string("nonempty_") + op_name(cur_op)]++;
}

// exact region oracle: the plane is cut into triangles that no edge can cross
static void region_exact(bool_op op,const Input &in,const Loops &o) {
    auto es=edges_of(in.s), ec=edges_of(in.c), eo=edges_of(o);
    std::int64_t lx=INT64_MAX,hx=INT64_MIN,ly=INT64_MAX,hy=INT64_MIN;
    auto bb=[&](const Loops &ls){ for(auto &l:ls) for(auto &p:l){ lx=std::min(lx,p.x);hx=std::max(hx,p.x);ly=std::min(ly,p.y);hy=std::max(hy,p.y);} };
    bb(in.s);bb(in.c);
    if(lx > hx) { if(!o.empty()) throw Viol{"region","output is not empty for empty input"}; return; }
    bb(o);
    if(hx-lx > 4000 || hy-ly > 4000) throw Viol{"region","output far outside of the input's bounds"};
    for(auto y=ly-1;y<=hy;++y) for(auto x=lx-1;x<=hx;++x) {
        static const int off[4][2]={{4,1},{7,4},{4,7},{1,4}};
        for(auto &q:off) {
            P p{x*8+q[0],y*8+q[1]};
            int ws=winding(es,p,8), wc=winding(ec,p,8), wo=winding(eo,p,8);
            bool e = expected_in(op,ws,wc);
            stats.ctr["region_samples"]++;
            if(e) stats.ctr["region_samples_inside"]++;
            if(wo != (e?1:0)) throw Viol{"region","at " + str(p) + "/8: subject winding " + std::to_string(ws) + ", clip winding "
                + std::to_string(wc) + ", expected output winding " + std::to_string(e) + " but got " + std::to_string(wo)};
        }
    }
}

// sampled region oracle for arbitrary inputs; points within `tol` of an input
// edge are not judged (generated points are rounded to whole coordinates)
static void region_sampled(Rng &r,bool_op op,const Input &in,const Loops &o,double tol,int n) {
    auto es=edges_of(in.s), ec=edges_of(in.c), eo=edges_of(o);
    std::vector<Seg> all = es; all.insert(all.end(),ec.begin(),ec.end());
    if(all.empty()) { if(!o.empty()) throw Viol{"region","output is not empty for empty input"}; return; }
    std::int64_t lx=INT64_MAX,hx=INT64_MIN,ly=INT64_MAX,hy=INT64_MIN;
    for(auto &e : all) { lx=std::min(lx,std::min(e.a.x,e.b.x));hx=std::max(hx,std::max(e.a.x,e.b.x));ly=std::min(ly,std::min(e.a.y,e.b.y));hy=std::max(hy,std::max(e.a.y,e.b.y)); }
    std::vector<P> bases; for(auto &e : all) bases.push_back(e.a);
    const std::int64_t S = 4;
    auto judge = [&](P p) {
        if(min_dist(all,p,S) <= tol*double(S)) return;
        if(on_any_edge(eo,p,S)) throw Viol{"region","output edge passes through " + str(p) + "/4, far from every input edge"};
        int ws=winding(es,p,S), wc=winding(ec,p,S), wo=winding(eo,p,S);
        bool e = expected_in(op,ws,wc);
        stats.ctr["region_samples"]++;
        if(e) stats.ctr["region_samples_inside"]++;
        if(wo != (e?1:0)) throw Viol{"region","at " + str(p) + "/4: subject winding " + std::to_string(ws) + ", clip winding "
            + std::to_string(wc) + ", expected output winding " + std::to_string(e) + " but got " + std::to_string(wo)};
    };
    for(int i=0;i<n;++i) judge({r.range((lx-4)*S,(hx+4)*S),r.range((ly-4)*S,(hy+4)*S)});
    // close to vertices and edges, where mistakes are local
    for(int i=0;i<n;++i) {
        const Seg &e = r.pick(all);
        double t = r.real(); double px = double(e.a.x) + t*double(e.b.x-e.a.x), py = double(e.a.y) + t*double(e.b.y-e.a.y);
        double ln = __builtin_hypot(double(e.b.x-e.a.x),double(e.b.y-e.a.y));
        if(ln == 0) continue;
        double q = (tol + 0.5 + 6*r.real()) * (r.chance(1,2) ? 1 : -1);
        judge({static_cast<std::int64_t>((px - q*double(e.b.y-e.a.y)/ln)*double(S)),static_cast<std::int64_t>((py + q*double(e.b.x-e.a.x)/ln)*double(S))});
    }
    // the vertices of the output may only lie near the input
    for(auto &l : o) for(auto &p : l) if(min_dist(all,{p.x*S,p.y*S},S) > tol*double(S))
        throw Viol{"stray-vertex","output vertex " + str(p) + " is far from every input edge"};
}

// Bound on how far rounding may move lines. Each split moves the pieces by less
// than one unit per axis; the observed distribution falls off by a factor of
// about seven per unit, with 0.0003% above 2 units for up to 8 edges.
static double tolerance(const Input &in) {
    double n = double(npts(in));
    return n <= 8 ? 4 : std::min(2 + 0.5*n,16.0) + 0.05*n;
}
static Input gen_simple(Rng &r) {
    Input in; in.family = "simple";
    std::int64_t m = r.chance(1,2) ? 60 : r.chance(1,2) ? 2000 : 1000000;
    in.s.push_back(gen_random_loop(r,int(r.range(3,4)),-m,m));
    in.c.push_back(gen_random_loop(r,int(r.range(3,4)),-m,m));
    if(r.chance(1,3)) for(auto *l : {&in.s[0],&in.c[0]}) for(auto &p : *l) p.x /= r.range(1,30);
    return in;
}

static void check_sides(const Loops &o,const char *what) {
    for(auto &e : edge_sides(o)) {
        stats.ctr["edges_side_checked"]++;
        if(e.left < 0 || e.left > 1 || e.right < 0 || e.right > 1)
            throw Viol{"winding-not-0-or-1",std::string(what) + ": winding " + std::to_string(e.left) + "/" + std::to_string(e.right) + " beside output edge " + str(e.e.a) + "-" + str(e.e.b)};
    }
}

static std::vector<std::pair<P,P>> dir_edges(const Loops &ls) {
    std::vector<std::pair<P,P>> r;
    for(auto &e : edges_of(ls)) r.push_back({e.a,e.b});
    std::sort(r.begin(),r.end());
    return r;
}
static bool has_coincident(const Loops &ls) {
    std::vector<std::pair<P,P>> r;
    for(auto &e : edges_of(ls)) { auto k = std::minmax(e.a,e.b); r.push_back({k.first,k.second}); }
    std::sort(r.begin(),r.end());
    return std::adjacent_find(r.begin(),r.end()) != r.end();
}

// --- C01 -------------------------------------------------------------------
static void mode_arr(Rng &r,std::uint64_t) {
    up_shift = 0; up_move = {0,0};
    int wide = int(r.range(0,11));
    std::int64_t lim = wide < 5 ? 60000 : wide < 7 ? (std::int64_t(1)<<30)-1 : wide < 9 ? 2000 : wide < 10 ? (std::int64_t(1)<<40) : wide < 11 ? (std::int64_t(1)<<51) : (std::int64_t(1)<<61);
    cur = r.chance(1,8) ? gen_lattice(r,size_class(r)) : gen_scaled(r,lim,lim > (1<<20) ? 0 : size_class(r));
    int cfg = lim > (1<<30) ? (r.chance(1,2)?1:4) : pick_cfg(r,max_coord(cur),npts(cur));
    if(lim <= (1<<20)) pick_up(r,cfg,cur,false);
    for(auto op : ops) {
        Out o = run_cfg(cfg,cur,op,r.chance(1,3));
        note(o);
        check_arrangement(o.flat,"flat");
        if(!o.tree.empty()) check_arrangement(o.treeflat,"tree");
        stats.ctr["outputs_checked"]++;
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

// --- C02 -------------------------------------------------------------------
static void mode_region(Rng &r,std::uint64_t) {
    up_shift = 0; up_move = {0,0};
    if(r.chance(1,2)) {
        cur = gen_lattice(r,size_class(r));
        int cfg = pick_cfg(r,max_coord(cur),npts(cur));
        pick_up(r,cfg,cur);
        for(auto op : {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference}) {
            Out o = run_cfg(cfg,cur,op,r.chance(1,8));
            note(o);
            region_exact(op,cur,o.flat);
            stats.ctr["exact_region_outputs"]++;
        }
    } else {
        std::int64_t lim = r.chance(1,3) ? 3000 : r.chance(1,2) ? 60000 : (1<<26);
        cur = r.chance(1,4) ? gen_simple(r) : gen_scaled(r,lim,size_class(r));
        int cfg = pick_cfg(r,max_coord(cur),npts(cur));
        if(lim <= 60000 && r.chance(1,3)) pick_up(r,cfg,cur,false);
        for(auto op : {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference}) {
            Out o = run_cfg(cfg,cur,op,false);
            note(o);
            region_sampled(r,op,cur,o.flat,tolerance(cur),40);
            stats.ctr["sampled_region_outputs"]++;
        }
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

// --- C03 -------------------------------------------------------------------
// where several lines meet, loops may touch but not cross; and where lines
// merely cross (strict), every loop turns as far as possible towards its inside
static bool between_dirs(const P &v,const P &b,const P &a,const P &d) { // d is strictly inside the turn from b to a
    auto t = cross(v,b,a);
    return t > 0 ? cross(v,b,d) > 0 && cross(v,d,a) > 0 : t < 0 ? !(cross(v,a,d) >= 0 && cross(v,d,b) >= 0) : cross(v,b,d) > 0;
}
static void check_joints(const Loops &o,const std::set<P> *given,const char *what) {
    struct Pass { P a, b; };
    std::map<P,std::vector<Pass>> passes;
    std::set<P> unclear;
    std::set<std::pair<P,P>> seen;
    for(auto &e : edges_of(o)) {
        if(!seen.insert(e.b < e.a ? std::pair{e.b,e.a} : std::pair{e.a,e.b}).second) { unclear.insert(e.a); unclear.insert(e.b); }
    }
    for(auto &l : o) for(std::size_t i=0;i<l.size();++i) passes[l[i]].push_back({l[(i+l.size()-1)%l.size()],l[(i+1)%l.size()]});
    for(auto &[v,ps] : passes) {
        if(ps.size() < 2 || unclear.count(v)) continue;
        stats.ctr["joints_checked"]++;
        bool strict = given && !given->count(v);
        if(strict) stats.ctr["joints_checked_strictly"]++;
        for(auto &x : ps) for(auto &y : ps) {
            if(&x == &y) continue;
            bool ia = between_dirs(v,x.b,x.a,y.a), ib = between_dirs(v,x.b,x.a,y.b);
            if(ia != ib) throw Viol{"loops-cross",std::string(what) + ": at " + str(v) + " the loop from " + str(x.a) + " to " + str(x.b) + " crosses the loop from " + str(y.a) + " to " + str(y.b)};
            if(strict && ia) throw Viol{"joint",std::string(what) + ": at " + str(v) + " a loop coming from " + str(x.a) + " continues to " + str(x.b) + " although the lines to " + str(y.a) + " and " + str(y.b) + " are between"};
        }
    }
}
static void mode_orient(Rng &r,std::uint64_t) {
    up_shift = 0; up_move = {0,0};
    bool lattice = r.chance(1,3);
    cur = lattice ? gen_lattice(r,size_class(r)) : gen_scaled(r,r.chance(1,2)?30000:2000,size_class(r));
    std::set<P> given;
    if(lattice) for(auto *x : {&cur.s,&cur.c}) for(auto &l : *x) given.insert(l.begin(),l.end());
    int cfg = pick_cfg(r,max_coord(cur),npts(cur));
    pick_up(r,cfg,cur,lattice);
    for(auto op : ops) {
        Out o = run_cfg(cfg,cur,op,r.chance(1,4));
        note(o);
        check_sides(o.flat,"flat");
        if(!o.tree.empty()) check_sides(o.treeflat,"tree");
        if(op != bool_op::normalize) {
            check_joints(o.flat,lattice ? &given : nullptr,"flat");
            if(!o.tree.empty()) check_joints(o.treeflat,lattice ? &given : nullptr,"tree");
        }
        i128 a = 0; for(auto &l : o.flat) a += area2(l);
        if(a < 0) throw Viol{"negative-area","total signed area of the output is negative"};
        for(auto &l : o.flat) {
            i128 q = area2(l);
            stats.ctr[q > 0 ? "solid_loops" : q < 0 ? "hole_loops" : "flat_loops"]++;
            if(l.size() < 2) throw Viol{"tiny-loop","output loop with fewer than two points"};
        }
        stats.ctr["outputs_checked"]++;
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

// --- C04 -------------------------------------------------------------------
static void mode_norm(Rng &r,std::uint64_t) {
    up_shift = 0; up_move = {0,0};
    bool lat = r.chance(2,3);
    if(lat) cur = gen_lattice(r,size_class(r)); else cur = gen_scaled(r,r.chance(1,3)?2000:60000,size_class(r));
    int cfg = pick_cfg(r,max_coord(cur),npts(cur));
    pick_up(r,cfg,cur,lat);
    Out o = run_cfg(cfg,cur,bool_op::normalize,r.chance(1,3));
    note(o);
    check_arrangement(o.flat,"flat");
    if(max_coord(cur) <= 60000) check_sides(o.flat,"flat");
    if(lat) {
        region_exact(bool_op::normalize,cur,o.flat);
        StepMap a,b;
        Loops in = clean(cur.s); for(auto &l : clean(cur.c)) in.push_back(l);
        if(step_cover(in,a)) {
            if(!step_cover(o.flat,b)) throw Viol{"lines-lost","normalized output has an edge in a direction no input edge has"};
            if(a != b) {
                for(auto &[k,n] : a) { auto i = b.find(k); int m = i == b.end() ? 0 : i->second;
                    if(m != n) throw Viol{"lines-lost","step " + str(k.first) + "-" + str(k.second) + " is covered " + std::to_string(n) + " times by the input and " + std::to_string(m) + " times by the output"}; }
                throw Viol{"lines-added","normalized output has line pieces that the input does not have"};
            }
            stats.ctr["line_conservation_checked"]++;
            stats.ctr["unit_steps_compared"] += a.size();
        }
    } else region_sampled(r,bool_op::normalize,cur,o.flat,tolerance(cur),60);
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

// --- C05 -------------------------------------------------------------------
// a point strictly inside a loop of non-zero area, in 1/4096 units, such that it
// is not on any edge of `all`
static std::set<P> coincident_ends;
static std::set<const Loop*> involved; // loops with an edge that coincides with another
static std::map<const Loop*,std::vector<const Loop*>> around_of;
static void find_involved(const std::vector<Node> &t,std::map<std::pair<P,P>,std::vector<const Loop*>> &m) {
    for(auto &n : t) {
        for(auto &e : edges_of({n.loop})) m[e.b < e.a ? std::pair{e.b,e.a} : std::pair{e.a,e.b}].push_back(&n.loop);
        find_involved(n.kids,m);
    }
}
static void all_loops(const std::vector<Node> &t,std::vector<const Loop*> &all) { for(auto &n : t) { all.push_back(&n.loop); all_loops(n.kids,all); } }
static void check_tree(const std::vector<Node> &t,const std::vector<const Loop*> &all,int depth,const Node *parent) {
    for(auto &n : t) {
        i128 a = area2(n.loop);
        stats.ctr["tree_nodes"]++;
        if(depth > 0) stats.ctr["tree_nodes_nested"]++;
        if(depth > 1) stats.ctr["tree_nodes_deep"]++;
        if(!involved.count(&n.loop)) {
            if(a == 0) throw Viol{"zero-area-loop","loop without area although none of its edges coincide: " + str(n.loop)};
            // loops around it
            auto e0 = edges_of({n.loop})[0];
            int around = 0;
            bool unclear = std::any_of(n.loop.begin(),n.loop.end(),[](const P &p) { return coincident_ends.count(p); });
            P m{e0.a.x+e0.b.x,e0.a.y+e0.b.y};
            for(auto *o : all) {
                if(o == &n.loop) continue;
                auto oe = edges_of({*o});
                if(on_any_edge(oe,m,2)) throw Viol{"coincident","unexpected coincident edge"};
                if(winding(oe,m,2) != 0) { ++around; if(involved.count(o)) unclear = true; }
            }
            if(unclear) stats.ctr["tree_nodes_inside_coincident_loops"]++;
            else {
                stats.ctr["tree_nodes_depth_checked"]++;
                if(around != depth) throw Viol{"depth","loop " + str(n.loop) + " is at depth " + std::to_string(depth) + " but is surrounded by " + std::to_string(around) + " loops"};
                if((a > 0) != (depth % 2 == 0)) throw Viol{"orientation-depth","loop at depth " + std::to_string(depth) + " has the wrong orientation: " + str(n.loop)};
            }
        }
        if(parent && !involved.count(&n.loop) && !involved.count(&parent->loop)) {
            // every vertex and edge middle of the child is inside or on the parent
            auto pe = edges_of({parent->loop});
            for(auto &e : edges_of({n.loop})) {
                P m{e.a.x+e.b.x,e.a.y+e.b.y};
                if(!on_any_edge(pe,m,2) && winding(pe,m,2) == 0)
                    throw Viol{"child-outside-parent","loop " + str(n.loop) + " is not inside its parent " + str(parent->loop)};
            }
            stats.ctr["containments_checked"]++;
        }
        check_tree(n.kids,all,depth+1,&n);
    }
}
static void mode_tree(Rng &r,std::uint64_t) {
    up_shift = 0; up_move = {0,0};
    int k = int(r.range(0,5));
    if(k == 0) cur = gen_lattice(r,size_class(r));
    else if(k == 1) { // deep nesting
        cur = Input{}; cur.family = "deep-nest";
        int d = int(r.range(2,9));
        std::int64_t x=0,y=0,q=200;
        for(int i=0;i<d;++i) {
            Loop l{{x-q,y-q},{x+q,y-q},{x+q,y+q},{x-q,y+q}};
            if(r.chance(1,3)) l = Loop{{x-q,y},{x,y-q},{x+q,y},{x,y+q}};
            if(r.chance(1,2)) std::reverse(l.begin(),l.end());
            std::rotate(l.begin(),l.begin()+r.range(0,3),l.end());
            (r.chance(3,4)?cur.s:cur.c).push_back(l);
            if(r.chance(1,3)) { Loop m=l; for(auto &p : m) p.x += 2*q+3; cur.s.push_back(m); }
            std::int64_t nq = q/2 - r.range(0,3);
            x += r.range(-q/4,q/4); y += r.range(-q/4,q/4); q = std::max<std::int64_t>(nq,2);
        }
        for(std::size_t i=cur.s.size();i>1;--i) std::swap(cur.s[i-1],cur.s[std::size_t(r.range(0,std::int64_t(i)-1))]);
    } else cur = gen_scaled(r,r.chance(1,2)?30000:2000,size_class(r));
    int cfg = pick_cfg(r,max_coord(cur),npts(cur));
    pick_up(r,cfg,cur,k == 0);
    for(auto op : ops) {
        Out o = run_cfg(cfg,cur,op,true);
        note(o);
        if(dir_edges(o.flat) != dir_edges(o.treeflat)) {
            cur_out += " tree=" + str(o.treeflat);
            throw Viol{"tree-differs-from-flat","hierarchical output does not consist of the same directed edges as the flat output"};
        }
        if(o.flat.size() != o.treeflat.size()) stats.ctr["joined_differently"]++;
        std::map<std::pair<P,P>,std::vector<const Loop*>> m;
        find_involved(o.tree,m);
        involved.clear(); coincident_ends.clear();
        for(auto &[k,ls] : m) if(ls.size() > 1) { involved.insert(ls.begin(),ls.end()); coincident_ends.insert(k.first); coincident_ends.insert(k.second); }
        stats.ctr[involved.empty() ? "trees_fully_checked" : "trees_with_coincident_edges"]++;
        std::vector<const Loop*> all; all_loops(o.tree,all);
        check_tree(o.tree,all,0,nullptr);
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    std::map<std::string,CaseFn> modes{{"arr",mode_arr},{"region",mode_region},{"orient",mode_orient},{"norm",mode_norm},{"tree",mode_tree}};
    auto m = modes.find(args.mode);
    if(m == modes.end()) { std::fprintf(stderr,"unknown mode\n"); return 3; }
    return run_cases(m->second,witness);
}
