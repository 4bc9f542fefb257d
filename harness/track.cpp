// Monitor of the point-tracker protocol: a recording tracker receives every
// callback of the real clipper, checks the order of events online, and replays
// them offline to decide where every original point must end up.
#define VERIF_ASSERTS
#include "clipper_run.hpp"
using namespace v;
using poly_ops::bool_op;
using poly_ops::bool_set;

static Input cur;
static bool_op cur_op;
static std::string cur_cfg, cur_note;
static std::string witness() {
    return std::string("op=") + op_name(cur_op) + " config=" + cur_cfg + " " + cur.str() + (cur_note.empty() ? "" : " " + cur_note);
}

struct Ev { char k; std::uint64_t a,b; };

template<typename C,typename I> struct Rec final : poly_ops::i_point_tracker<I> {
    std::vector<Ev> log;
    std::uint64_t n = 0;
    std::uint64_t resets = 0;
    void new_point_between(I a,I b) override { log.push_back({'n',std::uint64_t(a),std::uint64_t(b)}); ++n; }
    void point_merge(I a,I b) override { log.push_back({'m',std::uint64_t(a),std::uint64_t(b)}); }
    void point_added(I o) override { log.push_back({'a',std::uint64_t(o),0}); ++n; }
    void reset() override { ++resets; log.clear(); n = 0; }
    poly_ops::i_point_tracker<I> *callbacks() { return this; }
    struct val { I i; poly_ops::point_t<C> p; };
    val get_value(I i,const poly_ops::point_t<C> &p) const { return {i,p}; }
};

struct OutPt { std::uint64_t i; P p; };
typedef std::vector<std::vector<OutPt>> OutLoops;

template<typename R> void collect(R &&range,OutLoops &o) {
    for(auto &&l : range) {
        o.emplace_back();
        std::size_t k=0;
        for(auto v : l) { o.back().push_back({std::uint64_t(v.i),{std::int64_t(v.p[0]),std::int64_t(v.p[1])}}); if(++k > l.size()+4) throw Viol{"loop-iteration","loop yields more points than its size"}; }
        if constexpr(requires { l.inner_loops(); }) collect(l.inner_loops(),o);
    }
}

// input points in the order they were added
struct Fed { std::vector<P> pts; std::uint64_t subject_points = 0; std::vector<std::vector<std::uint64_t>> added; /* original index, per kept loop */ };
static void feed(Fed &f,const Loops &ls) {
    for(auto &l : ls) {
        std::vector<std::uint64_t> k; 
        for(std::size_t i=0;i<l.size();++i) {
            f.pts.push_back(l[i]);
            if(k.empty() || f.pts[k.back()] != l[i]) k.push_back(f.pts.size()-1);
        }
        if(k.size() > 1 && f.pts[k.back()] == f.pts[k.front()]) k.pop_back();
        if(k.size() >= 3) f.added.push_back(k);
    }
}

struct Sim {
    std::vector<std::int64_t> orig;           // -1 for generated
    std::vector<std::uint64_t> next,edge_a;   // ring, and for every point the first added point of the input line it starts
    std::vector<char> gone,set;               // set: 1 = clip
    std::vector<std::set<std::uint64_t>> sets;
    std::uint64_t added = 0, merges = 0, splits = 0;
};

static Sim check_log(const std::vector<Ev> &log,const Fed &f) {
    Sim s;
    std::vector<std::uint64_t> expect;
    for(auto &l : f.added) expect.insert(expect.end(),l.begin(),l.end());
    int phase = 0;
    std::size_t ring = 0, ring_start = 0;
    auto at = [](std::size_t i){ return " (event " + std::to_string(i) + ")"; };
    auto name = [&](std::uint64_t i){ return "#" + std::to_string(i) + (i < s.orig.size() && s.orig[i] >= 0 ? "=original " + std::to_string(s.orig[i]) : ""); };
    for(std::size_t i=0;i<log.size();++i) {
        auto &e = log[i];
        switch(e.k) {
        case 'a': {
            if(phase > 0) throw Viol{"protocol-order","a point is reported as added after the operation started" + at(i)};
            if(s.added >= expect.size()) throw Viol{"added","more points are reported as added than the input has" + at(i)};
            if(expect[s.added] != e.a) throw Viol{"added","point " + std::to_string(s.added) + " is reported as coming from input point " + std::to_string(e.a) + " instead of " + std::to_string(expect[s.added])};
            s.orig.push_back(std::int64_t(e.a));
            s.sets.push_back({e.a});
            s.gone.push_back(0); s.set.push_back(e.a >= f.subject_points);
            s.edge_a.push_back(s.added);
            ++s.added;
            if(s.added-ring_start == f.added[ring].size()) {
                for(auto j=ring_start;j<s.added;++j) s.next.push_back(j+1<s.added ? j+1 : ring_start);
                ring_start = s.added; ++ring;
            }
            break; }
        case 'n': {
            if(phase > 1) throw Viol{"protocol-order","a line is split after points were merged" + at(i)};
            if(phase == 0 && s.added != expect.size()) throw Viol{"added","only " + std::to_string(s.added) + " of " + std::to_string(expect.size()) + " points were reported as added"};
            phase = 1;
            if(e.a >= s.next.size() || e.b >= s.next.size()) throw Viol{"index-range","a line with an unknown end point is split" + at(i)};
            std::uint64_t a=e.a,b=e.b;
            if(s.next[a] != b) std::swap(a,b);
            if(s.next[a] != b) throw Viol{"split-not-a-line","split line " + name(e.a) + "-" + name(e.b) + " does not exist" + at(i)};
            std::uint64_t m = s.next.size();
            s.next.push_back(b); s.next[a] = m;
            s.orig.push_back(-1); s.sets.emplace_back(); s.gone.push_back(0); s.set.push_back(s.set[a]); s.edge_a.push_back(s.edge_a[a]);
            ++s.splits;
            break; }
        default: {
            phase = 2;
            if(e.a >= s.next.size() || e.b >= s.next.size()) throw Viol{"index-range","an unknown point is merged" + at(i)};
            if(s.set[e.a] != s.set[e.b]) throw Viol{"merge-across-sets","point " + name(e.a) + " is merged into " + name(e.b) + " of the other input set" + at(i)};
            // the lines of the clip set may be followed backwards by "difference"
            if(!(cur_op == bool_op::difference && s.set[e.a]) && s.next[e.a] != e.b) throw Viol{"merge-not-next","point " + name(e.a) + " is merged into " + name(e.b) + " but is followed by " + name(s.next[e.a]) + at(i)};
            if(s.gone[e.a]) throw Viol{"discarded-twice","point " + name(e.a) + " is discarded twice" + at(i)};
            if(s.gone[e.b]) throw Viol{"discarded-target","point " + name(e.a) + " is merged into " + name(e.b) + " which was discarded before" + at(i)};
            s.gone[e.a] = 1;
            s.sets[e.b].insert(s.sets[e.a].begin(),s.sets[e.a].end());
            ++s.merges;
            break; }
        }
    }
    if(phase == 0 && s.added != expect.size()) throw Viol{"added","only " + std::to_string(s.added) + " of " + std::to_string(expect.size()) + " points were reported as added"};
    return s;
}



static void judge(const std::vector<Ev> &log,const Fed &f,const OutLoops &out,std::vector<std::set<std::uint64_t>> *sets_out) {
    Sim s = check_log(log,f);
    stats.ctr["events"] += log.size();
    stats.ctr["splits"] += s.splits; stats.ctr["merges"] += s.merges;
    std::vector<char> seen(s.next.size(),0);
    // successor of every added point on its input loop
    std::vector<std::uint64_t> succ; { std::uint64_t k=0; for(auto &l : f.added) { for(std::size_t i=0;i<l.size();++i) succ.push_back(k + (i+1)%l.size()); k += l.size(); } }
    // every split moves what remains of the line by no more than one unit
    std::vector<double> splits(succ.size(),0); for(std::size_t i=0;i<s.orig.size();++i) if(s.orig[i] < 0) splits[s.edge_a[i]] += 1;
    for(auto &l : out) for(auto &p : l) {
        if(p.i >= s.next.size()) throw Viol{"output-index","output point has index " + std::to_string(p.i) + " but only " + std::to_string(s.next.size()) + " were announced"};
        if(seen[p.i]) throw Viol{"output-twice","point #" + std::to_string(p.i) + " is in the output twice"};
        seen[p.i] = 1;
        if(s.gone[p.i]) throw Viol{"output-discarded","point #" + std::to_string(p.i) + " was discarded but is in the output"};
        if(s.orig[p.i] >= 0) {
            if(f.pts[std::size_t(s.orig[p.i])] != p.p) throw Viol{"origin-coordinates","output point " + str(p.p) + " is said to be input point " + std::to_string(s.orig[p.i]) + " at " + str(f.pts[std::size_t(s.orig[p.i])])};
            stats.ctr["output_points_original"]++;
        } else {
            std::uint64_t ea = s.edge_a[p.i];
            Seg e{f.pts[std::size_t(s.orig[ea])],f.pts[std::size_t(s.orig[succ[ea]])]};
            if(dist_to_seg(p.p,e,1) > 1 + splits[ea]) throw Viol{"split-location","output point " + str(p.p) + " is said to lie between " + str(e.a) + " and " + str(e.b)};
            stats.ctr["output_points_generated"]++;
        }
    }
    // every original of a loop that is still present must be at an output point
    std::set<std::uint64_t> have;
    for(auto &l : out) for(auto &p : l) have.insert(s.sets[p.i].begin(),s.sets[p.i].end());
    std::size_t k=0;
    for(auto &l : f.added) {
        bool any=false;
        std::uint64_t st=k; std::uint64_t j=st;
        do { if(seen[j]) any = true; j = s.next[j]; } while(j != st);
        k += l.size();
        if(!any) { stats.ctr["loops_without_output"]++; continue; }
        stats.ctr["loops_with_output"]++;
        if(cur_op == bool_op::difference && s.set[st]) continue;
        for(auto o : l) if(!have.count(o)) throw Viol{"origin-lost","input point " + std::to_string(o) + " is not an origin of any output point although parts of its loop remain"};
        stats.ctr["loops_conserved"]++;
    }
    // everything that is not in the output was discarded, except for one point of
    // each loop that disappears
    std::vector<char> merged(s.next.size(),0);
    for(auto &e : log) if(e.k == 'm') merged[e.a] = 1;
    for(std::size_t i=0;i<s.next.size();++i) if(!seen[i] && !merged[i]) {
        // must be the last point of a discarded loop: its successor is gone too
        if(!(cur_op == bool_op::difference && s.set[i]) && !s.gone[s.next[i]]) throw Viol{"vanished","point #" + std::to_string(i) + " is neither in the output nor merged"};
    }
    if(sets_out) *sets_out = s.sets;
}

static std::vector<std::set<std::uint64_t>> want;   // per output point, in order
template<typename R> void check_origins(R &&range,const std::vector<std::set<std::uint64_t>> &sets,const OutLoops &out,std::size_t &li) {
    for(auto &&l : range) {
        if(li >= out.size()) throw Viol{"origin-tracker","more loops with the origin tracker than with another tracker"};
        auto &o = out[li++];
        std::size_t k = 0;
        for(auto v : l) {
            if(k >= o.size() || P{std::int64_t(v.p[0]),std::int64_t(v.p[1])} != o[k].p) throw Viol{"origin-tracker","different points with the origin tracker than with another tracker"};
            std::set<std::uint64_t> g;
            for(auto x : v.original_points) if(!g.insert(std::uint64_t(x)).second) throw Viol{"origin-set","input point " + std::to_string(x) + " is listed twice as the origin of " + str(o[k].p)};
            if(g != sets[o[k].i]) { std::string a,b; for(auto x : g) a += std::to_string(x)+" "; for(auto x : sets[o[k].i]) b += std::to_string(x)+" ";
                throw Viol{"origin-set","origins of " + str(o[k].p) + " are [" + a + "] but the callbacks say [" + b + "]"}; }
            stats.ctr["origin_sets_compared"]++; if(g.size() > 1) stats.ctr["origin_sets_merged"]++;
            ++k;
        }
        if(k != o.size()) throw Viol{"origin-tracker","different points with the origin tracker than with another tracker"};
        if constexpr(requires { l.inner_loops(); }) check_origins(l.inner_loops(),sets,out,li);
    }
}

template<typename C,typename I> void add_all(poly_ops::clipper<C,I> &c,Rec<C,I> &rec,const Input &in,int how) {
    if(how == 0) {
        c.add_loops(to_pts<C>(in.s),bool_set::subject,&rec);
        c.add_loops(to_pts<C>(in.c),bool_set::clip,&rec);
    } else if(how == 1) {
        c.add_loops_subject(to_pts<C>(in.s),&rec);
        c.add_loops_clip(to_pts<C>(in.c),&rec);
    } else {
        for(auto &l : to_pts<C>(in.s)) { if(how == 2) { auto s = c.add_loop(bool_set::subject,&rec); for(auto &p : l) s(p); } else c.add_loops(l,bool_set::subject,&rec); }
        for(auto &l : to_pts<C>(in.c)) { if(how == 2) { auto s = c.add_loop(bool_set::clip,&rec); for(auto &p : l) s(p); } else c.add_loops(l,bool_set::clip,&rec); }
    }
}

template<typename C,typename I> void one(Rng &r,poly_ops::clipper<C,I> &c,Rec<C,I> &rec,poly_ops::origin_tracked_clipper<C,I> &oc,bool_op op,int nth) {
    cur_op = op;
    Fed f; feed(f,cur.s); f.subject_points = f.pts.size(); feed(f,cur.c);
    bool tree = r.chance(1,3);
    OutLoops out;
    iter_count = 0;
    int how = int(r.range(0,3));
    add_all(c,rec,cur,how);
    bool anything = !cur.s.empty() || !cur.c.empty();
    if(nth > 0 && anything && rec.resets != std::uint64_t(nth)) throw Viol{"reset-count","the tracker was reset " + std::to_string(rec.resets) + " times after " + std::to_string(nth) + " operations followed by new input"};
    if(std::uint64_t(c.next_orig_i()) != f.pts.size()) throw Viol{"next-index","the index of the next input point is " + std::to_string(std::uint64_t(c.next_orig_i())) + " after adding " + std::to_string(f.pts.size()) + " points"};
    if(tree) collect(c.template execute<true>(op,rec),out); else collect(c.template execute<false>(op,rec),out);
    if(!anything) return;
    if(nth == 0 && rec.resets) throw Viol{"reset-count","the tracker was reset without a previous operation"};
    std::vector<std::set<std::uint64_t>> sets;
    auto log = rec.log;
    judge(log,f,out,&sets);
    stats.ctr[std::string("histories_") + op_name(op)]++;
    // the tracker that comes with the library
    iter_count = 0;
    std::size_t li = 0;
    // (the same operations in the same order, because the rounding of
    // intersections depends on the operations before)
    if(how < 3) { oc.add_loops_subject(to_pts<C>(cur.s)); oc.add_loops_clip(to_pts<C>(cur.c)); }
    else { oc.add_loops(to_pts<C>(cur.s),bool_set::subject); for(auto &l : to_pts<C>(cur.c)) { auto s = oc.add_loop(bool_set::clip); for(auto &p : l) s(p); } }
    if(tree) check_origins(oc.template execute<true>(op),sets,out,li); else check_origins(oc.template execute<false>(op),sets,out,li);
    if(nth == 0 && r.chance(1,2)) {
        // free function and an owning result
        if(li != out.size()) throw Viol{"origin-tracker","fewer loops with the origin tracker than with another tracker"};
        li = 0; iter_count = 0;
        if(tree) check_origins(poly_ops::boolean_op<true,C,I>(to_pts<C>(cur.s),to_pts<C>(cur.c),op,poly_ops::origin_point_tracker<I>{}),sets,out,li);
        else { auto res = poly_ops::boolean_op<false,C,I>(to_pts<C>(cur.s),to_pts<C>(cur.c),op,poly_ops::origin_point_tracker<I>{}); check_origins(res,sets,out,li); }
    }
    if(li != out.size()) throw Viol{"origin-tracker","fewer loops with the origin tracker than with another tracker"};
}

template<typename C,typename I> void track_case(Rng &r) {
    poly_ops::clipper<C,I> c;
    Rec<C,I> rec;
    poly_ops::origin_tracked_clipper<C,I> oc;
    static const bool_op ops[] = {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};
    int nth = 0, first = int(r.range(0,4));
    for(int i=0;i<5;++i) one<C,I>(r,c,rec,oc,ops[(first+i)%5],nth++);
    // free functions never reset the tracker
    if(r.chance(1,3)) {
        Rec<C,I> rec2; Fed f; feed(f,cur.s); f.subject_points = f.pts.size(); feed(f,cur.c);
        cur_op = ops[r.range(0,4)]; iter_count = 0;
        OutLoops out;
        { auto res = poly_ops::boolean_op<false,C,I,std::vector<std::vector<poly_ops::point_t<C>>>,std::vector<std::vector<poly_ops::point_t<C>>>,Rec<C,I>&>(to_pts<C>(cur.s),to_pts<C>(cur.c),cur_op,rec2,nullptr); collect(res,out); }
        if(rec2.resets) throw Viol{"reset-count","a free function reset the tracker"};
        judge(rec2.log,f,out,nullptr);
        stats.ctr["free_function_histories"]++;
    }
}

static void mode_track(Rng &r,std::uint64_t) {
    cur = r.chance(1,4) ? gen_lattice(r,int(r.range(0,1))) : gen_scaled(r,60000,r.chance(1,12)?2:int(r.range(0,1)));
    cur_note.clear();
    switch(r.range(0,3)) {
    case 0: cur_cfg = "int64/int32"; track_case<std::int64_t,std::int32_t>(r); break;
    case 1: cur_cfg = "int32/uint32"; track_case<std::int32_t,std::uint32_t>(r); break;
    default: cur_cfg = "int32/size_t"; track_case<std::int32_t,std::size_t>(r);
    }
    stats.sig(sig_of(cur.s,sig_of(cur.c)));
    stats.sample(cur.str());
}

// offset: the points around an input point are reported with that point's index
static void mode_otrack(Rng &r,std::uint64_t) {
    typedef std::int32_t C; typedef std::size_t I;
    cur_cfg = "offset int32/size_t";
    std::int64_t m = r.chance(1,2) ? 100 : 5000;
    cur = Input{}; cur.family = "offset";
    int nl = int(r.range(1,4));
    for(int i=0;i<nl;++i) {
        Loop l;
        switch(r.range(0,5)) {
        case 0: l = gen_random_loop(r,int(r.range(1,2)),-m,m); break;
        case 1: l = gen_random_loop(r,int(r.range(3,8)),-m,m); break;
        case 2: l = gen_rect(r,-m,m); break;
        case 3: { P p{r.range(-m,m),r.range(-m,m)}; l.assign(std::size_t(r.range(1,4)),p); break; }
        default: { std::int64_t rad = r.range(m/8+3,m/2+4); l = gen_star(r,int(r.range(3,9)),r.range(-m/2,m/2),r.range(-m/2,m/2),rad,r.chance(1,3)); }
        }
        if(r.chance(1,3)) sprinkle_dups(r,l);
        cur.s.push_back(l);
    }
    if(r.chance(1,5)) cur.s.insert(cur.s.begin()+r.range(0,nl),Loop{});
    double mag = double(r.range(1,r.chance(1,3)?4:m/3)) + (r.chance(1,2)?0.5*r.real():0);
    if(r.chance(1,3)) mag = -mag;
    C step = C(r.range(1,r.chance(1,2)?5:60));
    bool closed = r.chance(2,3);
    bool tree = r.chance(1,3);
    cur_op = bool_op::union_;
    cur_note = "offset magnitude=" + std::to_string(mag) + " step=" + std::to_string(step) + (closed?" closed":" open");
    Rec<C,I> rec;
    poly_ops::clipper<C,I> c;
    iter_count = 0;
    std::vector<P> pts; for(auto &l : cur.s) pts.insert(pts.end(),l.begin(),l.end());
    if(r.chance(1,2)) poly_ops::add_offset(c,to_pts<C>(cur.s),bool_set::subject,mag,step,closed,&rec);
    else for(auto &l : to_pts<C>(cur.s)) poly_ops::add_offset(c,l,bool_set::subject,mag,step,closed,&rec);
    if(c.next_orig_i() != pts.size()) throw Viol{"next-index","the index of the next input point is " + std::to_string(c.next_orig_i()) + " after offsetting loops with " + std::to_string(pts.size()) + " points"};
    std::vector<std::uint64_t> orig;
    for(auto &e : rec.log) {
        if(e.k != 'a') throw Viol{"protocol-order","a callback other than the one for added points was called while adding"};
        if(e.a >= pts.size()) throw Viol{"origin-range","an offset point is attributed to input point " + std::to_string(e.a) + " of " + std::to_string(pts.size())};
        orig.push_back(e.a);
    }
    OutLoops out;
    if(tree) collect(c.execute<true>(bool_op::union_,rec),out); else collect(c.execute<false>(bool_op::union_,rec),out);
    std::set<std::uint64_t> owners;
    for(auto &l : out) for(auto &p : l) {
        stats.ctr["offset_points"]++;
        if(p.i < orig.size()) {
            P o = pts[orig[p.i]];
            double d = __builtin_hypot(double(p.p.x-o.x),double(p.p.y-o.y));
            stats.ctr["offset_points_attributed"]++;
            if(d == 0) stats.ctr["offset_points_at_origin"]++;
            else if(std::abs(d-std::abs(mag)) > 1.01 + 1e-4*std::abs(mag)) throw Viol{"offset-origin","offset point " + str(p.p) + " is attributed to " + str(o) + " which is " + std::to_string(d) + " away"};
        }
    }
    // with the tracker that comes with the library
    {
        iter_count = 0;
        std::size_t k=0; 
        auto walk = [&](auto &&self,auto &&range) -> void {
            for(auto &&l : range) {
                if(k >= out.size()) throw Viol{"origin-tracker","more loops with the origin tracker"};
                auto &o = out[k++]; std::size_t q=0;
                for(auto v : l) {
                    if(q >= o.size() || P{v.p[0],v.p[1]} != o[q].p) throw Viol{"origin-tracker","different points with the origin tracker"};
                    bool own = o[q].i >= orig.size();
                    for(auto x : v.original_points) { if(x >= pts.size()) throw Viol{"origin-range","origin " + std::to_string(x) + " of " + std::to_string(pts.size())}; if(!own && x == orig[o[q].i]) own = true; owners.insert(x); }
                    if(!own) throw Viol{"origin-set","offset point " + str(o[q].p) + " does not list its own origin"};
                    ++q;
                }
                if(q != o.size()) throw Viol{"origin-tracker","different points with the origin tracker"};
                if constexpr(requires { l.inner_loops(); }) self(self,l.inner_loops());
            }
        };
        poly_ops::origin_point_tracker<I> t;
        if(tree) walk(walk,poly_ops::offset<true,C,I>(to_pts<C>(cur.s),mag,step,poly_ops::origin_point_tracker<I>{},closed));
        else walk(walk,poly_ops::offset<false,C,I>(to_pts<C>(cur.s),mag,step,poly_ops::origin_point_tracker<I>{},closed));
        if(k != out.size()) throw Viol{"origin-tracker","fewer loops with the origin tracker"};
    }
    // an outset keeps every input point that is far from all the others
    stats.sig(sig_of(cur.s,mix64(std::uint64_t(mag*16))));
    stats.sample(cur.str() + " " + cur_note);
}

int main(int argc,char **argv) {
    args = parse_args(argc,argv);
    return run_cases(args.mode == "otrack" ? mode_otrack : mode_track,witness);
}
