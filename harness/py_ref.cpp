// Reference for the Python binding: the C++ library called directly on plain
// 64-bit integers, with results written to one flat array.
#define POLY_OPS_ASSERT(X) (void)0
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
#include <cstdint>
#include <vector>
#include <memory>
using C = std::int64_t;
using Pt = poly_ops::point_t<C>;
using namespace poly_ops;

struct Ref { bool tracked; clipper<C> c; origin_tracked_clipper<C> t; std::vector<std::int64_t> out; };

template<typename R> static void put(R &&range,bool tree,std::vector<std::int64_t> &o) {
    std::size_t at = o.size(); o.push_back(0);
    for(auto &&l : range) {
        ++o[at];
        o.push_back(std::int64_t(l.size()));
        for(auto &&p : l) {
            if constexpr(requires { p.p; }) { o.push_back(p.p[0]); o.push_back(p.p[1]); o.push_back(std::int64_t(p.original_points.size())); for(auto i : p.original_points) o.push_back(std::int64_t(i)); }
            else { o.push_back(p[0]); o.push_back(p[1]); o.push_back(-1); }
        }
        if(tree) put(l.inner_loops(),true,o);
    }
}

extern "C" {
Ref *ref_new(int tracked) { auto r = new Ref(); r->tracked = tracked; return r; }
void ref_free(Ref *r) { delete r; }
void ref_add(Ref *r,const std::int64_t *d,std::size_t n,int set) {
    std::vector<Pt> l; for(std::size_t i=0;i<n;++i) l.push_back({d[2*i],d[2*i+1]});
    if(r->tracked) r->t.add_loops(l,bool_set(set)); else r->c.add_loops(l,bool_set(set));
}
void ref_add_offset(Ref *r,const std::int64_t *d,std::size_t n,int set,double mag,int step,int closed) {
    std::vector<Pt> l; for(std::size_t i=0;i<n;++i) l.push_back({d[2*i],d[2*i+1]});
    if(r->tracked) add_offset(r->t,l,bool_set(set),mag,C(step),closed != 0); else add_offset(r->c,l,bool_set(set),mag,C(step),closed != 0);
}
void ref_set_orig(Ref *r,std::size_t v) { if(r->tracked) r->t.base.next_orig_i() = v; }
std::size_t ref_get_orig(Ref *r) { return r->t.base.next_orig_i(); }
void ref_reset(Ref *r) { if(r->tracked) r->t.reset(); else r->c.reset(); }
std::size_t ref_execute(Ref *r,int op,int tree) {
    r->out.clear();
    if(r->tracked) { if(tree) put(r->t.execute<true>(bool_op(op)),true,r->out); else put(r->t.execute<false>(bool_op(op)),false,r->out); }
    else { if(tree) put(r->c.execute<true>(bool_op(op)),true,r->out); else put(r->c.execute<false>(bool_op(op)),false,r->out); }
    ref_reset(r);
    return r->out.size();
}
const std::int64_t *ref_data(Ref *r) { return r->out.data(); }
}
