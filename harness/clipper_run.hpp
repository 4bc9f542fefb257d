// Runs the library under test. One include per binary (library headers define
// non-inline functions).
#pragma once
#include "geom.hpp"

#ifndef VERIF_MAX_ITERATIONS
#define VERIF_MAX_ITERATIONS 60000000ull
#endif
namespace v { inline std::uint64_t iter_count = 0, iter_limit = VERIF_MAX_ITERATIONS; }
#define POLY_OPS_DEBUG_ITERATION { if(++v::iter_count > v::iter_limit) throw v::IterLimit{}; }
#ifdef VERIF_ASSERTS
#define POLY_OPS_ASSERT(X) do { if(!(X)) throw v::AssertFail{#X,"poly_ops",__LINE__}; } while(0)
#else
#define POLY_OPS_ASSERT(X) (void)0
#endif
#ifdef VERIF_ASSERTS_SLOW
#define POLY_OPS_ASSERT_SLOW(X) do { if(!(X)) throw v::AssertFail{#X,"poly_ops",__LINE__}; } while(0)
#endif
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>

namespace v {

inline const char *op_name(poly_ops::bool_op op) {
    static const char *n[] = {"union","intersection","xor","difference","normalize"};
    return n[static_cast<int>(op)];
}

template<typename C> std::vector<std::vector<poly_ops::point_t<C>>> to_pts(const Loops &ls) {
    std::vector<std::vector<poly_ops::point_t<C>>> r;
    for(auto &l : ls) { r.emplace_back(); for(auto &p : l) r.back().push_back({static_cast<C>(p.x),static_cast<C>(p.y)}); }
    return r;
}

template<typename Proxy> Loop loop_of(const Proxy &pl) {
    Loop l;
    std::size_t n = static_cast<std::size_t>(pl.size()), k = 0;
    for(auto itr=pl.begin(); itr!=pl.end(); ++itr) {
        if(++k > n + 4) throw Viol{"loop-iteration","iterating an output loop yields more points than its size"};
        auto p = *itr;
        if constexpr(requires { p.p; }) l.push_back({static_cast<std::int64_t>(p.p[0]),static_cast<std::int64_t>(p.p[1])});
        else l.push_back({static_cast<std::int64_t>(p[0]),static_cast<std::int64_t>(p[1])});
    }
    if(k != n) throw Viol{"loop-iteration","iterating an output loop yields a different number of points than its size"};
    return l;
}
template<typename R> Loops loops_of(R &&range) {
    Loops r;
    for(auto &&l : range) r.push_back(loop_of(l));
    return r;
}

struct Node { Loop loop; std::vector<Node> kids; };
template<typename R> std::vector<Node> tree_of(R &&range) {
    std::vector<Node> r;
    for(auto &&l : range) { r.push_back({loop_of(l),{}}); r.back().kids = tree_of(l.inner_loops()); }
    return r;
}
inline void flatten(const std::vector<Node> &t,Loops &o) { for(auto &n : t) { o.push_back(n.loop); flatten(n.kids,o); } }

template<typename C,typename I=std::size_t> Loops run_flat(const Input &in,poly_ops::bool_op op) {
    iter_count = 0;
    poly_ops::clipper<C,I> c;
    c.add_loops(to_pts<C>(in.s),poly_ops::bool_set::subject);
    c.add_loops(to_pts<C>(in.c),poly_ops::bool_set::clip);
    return loops_of(c.template execute<false>(op));
}
template<typename C,typename I=std::size_t> std::vector<Node> run_tree(const Input &in,poly_ops::bool_op op) {
    iter_count = 0;
    poly_ops::clipper<C,I> c;
    c.add_loops(to_pts<C>(in.s),poly_ops::bool_set::subject);
    c.add_loops(to_pts<C>(in.c),poly_ops::bool_set::clip);
    return tree_of(c.template execute<true>(op));
}

} // namespace v
