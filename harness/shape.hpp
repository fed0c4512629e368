// The structure of a multivector: its components and which of their coefficients are stored at run time.
#ifndef VT_SHAPE_HPP
#define VT_SHAPE_HPP
#include "vtga.hpp"
#include <algorithm>

namespace shape {

struct Component { unsigned long blade; bool stored; bool zero; };
struct Shape : std::vector<Component> { std::size_t coefficient = 1; bool ordered = true; };

template<typename C, typename E>
Shape of(ga::clifford_expression<C, E> const &x) {
    Shape r;
    r.coefficient = sizeof(C);
    ga::for_each_component(x, [&](auto b, auto v, auto, auto src, bool &) {
        r.push_back({(unsigned long)b, src != ga::COMPILE_TIME_DEFINED_ENTRY, src == ga::COMPILE_TIME_DEFINED_ENTRY && v == decltype(v)(0)});
    });
    return r;
}
template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
Shape of(T const &) { Shape r; r.coefficient = sizeof(T); r.push_back({0, true, false}); return r; }

inline void join(Shape &r, unsigned long b, bool stored) {
    for (auto &c : r) if (c.blade == b) { c.stored = c.stored || stored; return; }
    r.push_back({b, stored, false});
}

// The components that the product of two multivectors of the given structures may have.
template<typename F>
Shape product(int n, Shape const &a, Shape const &b, F f) {
    Shape r;
    for (auto const &x : a) for (auto const &y : b) {
        if (x.zero || y.zero) continue;
        ref::MV const p = f(ref::blade(n, unsigned(x.blade), 1), ref::blade(n, unsigned(y.blade), 1));
        for (unsigned k = 0; k < p.c.size(); ++k) if (p.c[k] != 0) join(r, k, x.stored || y.stored);
    }
    return r;
}
inline Shape sum(Shape const &a, Shape const &b) {
    Shape r;
    for (auto const *s : {&a, &b}) for (auto const &x : *s) if (!x.zero) join(r, x.blade, x.stored);
    return r;
}
inline Shape graded(Shape const &a, int k) {
    Shape r;
    for (auto const &x : a) if (!x.zero && ref::gradeof(unsigned(x.blade)) == k) join(r, x.blade, x.stored);
    return r;
}

// got has only components that can be nonzero, each once; stores only coefficients that depend on stored ones; and takes
// no more memory than they do.
inline void check(vt::Ctx &cx, Shape const &got, Shape const &may, std::size_t size, char const *label) {
    std::size_t stored = 0;
    std::string const what = label;
    for (auto const &c : got) {
        stored += c.stored;
        cx.require(std::count_if(got.begin(), got.end(), [&](auto const &d) { return d.blade == c.blade; }) == 1, (what + ": a basis blade has two components").c_str(), "blade " + std::to_string(c.blade));
        if (c.zero) continue;
        auto const it = std::find_if(may.begin(), may.end(), [&](auto const &d) { return d.blade == c.blade; });
        cx.require(it != may.end(), (what + ": a component that the algebra makes zero is kept").c_str(), "blade " + std::to_string(c.blade));
        cx.require(it->stored || !c.stored, (what + ": a coefficient that is known at compile time is stored").c_str(), "blade " + std::to_string(c.blade));
        cx.nontrivial();
    }
    cx.require(size == std::max<std::size_t>(1, stored * got.coefficient), (what + ": size").c_str(), std::to_string(size) + " bytes for " + std::to_string(stored) + " coefficients");
}

}

#endif
