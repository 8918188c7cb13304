// Callbacks that call the same operation again, with a callback of the same type: a run of the library against plain loops.
#pragma once
#include "dfh.h"

namespace nest {
using namespace dfh;
using Item = std::function<double(const Array &, uint32_t)>;        // what is done with an item
using Run = std::function<Array(const Item &, const Array &, uint32_t)>;  // an operation over all the items, of the given size
struct Op {
    const char *name;
    uint32_t is;   // 0: any
    Run lib, plain;
};
inline double fold(double acc, double x) { return std::fmod(acc * 31 + x * 7 + 1, 65521); }
inline Array item_of(const Array &v, uint32_t is, uint32_t i) { return Array(v.begin() + size_t(i) * is, v.begin() + size_t(i + 1) * is); }
struct Tree {
    const Run &run;
    uint32_t is;
    uint64_t salt;
    uint64_t *calls;
    Array go(int depth, const Array &vals) const {
        const Tree t = *this;
        return run([t, depth](const Array &item, uint32_t i) {
            ++*t.calls;
            const uint64_t h = vf::mix(t.salt * 131 + uint64_t(depth) * 17 + i);
            double acc = 0;
            if (depth > 0 && h % 3) {
                Array sub;
                for (uint32_t k = 0; k < (h / 3 % 4) * t.is; ++k) sub.push_back(double(vf::mix(h + k) % 997));
                for (double x : t.go(depth - 1, sub)) acc = fold(acc, x);
            }
            for (double x : item) acc = fold(acc, x);   // the item is still what it was
            return std::floor(fold(acc, i));
        }, vals, is);
    }
};
// One case: the library and the plain loops agree, with as many calls.
inline void check(Ctx &c, const Op &op) {
    Rng &r = c.rng;
    const uint32_t is = op.is ? op.is : uint32_t(r.range(2, 9));
    const int depth = int(r.range(1, 3));
    Array v;
    for (uint32_t k = uint32_t(r.range(1, 6)) * is; k > 0; --k) v.push_back(double(r.below(1000)));
    const uint64_t salt = r.next();
    c.hash.u(salt);
    c.nontrivial = true;
    c.desc = std::string(op.name) + " in " + op.name + ", " + std::to_string(depth) + " deep, on " + show(v);
    c.event(std::string("nested:") + op.name);
    uint64_t a = 0, b = 0;
    const Array want = Tree{op.plain, is, salt, &b}.go(depth, v), got = Tree{op.lib, is, salt, &a}.go(depth, v);
    VF_CHECK(identical(got, want), "nested", op.name << " whose callback calls " << op.name << " gives " << show(got) << " instead of " << show(want));
    VF_CHECK(a == b, "nested-calls", op.name << " whose callback calls " << op.name << " makes " << a << " calls instead of " << b);
    c.event("nested_calls", a);
}
inline Array each(const Item &f, const Array &v, uint32_t is) {
    Array o;
    for (uint32_t i = 0; i < v.size() / is; ++i) o.push_back(f(item_of(v, is, i), i));
    return o;
}
} // namespace nest
