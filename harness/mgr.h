// What Manager and the decomposers are documented to list, independent of their code.
#pragma once
#include "dfh.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <set>

namespace dfh {
using Model = std::map<std::string, M>;
inline Strings component_suffixes(uint32_t is, unsigned dim) {
    if (dim == 2 && is == 2) return {"x", "y"};
    if (dim == 2 && is == 3) return {"xx", "xy", "yy"};
    if (dim == 2 && is == 4) return {"xx", "xy", "yx", "yy"};
    if (dim == 3 && is == 3) return {"x", "y", "z"};
    if (dim == 3 && is == 6) return {"xx", "xy", "xz", "yy", "yz", "zz"};
    if (dim == 3 && is == 9) return {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"};
    Strings s;
    for (uint32_t i = 0; i < is; ++i) s.push_back(std::to_string(i));
    return s;
}
inline bool is_mesh(const Model &w) { return w.count("positions") && w.count("indices"); }
inline bool attribute(const std::string &n) { return n != "positions" && n != "indices"; }

inline M column(const M &m, uint32_t k) {
    M o{1, m.n, m.dim, {}};
    for (uint32_t i = 0; i < m.n; ++i) o.v.push_back(m.v[size_t(i) * m.is + k]);
    return o;
}
// a triangulated mesh: nodes and triangles, well-formed
inline void mesh(Rng &r, Model &w, uint32_t nodes, uint32_t triangles) {
    M p = gen(r, 3, nodes, r.chance(0.5) ? K_DYADIC : K_UNI), t{3, triangles, 3, {}};
    for (uint32_t i = 0; i < 3 * triangles; ++i) t.v.push_back(double(r.below(nodes)));
    w["positions"] = p;
    w["indices"] = t;
}
} // namespace dfh
