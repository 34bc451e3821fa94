// Two elements that share a face or an edge, one entry for every combination of shapes that can meet.
#ifndef VERIF_PAIRS_H
#define VERIF_PAIRS_H
#include "meshgen.h"
struct Pair {
    const char* name;
    int dim;
    std::vector<mg::Elem> e;
    int hi, deep;
    mg::L period;
};
inline std::vector<Pair> pairs() {
    using namespace mg;
    auto b3 = [](int x, int y, int z) { return box(3, pt(x, y, z), pt(2, 2, 2)); };
    auto b2 = [](int x, int y) { return box(2, pt(x, y), pt(2, 2)); };
    Elem prism = mk(PRISM, {pt(2, 0, 0), pt(4, 0, 0), pt(2, 2, 0), pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2)});
    Elem prismTop = mk(PRISM, {pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2), pt(2, 0, 4), pt(4, 0, 4), pt(2, 2, 4)});
    Elem prism2 = mk(PRISM, {pt(4, 2, 0), pt(2, 2, 0), pt(4, 0, 0), pt(4, 2, 2), pt(2, 2, 2), pt(4, 0, 2)});
    Elem pyr = mk(PYR, {pt(0, 0, 4), pt(0, 0, 2), pt(2, 0, 2), pt(0, 2, 2), pt(2, 2, 2)});
    Elem tetOnPrism = mk(TET, {pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2), pt(0, 0, 4)});
    L n{{0, 0, 0}};
    return {
        {"line-line", 1, {box(1, pt(0), pt(2)), box(1, pt(2), pt(2))}, 5, 5, n},
        {"line-line periodic", 1, {box(1, pt(0), pt(2)), box(1, pt(2), pt(2))}, 4, 5, pt(4)},
        {"triangle-triangle", 2, {mk(TRI, {pt(0, 0), pt(2, 0), pt(0, 2)}), mk(TRI, {pt(2, 2), pt(0, 2), pt(2, 0)})}, 5, 5, n},
        {"square-square", 2, {b2(0, 0), b2(2, 0)}, 5, 5, n},
        {"square-triangle", 2, {b2(0, 0), mk(TRI, {pt(2, 0), pt(4, 0), pt(2, 2)})}, 5, 5, n},
        {"squares at a node", 2, {b2(0, 0), b2(2, 2)}, 3, 4, n},
        {"square-square periodic", 2, {b2(0, 0), b2(2, 0)}, 3, 5, pt(4, 0)},
        {"tetrahedron-tetrahedron", 3, {mk(TET, {pt(0, 0, 0), pt(2, 0, 0), pt(0, 2, 0), pt(0, 0, 2)}), mk(TET, {pt(2, 2, 2), pt(2, 0, 0), pt(0, 2, 0), pt(0, 0, 2)})}, 5, 5, n},
        {"tetrahedra at an edge", 3, {mk(TET, {pt(0, 0, 0), pt(2, 0, 0), pt(0, 2, 0), pt(0, 0, 2)}), mk(TET, {pt(0, 0, 0), pt(2, 0, 0), pt(0, -2, 0), pt(0, 0, -2)})}, 4, 5, n},
        {"cube-cube", 3, {b3(0, 0, 0), b3(2, 0, 0)}, 4, 5, n},
        {"cubes at an edge", 3, {b3(0, 0, 0), b3(2, 2, 0)}, 3, 4, n},
        {"prism-prism by a square", 3, {prism, prism2}, 3, 3, n},
        {"prism-prism by a triangle", 3, {prism, prismTop}, 3, 3, n},
        {"cube-prism", 3, {b3(0, 0, 0), prism}, 3, 3, n},
        {"prism-tetrahedron", 3, {prism, tetOnPrism}, 3, 3, n},
        {"cube-pyramid", 3, {b3(0, 0, 0), pyr}, 1, 1, n},
        {"pyramid-tetrahedron", 3, {pyr, tetOnPrism}, 1, 1, n},
        {"prism-pyramid", 3, {prism, mk(PYR, {pt(0, 1, 1), pt(2, 0, 0), pt(2, 0, 2), pt(2, 2, 0), pt(2, 2, 2)})}, 1, 1, n},
        {"pyramid-pyramid", 3, {pyr, mk(PYR, {pt(0, 0, 0), pt(0, 0, 2), pt(2, 0, 2), pt(0, 2, 2), pt(2, 2, 2)})}, 1, 1, n},
        {"pyramid-pyramid by a triangle", 3, {pyr, mk(PYR, {pt(0, 0, 4), pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2), pt(4, 2, 2)})}, 1, 1, n},
    };
}
inline std::string quarter(const mg::Mesh& m) {
    // known finding: two quadrilateral faces that meet in a quarter turn (see C12)
    for (auto& f : m.faces) {
        if (f.size() != 2) continue;
        auto& A = m.elems[f[0].first];
        auto& B = m.elems[f[1].first];
        auto& fa = mg::table(A.shape).faces[f[0].second];
        auto& fb = mg::table(B.shape).faces[f[1].second];
        if (fa.size() != 4 || m.dim != 3) continue;
        std::string s;
        for (int i : fa)
            for (int k = 0; k < 4; ++k)
                if (m.wrap(A.v[i]) == m.wrap(B.v[fb[k]])) s += char('0' + k);
        if (s == "1302" || s == "2031") return "square-orientation " + s;
    }
    return "";
}
#endif
