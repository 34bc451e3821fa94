// The mesh families that the distributed checks enumerate.
#ifndef VERIF_CATALOG_H
#define VERIF_CATALOG_H
#include "meshgen.h"
namespace mg {
inline std::vector<Mesh> catalog(bool deep) {
    std::vector<Mesh> r;
    // one dimension
    for (int n = 1; n <= (deep ? 5 : 4); ++n) r.push_back(grid(1, pt(n, 1, 1), "b"));
    r.push_back(grid(1, pt(3, 1, 1), "b", pt(1), 1));
    r.push_back(grid(1, pt(4, 1, 1), "b", pt(1)));
    // two dimensions
    r.push_back(grid(2, pt(3, 1, 1), "b", pt(0), 2));
    r.push_back(grid(2, pt(2, 2, 1), "b", pt(0), 1));
    r.push_back(grid(2, pt(1, 1, 1), "c", pt(0), 2));
    r.push_back(grid(2, pt(2, 1, 1), "t", pt(0), 0));
    r.push_back(hybrid2(1));
    r.push_back(grid(2, pt(3, 1, 1), "b", pt(1, 0), 1));
    r.push_back(grid(2, pt(4, 1, 1), "b", pt(1, 0), 0));
    // three dimensions
    r.push_back(grid(3, pt(3, 1, 1), "b", pt(0), 2));
    r.push_back(grid(3, pt(2, 2, 1), "b", pt(0), 1));
    r.push_back(hybrid3(1));
    r.push_back(grid(3, pt(1, 1, 1), "5", pt(0), 2));
    r.push_back(grid(3, pt(2, 1, 1), "p", pt(0), 1));
    r.push_back(grid(3, pt(3, 1, 1), "b", pt(1, 0, 0), 1));
    if (deep) {
        r.push_back(grid(2, pt(3, 2, 1), "b", pt(0), 2));
        r.push_back(grid(2, pt(3, 3, 1), "b", pt(1, 1), 0));
        r.push_back(grid(2, pt(2, 2, 1), "tb", pt(0), 0));
        r.push_back(grid(3, pt(1, 1, 1), "t", pt(0), 1));
        r.push_back(grid(3, pt(1, 1, 1), "y", pt(0), 1));
        r.push_back(grid(3, pt(3, 2, 1), "b", pt(1, 0, 0), 1));
        r.push_back(grid(3, pt(3, 1, 1), "p", pt(1, 0, 0), 0));
    }
    for (auto& m : r) zonesByParity(m);
    return r;
}
// every assignment of the elements to P processes
inline std::vector<int> chooseParts(int n, int P) {
    std::vector<int> p(n);
    for (auto& x : p) x = mc::choose(P);
    std::string s = "parts ";
    for (int x : p) s += std::to_string(x);
    mc::note(s);
    return p;
}
}  // namespace mg
#endif
