// Uniform access to hpGEM's basis function factories, and a dimension-free view of their functions.
#ifndef VERIF_BFSETS_H
#define VERIF_BFSETS_H
#include "shapes.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BaseBasisFunction.h"
#include "FE/OrientedBasisFunctionSet.h"
namespace bf {
using namespace hpgem;
using namespace sh;
typedef FE::BasisFunctionSet Set;
typedef FE::OrientedBasisFunctionSet OSet;
enum Space { FULL, TENSOR, NEDELEC, PYRAMID1, FULLVECTOR };
struct Maker {
    int shape;
    const char* name;
    std::function<Set*(std::size_t)> make;
    bool vec;
    int lo, hi, deep;  // orders
    Space space;
};
inline Set* monomials(int dim, std::size_t o) {
    Set* s = new Set(o);
    if (dim == 1) FE::assembleMonomialBasisFunctions1D(*s, o);
    if (dim == 2) FE::assembleMonomialBasisFunctions2D(*s, o);
    if (dim == 3) FE::assembleMonomialBasisFunctions3D(*s, o);
    if (dim == 4) FE::assembleMonomialBasisFunctions4D(*s, o);
    return s;
}
inline const std::vector<Maker>& makers() {
    static const std::vector<Maker> m = {
        {LINE, "line", FE::createDGBasisFunctionSet1DH1Line, false, 0, 5, 5, TENSOR},
        {TRI, "triangle", FE::createDGBasisFunctionSet2DH1Triangle, false, 0, 5, 5, FULL},
        {SQUARE, "square", FE::createDGBasisFunctionSet2DH1Square, false, 0, 5, 5, TENSOR},
        {TRI, "Nedelec 2D", FE::createDGBasisFunctionSet2DNedelec, true, 1, 5, 6, NEDELEC},
        {TET, "tetrahedron", FE::createDGBasisFunctionSet3DH1Tetrahedron, false, 0, 5, 5, FULL},
        {CUBE, "cube", FE::createDGBasisFunctionSet3DH1Cube, false, 0, 4, 5, TENSOR},
        {PRISM, "prism", FE::createDGBasisFunctionSet3DH1ConformingPrism, false, 0, 4, 5, TENSOR},
        {PYR, "pyramid", FE::createDGBasisFunctionSet3DH1ConformingPyramid, false, 0, 1, 1, PYRAMID1},
        {TET, "Nedelec 3D", FE::createDGBasisFunctionSet3DNedelec, true, 1, 4, 5, NEDELEC},
        {TET, "Ainsworth-Coyle", FE::createDGBasisFunctionSet3DAinsworthCoyle, true, 1, 4, 5, FULLVECTOR},
        {LINE, "monomials 1D", [](std::size_t o) { return monomials(1, o); }, false, 0, 6, 8, FULL},
        {SQUARE, "monomials 2D", [](std::size_t o) { return monomials(2, o); }, false, 0, 5, 6, FULL},
        {CUBE, "monomials 3D", [](std::size_t o) { return monomials(3, o); }, false, 0, 4, 5, FULL},
        {HYPER, "monomials 4D", [](std::size_t o) { return monomials(4, o); }, false, 0, 3, 4, FULL}};
    return m;
}
struct Conforming {
    int shape;
    std::function<Set*(std::size_t)> interior;
    std::function<std::vector<const Set*>(std::size_t)> vertex;
    std::function<std::vector<const OSet*>(std::size_t)> edge;  // codimension 2 in 3D, none otherwise
    std::function<std::vector<const OSet*>(std::size_t)> face;  // codimension 1 in 2D and 3D
    int hi, deep;
};
inline const std::vector<Conforming>& conforming() {
    static const std::vector<Conforming> c = {
        {LINE, FE::createInteriorBasisFunctionSet1DH1Line, [](std::size_t o) {
             auto l = FE::createVertexBasisFunctionSet1DH1Line(o);
             return std::vector<const Set*>(l.begin(), l.end());
         },
         nullptr, nullptr, 5, 5},
        {TRI, FE::createInteriorBasisFunctionSet2DH1Triangle, FE::createVertexBasisFunctionSet2DH1Triangle, nullptr, FE::createFaceBasisFunctionSet2DH1Triangle, 5, 5},
        {SQUARE, FE::createInteriorBasisFunctionSet2DH1Square, FE::createVertexBasisFunctionSet2DH1Square, nullptr, FE::createFaceBasisFunctionSet2DH1Square, 5, 5},
        {TET, FE::createInteriorBasisFunctionSet3DH1Tetrahedron, FE::createVertexBasisFunctionSet3DH1Tetrahedron, FE::createEdgeBasisFunctionSet3DH1Tetrahedron,
         FE::createFaceBasisFunctionSet3DH1Tetrahedron, 5, 5},
        {CUBE, FE::createInteriorBasisFunctionSet3DH1Cube, FE::createVertexBasisFunctionSet3DH1Cube, FE::createEdgeBasisFunctionSet3DH1Cube, FE::createFaceBasisFunctionSet3DH1Cube,
         4, 5},
        {PRISM, FE::createInteriorBasisFunctionSet3DH1ConformingPrism, FE::createVertexBasisFunctionSet3DH1ConformingPrism, FE::createEdgeBasisFunctionSet3DH1ConformingPrism,
         FE::createFaceBasisFunctionSet3DH1ConformingPrism, 4, 5},
        {PYR, FE::createInteriorBasisFunctionSet3DH1ConformingPyramid, FE::createVertexBasisFunctionSet3DH1ConformingPyramid, FE::createEdgeBasisFunctionSet3DH1ConformingPyramid,
         FE::createFaceBasisFunctionSet3DH1ConformingPyramid, 1, 1}};
    return c;
}
template <std::size_t D>
V valueD(const Set* s, int i, const V& x, bool vec);
template <>
inline V valueD<1>(const Set* s, int i, const V& x, bool) {
    return {s->eval(i, point<1>(x))};
}
template <std::size_t D>
inline V valueD(const Set* s, int i, const V& x, bool vec) {
    if (!vec) return {s->eval(i, point<D>(x))};
    LinearAlgebra::SmallVector<D> r;
    s->eval(i, point<D>(x), r);
    return coords<D>(r);
}
inline V value(const Set* s, int i, const V& x, bool vec) {
    switch (x.size()) {
        case 1: return valueD<1>(s, i, x, vec);
        case 2: return valueD<2>(s, i, x, vec);
        case 3: return valueD<3>(s, i, x, vec);
        default: return valueD<4>(s, i, x, vec);
    }
}
template <std::size_t D>
V gradD(const Set* s, int i, const V& x) {
    V a = coords<D>(s->evalDeriv(i, point<D>(x)));
    for (std::size_t d = 0; d < D; ++d) {
        double b = s->evalDeriv(i, d, point<D>(x));
        mc::require(a[d] == b || (std::isnan(a[d]) && std::isnan(b)), "function ", i, ": the two gradient routes disagree at ", str(x));
    }
    return a;
}
inline V grad(const Set* s, int i, const V& x) {
    switch (x.size()) {
        case 1: return gradD<1>(s, i, x);
        case 2: return gradD<2>(s, i, x);
        case 3: return gradD<3>(s, i, x);
        default: return gradD<4>(s, i, x);
    }
}
inline V curl(const Set* s, int i, const V& x) {
    if (x.size() == 2) return coords<2>(s->evalCurl(i, point<2>(x)));
    return coords<3>(s->evalCurl(i, point<3>(x)));
}
// rank of the rows (Gaussian elimination with complete pivoting); gap reports last accepted / first rejected pivot
inline int rank(std::vector<std::vector<long double>> a, long double tol = 1e-9L) {
    int n = a.size(), r = 0;
    if (!n) return 0;
    int m = a[0].size();
    for (auto& row : a) {
        long double s = 0;
        for (auto v : row) s = std::max(s, std::abs(v));
        if (s > 0)
            for (auto& v : row) v /= s;
    }
    while (r < n) {
        int pi = -1, pj = -1;
        long double best = tol;
        for (int i = r; i < n; ++i)
            for (int j = r; j < m; ++j)
                if (std::abs(a[i][j]) > best) best = std::abs(a[i][j]), pi = i, pj = j;
        if (pi < 0) break;
        std::swap(a[r], a[pi]);
        for (auto& row : a) std::swap(row[r], row[pj]);
        for (int i = r + 1; i < n; ++i) {
            long double f = a[i][r] / a[r][r];
            if (f != 0)
                for (int j = r; j < m; ++j) a[i][j] -= f * a[r][j];
        }
        ++r;
    }
    return r;
}
}  // namespace bf
#endif
