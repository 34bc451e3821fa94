// The reference shapes, described independently of hpGEM: vertices, membership, monomial integrals, symmetric grids.
#ifndef VERIF_SHAPES_H
#define VERIF_SHAPES_H
#include "hp.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/PointReference.h"
namespace sh {
using namespace hpgem;
enum { POINT, LINE, TRI, SQUARE, TET, PYR, PRISM, CUBE, HYPER, NSHAPES };
typedef std::vector<double> V;
struct Shape {
    int id;
    const char* name;
    int dim;
    std::vector<V> vert;
    Geometry::ReferenceGeometryType type;
};
inline std::vector<V> boxVertices(int d) {
    std::vector<V> r;
    for (int k = 0; k < (1 << d); ++k) {
        V x;
        for (int i = 0; i < d; ++i) x.push_back(k >> i & 1 ? 1 : -1);
        r.push_back(x);
    }
    return r;
}
inline const Shape& shape(int s) {
    typedef Geometry::ReferenceGeometryType T;
    static const std::vector<Shape> t = {
        {POINT, "point", 0, {{}}, T::POINT},
        {LINE, "line", 1, boxVertices(1), T::LINE},
        {TRI, "triangle", 2, {{0, 0}, {1, 0}, {0, 1}}, T::TRIANGLE},
        {SQUARE, "square", 2, boxVertices(2), T::SQUARE},
        {TET, "tetrahedron", 3, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, T::TETRAHEDRON},
        {PYR, "pyramid", 3, {{0, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {-1, 1, 0}, {1, 1, 0}}, T::PYRAMID},
        {PRISM, "prism", 3, {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}}, T::TRIANGULARPRISM},
        {CUBE, "cube", 3, boxVertices(3), T::CUBE},
        {HYPER, "hypercube", 4, boxVertices(4), T::HYPERCUBE}};
    return t[s];
}
inline Geometry::ReferenceGeometry& ref(int s) {
    switch (s) {
        case POINT: return Geometry::ReferencePoint::Instance();
        case LINE: return Geometry::ReferenceLine::Instance();
        case TRI: return Geometry::ReferenceTriangle::Instance();
        case SQUARE: return Geometry::ReferenceSquare::Instance();
        case TET: return Geometry::ReferenceTetrahedron::Instance();
        case PYR: return Geometry::ReferencePyramid::Instance();
        case PRISM: return Geometry::ReferenceTriangularPrism::Instance();
        case CUBE: return Geometry::ReferenceCube::Instance();
        default: return Geometry::ReferenceHypercube::Instance();
    }
}
// distance to the boundary, positive inside: every value is an affine function vanishing on one facet
inline std::vector<double> slack(int s, const V& x) {
    std::vector<double> r;
    auto box = [&](int i) {
        r.push_back(1 - x[i]);
        r.push_back(1 + x[i]);
    };
    switch (s) {
        case LINE: box(0); break;
        case SQUARE: box(0), box(1); break;
        case CUBE: box(0), box(1), box(2); break;
        case HYPER: box(0), box(1), box(2), box(3); break;
        case TRI: r = {x[0], x[1], 1 - x[0] - x[1]}; break;
        case TET: r = {x[0], x[1], x[2], 1 - x[0] - x[1] - x[2]}; break;
        case PRISM: r = {x[0], x[1], 1 - x[0] - x[1], 1 - x[2], 1 + x[2]}; break;
        case PYR: r = {x[2], 1 - x[2] - x[0], 1 - x[2] + x[0], 1 - x[2] - x[1], 1 - x[2] + x[1]}; break;
    }
    return r;
}
inline double minSlack(int s, const V& x) {
    double m = 1e9;
    for (double v : slack(s, x)) m = std::min(m, v);
    return m;
}
inline long double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
inline long double lineInt(int a) { return a % 2 ? 0 : 2.0L / (a + 1); }
inline double monomialIntegral(int s, const std::vector<int>& a) {
    switch (s) {
        case POINT: return 1;
        case TRI: return fact(a[0]) * fact(a[1]) / fact(a[0] + a[1] + 2);
        case TET: return fact(a[0]) * fact(a[1]) * fact(a[2]) / fact(a[0] + a[1] + a[2] + 3);
        case PRISM: return fact(a[0]) * fact(a[1]) / fact(a[0] + a[1] + 2) * lineInt(a[2]);
        case PYR: {
            int n = a[0] + a[1] + 2;
            return lineInt(a[0]) * lineInt(a[1]) * fact(a[2]) * fact(n) / fact(a[2] + n + 1);
        }
        default: {
            long double r = 1;
            for (int x : a) r *= lineInt(x);
            return r;
        }
    }
}
inline double monomial(const V& x, const std::vector<int>& a) {
    double r = 1;
    for (std::size_t i = 0; i < a.size(); ++i)
        for (int k = 0; k < a[i]; ++k) r *= x[i];
    return r;
}
// all exponent vectors of total degree <= n (or every exponent <= n)
inline std::vector<std::vector<int>> exponents(int dim, int n, bool perVariable = false) {
    std::vector<std::vector<int>> r;
    std::vector<int> a(dim, 0);
    std::function<void(int, int)> rec = [&](int i, int left) {
        if (i == dim) {
            r.push_back(a);
            return;
        }
        for (a[i] = 0; a[i] <= (perVariable ? n : left); ++a[i]) rec(i + 1, left - a[i]);
        a[i] = 0;
    };
    rec(0, n);
    return r;
}
template <std::size_t DIM>
Geometry::PointReference<DIM> point(const V& x) {
    Geometry::PointReference<DIM> p;
    for (std::size_t i = 0; i < DIM; ++i) p[i] = x[i];
    return p;
}
template <std::size_t DIM, class P>
V coords(const P& p) {
    V x(DIM);
    for (std::size_t i = 0; i < DIM; ++i) x[i] = p[i];
    return x;
}
inline V coordsOf(const Geometry::PointReferenceBase& p, int dim) {
    switch (dim) {
        case 0: return {};
        case 1: return coords<1>(static_cast<const Geometry::PointReference<1>&>(p));
        case 2: return coords<2>(static_cast<const Geometry::PointReference<2>&>(p));
        case 3: return coords<3>(static_cast<const Geometry::PointReference<3>&>(p));
        default: return coords<4>(static_cast<const Geometry::PointReference<4>&>(p));
    }
}
// a lattice of points of the closed shape, n steps per direction; unisolvent for degree n per direction (simplex: total degree n)
inline std::vector<V> lattice(int s, int n) {
    std::vector<V> r;
    const Shape& t = shape(s);
    V x(t.dim);
    std::function<void(int)> rec = [&](int i) {
        if (i == t.dim) {
            if (t.dim == 0 || minSlack(s, x) > -1e-12) r.push_back(x);
            return;
        }
        bool unit = s == TRI || s == TET || (s == PRISM && i < 2) || (s == PYR && i == 2);
        for (int k = 0; k <= n; ++k) {
            x[i] = unit ? double(k) / n : -1 + 2.0 * k / n;
            rec(i + 1);
        }
    };
    rec(0);
    return r;
}
inline std::string str(const V& x) {
    std::string r = "(";
    for (double v : x) r += mc::str(v, " ");
    return r + ")";
}
inline bool closeV(const V& a, const V& b, double tol = 1e-12) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(std::abs(a[i] - b[i]) <= tol)) return false;
    return true;
}
}  // namespace sh
#endif
