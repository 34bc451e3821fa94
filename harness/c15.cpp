// C15: refinement maps partition the parent consistently.
#include "shapes.h"
#include "Geometry/Mappings/RefinementMapsForPoint.h"
#include "Geometry/Mappings/RefinementMapsForLine.h"
#include "Geometry/Mappings/RefinementMapsForTriangle.h"
#include "Geometry/Mappings/RefinementMapsForSquare.h"
#include "Geometry/Mappings/RefinementMapsForCube.h"
#include "Geometry/Mappings/RefinementMapsForPyramid.h"
#include "Geometry/Mappings/RefinementMapsForTetrahedron.h"
#include "Geometry/Mappings/RefinementMapsForTriangularPrism.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
using namespace hpgem;
using namespace sh;
typedef Geometry::ReferenceGeometry RG;
typedef Geometry::RefinementMapping RM;
typedef std::vector<std::size_t> Idx;

struct Entry {
    const RM* map;
    int shape;
    const char* cls;
};
static std::vector<Entry> entries() {
    using namespace Geometry;
    std::vector<Entry> r;
#define E(S, id, k) r.push_back({RefinementMapFor##S##k::instance(), id, #S #k});
    E(Point, POINT, 0)
    E(Line, LINE, 0) E(Line, LINE, 1)
    E(Triangle, TRI, 0) E(Triangle, TRI, 1) E(Triangle, TRI, 2) E(Triangle, TRI, 3) E(Triangle, TRI, 4) E(Triangle, TRI, 5) E(Triangle, TRI, 6) E(Triangle, TRI, 7) E(Triangle, TRI, 8)
    E(Square, SQUARE, 0) E(Square, SQUARE, 1) E(Square, SQUARE, 2) E(Square, SQUARE, 3)
    E(Cube, CUBE, 0) E(Cube, CUBE, 1) E(Cube, CUBE, 2) E(Cube, CUBE, 3) E(Cube, CUBE, 4) E(Cube, CUBE, 5) E(Cube, CUBE, 6) E(Cube, CUBE, 7)
    E(Pyramid, PYR, 0)
    E(Tetrahedron, TET, 0)
    E(TriangularPrism, PRISM, 0) E(TriangularPrism, PRISM, 1) E(TriangularPrism, PRISM, 2) E(TriangularPrism, PRISM, 3) E(TriangularPrism, PRISM, 4) E(TriangularPrism, PRISM, 5) E(TriangularPrism, PRISM, 6) E(TriangularPrism, PRISM, 7) E(TriangularPrism, PRISM, 8) E(TriangularPrism, PRISM, 9)
#undef E
    return r;
}
static int shapeOf(const RG* g) {
    for (int s = 0; s < NSHAPES; ++s)
        if (g == &ref(s)) return s;
    mc::fail("a refinement map reports a reference shape that is none of the known ones");
    return -1;
}
template <std::size_t D>
struct Ops {
    static V tr(const RM* m, std::size_t c, const V& x) { return coords<D>(m->refinementTransform(c, point<D>(x))); }
    static std::vector<V> mat(const RM* m, std::size_t c, const V& x, bool left) {
        auto p = point<D>(x);
        LinearAlgebra::SmallMatrix<D, D> a = left ? m->getRefinementMappingMatrixL(c, p) : m->getRefinementMappingMatrixR(c, p);
        std::vector<V> r(D, V(D));
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j) r[i][j] = a(i, j);
        return r;
    }
    static std::vector<V> nodes(const RM* m) {
        std::vector<V> r;
        for (auto& p : m->getNewNodeLocations(Geometry::PointReference<D>())) r.push_back(coords<D>(p));
        return r;
    }
};
#define DISPATCH(d, expr)                       \
    switch (d) {                                \
        case 0: { typedef Ops<0> O; return expr; }  \
        case 1: { typedef Ops<1> O; return expr; }  \
        case 2: { typedef Ops<2> O; return expr; }  \
        default: { typedef Ops<3> O; return expr; } \
    }
static V tr(const RM* m, std::size_t c, const V& x) { DISPATCH(x.size(), O::tr(m, c, x)) }
static std::vector<V> mat(const RM* m, std::size_t c, const V& x, bool l) { DISPATCH(x.size(), O::mat(m, c, x, l)) }
static std::vector<V> newNodes(const RM* m, int d) { DISPATCH(d, O::nodes(m)) }
static double det(const std::vector<V>& a) {
    switch (a.size()) {
        case 0: return 1;
        case 1: return a[0][0];
        case 2: return a[0][0] * a[1][1] - a[0][1] * a[1][0];
        default:
            return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    }
}
static std::vector<V> allNodes(const RM* m, int s) {
    std::vector<V> r = shape(s).vert;
    for (auto& x : newNodes(m, shape(s).dim)) r.push_back(x);
    return r;
}
// vertex sets of the facets of a shape, from its inequalities
static std::vector<Idx> facets(int s) {
    std::vector<Idx> r;
    if (shape(s).dim == 0) return r;
    std::size_t n = slack(s, shape(s).vert[0]).size();
    for (std::size_t f = 0; f < n; ++f) {
        Idx v;
        for (std::size_t i = 0; i < shape(s).vert.size(); ++i)
            if (std::abs(slack(s, shape(s).vert[i])[f]) < 1e-12) v.push_back(i);
        r.push_back(v);
    }
    return r;
}
struct Plane {
    V n;
    double c;
    double operator()(const V& x) const {
        double r = -c;
        for (std::size_t i = 0; i < n.size(); ++i) r += n[i] * x[i];
        return r;
    }
};
static V sub(V a, const V& b) {
    for (std::size_t i = 0; i < a.size(); ++i) a[i] -= b[i];
    return a;
}
// the half spaces of the convex polytope spanned by the images of a child's vertices; inside is positive, distances are Euclidean
static std::vector<Plane> hull(int s, const std::vector<V>& img, const std::string& what) {
    std::size_t d = shape(s).dim;
    V mid(d, 0.0);
    for (auto& x : img)
        for (std::size_t i = 0; i < d; ++i) mid[i] += x[i] / img.size();
    std::vector<Plane> r;
    for (auto& f : facets(s)) {
        Plane p;
        if (d == 1)
            p.n = {1};
        else if (d == 2) {
            V e = sub(img[f[1]], img[f[0]]);
            p.n = {e[1], -e[0]};
        } else {
            V e = sub(img[f[1]], img[f[0]]), g = sub(img[f[2]], img[f[0]]);
            p.n = {e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]};
        }
        double l = 0;
        for (double v : p.n) l += v * v;
        l = std::sqrt(l);
        mc::require(l > 1e-9, what, ": a face of the child is degenerate");
        for (double& v : p.n) v /= l;
        p.c = 0;
        p.c = p(img[f[0]]);
        if (p(mid) < 0) {
            p.c = -p.c;
            for (double& v : p.n) v = -v;
        }
        for (std::size_t i = 0; i < img.size(); ++i) {
            bool on = std::find(f.begin(), f.end(), i) != f.end();
            mc::require(on ? std::abs(p(img[i])) < 1e-12 : p(img[i]) > 1e-9, what, ": the child is not a convex polytope with plane faces");
        }
        r.push_back(p);
    }
    return r;
}
static double depth(const std::vector<Plane>& h, const V& x) {
    double m = 1e9;
    for (auto& p : h) m = std::min(m, p(x));
    return m;
}
template <int C>
static V faceMap(const RG& g, std::size_t f, const V& x) {
    auto* m = g.getCodim1MappingPtr(f);
    switch (x.size()) {
        case 0: return coords<1>(m->transform(point<0>(x)));
        case 1: return coords<2>(m->transform(point<1>(x)));
        default: return coords<3>(m->transform(point<2>(x)));
    }
}

static void item(const Entry& e, const std::string& what) { mc::setKey(mc::str(e.cls, " ", what)); }

// the polytopes spanned by the listed nodes of the children tile the parent
static void tiling(const Entry& e) {
    const RM* m = e.map;
    const Shape& S = shape(e.shape);
    std::string name = e.cls;
    item(e, "tiling");
    mc::require(m->getBigElementReferenceGeometry() == &ref(e.shape), name, ": reports the wrong parent shape");
    std::vector<V> nodes = allNodes(m, e.shape);
    mc::require(nodes.size() == S.vert.size() + m->getNumberOfNewNodes(), name, ": number of new nodes is ", m->getNumberOfNewNodes(), " but ", nodes.size() - S.vert.size(), " are located");
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        mc::require(S.dim == 0 || minSlack(e.shape, nodes[i]) > -1e-12, name, ": new node ", i, " at ", str(nodes[i]), " lies outside the parent");
        for (std::size_t j = 0; j < i; ++j) mc::require(!closeV(nodes[i], nodes[j], 1e-9), name, ": nodes ", j, " and ", i, " coincide at ", str(nodes[i]));
    }
    std::vector<std::vector<Plane>> hulls;
    std::set<std::size_t> used;
    for (std::size_t c = 0; c < m->getNumberOfSubElements(); ++c) {
        std::string what = mc::str(name, ": child ", c);
        int cs = shapeOf(m->getSubElementReferenceGeometry(c));
        const Shape& T = shape(cs);
        mc::require(T.dim == S.dim, what, " has another dimension than its parent");
        Idx idx = m->getSubElementLocalNodeIndices(c);
        mc::require(idx.size() == T.vert.size(), what, " is a ", T.name, " but lists ", idx.size(), " nodes");
        mc::require(std::set<std::size_t>(idx.begin(), idx.end()).size() == idx.size(), what, " lists a node twice");
        std::vector<V> img;
        for (std::size_t i : idx) {
            mc::require(i < nodes.size(), what, " lists node ", i, " of ", nodes.size());
            used.insert(i);
            img.push_back(nodes[i]);
        }
        if (S.dim) hulls.push_back(hull(cs, img, what));
        mc::state(mc::str(name, c));
    }
    mc::require(used.size() == nodes.size(), name, ": a node is used by no child");
    if (S.dim == 0) mc::require(m->getNumberOfSubElements() == 1, name, ": a point has one child");
    if (S.dim)
        for (int k : {12, 7, mc::tier(10, 24)})
            for (const V& x : lattice(e.shape, k)) {
                std::size_t closed = 0, open = 0;
                for (auto& h : hulls) {
                    double d = depth(h, x);
                    closed += d > -1e-12;
                    open += d > 1e-12;
                }
                mc::require(closed >= 1, name, ": point ", str(x), " of the parent lies in no child");
                mc::require(open <= 1 && (open == 0 || closed == 1), name, ": point ", str(x), " of the parent lies in more than one child");
                mc::step();
            }
}
// the map of child c sends its vertices to its listed nodes, stays inside, and keeps orientation and volume
static double childVolume(const RM* m, std::size_t c, int cs, const std::string& what) {
    int d = shape(cs).dim;
    if (d == 0) return 1;
    auto& rule = *QuadratureRules::AllGaussQuadratureRules::instance().getRule(&ref(cs), cs == PYR ? 1 : 4);
    double vol = 0, sign = 0;
    for (std::size_t q = 0; q < rule.getNumberOfPoints(); ++q) {
        double dt = det(mat(m, c, coordsOf(rule.getPoint(q), d), true));
        mc::require(std::abs(dt) > 1e-9 && dt * sign >= 0, what, ": the map is singular or folds");
        sign = dt;
        vol += std::abs(dt) * rule.weight(q);
    }
    return vol;
}
static void child(const Entry& e, std::size_t c, int aspect) {
    const RM* m = e.map;
    const Shape& S = shape(e.shape);
    std::string what = mc::str(e.cls, ": child ", c);
    item(e, mc::str("child ", c, aspect ? " matrix" : " map"));
    int cs = shapeOf(m->getSubElementReferenceGeometry(c));
    const Shape& T = shape(cs);
    std::vector<V> nodes = allNodes(m, e.shape);
    Idx idx = m->getSubElementLocalNodeIndices(c);
    if (aspect == 0) {
        for (std::size_t k = 0; k < idx.size(); ++k) {
            V y = tr(m, c, T.vert[k]);
            mc::require(closeV(y, nodes.at(idx[k])), what, " vertex ", k, " is sent to ", str(y), " but node ", idx[k], " lies at ", str(nodes[idx[k]]));
            mc::step();
        }
        for (const V& x : lattice(cs, mc::tier(4, 10))) {
            V y = tr(m, c, x);
            mc::require(S.dim == 0 || minSlack(e.shape, y) > -1e-12, what, ": point ", str(x), " is sent to ", str(y), ", outside the parent");
            mc::step();
        }
        return;
    }
    for (const V& x : lattice(cs, mc::tier(4, 10))) {
        auto L = mat(m, c, x, true), R = mat(m, c, x, false);
        for (int j = 0; j < S.dim; ++j) {
            const double h = 0.25;  // the maps are at most quadratic along a coordinate line: a central difference is exact
            V a = x, b = x;
            a[j] += h;
            b[j] -= h;
            V fa = tr(m, c, a), fb = tr(m, c, b);
            for (int i = 0; i < S.dim; ++i)
                mc::require(std::abs((fa[i] - fb[i]) / (2 * h) - L[i][j]) < 1e-12, what, " at ", str(x), ": derivative of component ", i, " along ", j, " is ", (fa[i] - fb[i]) / (2 * h), " but the matrix says ", L[i][j]);
        }
        if (std::abs(det(L)) < 1e-9) mc::fail(what, " at ", str(x), ": the matrix is singular");
        for (int i = 0; i < S.dim; ++i)
            for (int j = 0; j < S.dim; ++j) {
                double v = 0;
                for (int k = 0; k < S.dim; ++k) v += R[i][k] * L[k][j];
                mc::require(std::abs(v - (i == j)) < 1e-11, what, " at ", str(x), ": the right matrix is not the inverse of the left matrix");
            }
        mc::step();
    }
}
static void volume(const Entry& e) {
    const RM* m = e.map;
    item(e, "volume");
    double total = 0;
    for (std::size_t c = 0; c < m->getNumberOfSubElements(); ++c) total += childVolume(m, c, shapeOf(m->getSubElementReferenceGeometry(c)), mc::str(e.cls, ": child ", c));
    double parent = monomialIntegral(e.shape, std::vector<int>(shape(e.shape).dim, 0));
    mc::require(std::abs(total - parent) < 1e-9, e.cls, ": the children have volume ", total, ", the parent ", parent);  // the pyramid rules are given to 10 digits
}
// the nodes listed for face f are those of the refined face, in its order
static void face(const Entry& e, std::size_t f) {
    const RM* m = e.map;
    const Shape& S = shape(e.shape);
    const RG& g = ref(e.shape);
    std::vector<V> nodes = allNodes(m, e.shape);
    auto maps = m->getCodim1RefinementMaps();
    item(e, mc::str("face ", f));
    mc::require(maps.size() == g.getNumberOfCodim1Entities(), e.cls, ": ", maps.size(), " face refinements for ", g.getNumberOfCodim1Entities(), " faces");
    std::string what = mc::str(e.cls, " face ", f);
    const RG* fg = g.getCodim1ReferenceGeometry(f);
    int fs = shapeOf(fg);
    mc::require(maps[f]->getBigElementReferenceGeometry() == fg, what, ": the listed refinement is for another shape");
    std::vector<V> fn = allNodes(maps[f], fs);
    Idx idx = m->getCodim1LocalNodeIndices(f);
    mc::require(idx.size() == fn.size(), what, ": lists ", idx.size(), " nodes, its refinement has ", fn.size());
    for (std::size_t i = 0; i < idx.size(); ++i) {
        V y = faceMap<1>(g, f, fn[i]);
        mc::require(idx[i] < nodes.size(), what, " lists node ", idx[i], " of ", nodes.size());
        mc::require(closeV(y, nodes[idx[i]]), what, ": node ", i, " of the face refinement lies at ", str(y), " but the listed node ", idx[i], " at ", str(nodes[idx[i]]));
        mc::step();
    }
    // no node of the parent on this face is missed
    std::vector<V> corners;
    for (std::size_t i : g.getCodim1EntityLocalIndices(f)) corners.push_back(S.vert[i]);
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        auto sl = slack(e.shape, nodes[i]);
        bool on = false;
        for (std::size_t k = 0; k < sl.size(); ++k) {
            bool all = true;
            for (auto& c : corners) all = all && std::abs(slack(e.shape, c)[k]) < 1e-12;
            on = on || (all && std::abs(sl[k]) < 1e-12);
        }
        mc::require(on == (std::find(idx.begin(), idx.end(), i) != idx.end()), what, ": node ", i, on ? " lies on the face but is not listed" : " is listed but lies off the face");
    }
}
// part j of the refined face f is the listed face of the listed child
static void part(const Entry& e, std::size_t f, std::size_t j) {
    const RM* m = e.map;
    item(e, mc::str("face ", f, " part ", j));
    auto maps = m->getCodim1RefinementMaps();
    std::string what = mc::str(e.cls, " face ", f, " part ", j);
    std::size_t c, lf;
    std::tie(c, lf) = m->getSubElementAndLocalFaceIndex(f, j);
    mc::require(c < m->getNumberOfSubElements(), what, ": child ", c, " does not exist");
    const RG* cg = m->getSubElementReferenceGeometry(c);
    mc::require(lf < cg->getNumberOfCodim1Entities(), what, ": child ", c, " has no face ", lf);
    mc::require(cg->getCodim1ReferenceGeometry(lf) == maps[f]->getSubElementReferenceGeometry(j), what, ": face ", lf, " of child ", c, " has another shape than the part");
    // compare positions: where the refined face says the part's nodes are, and where the child's face nodes are
    const RG& g = ref(e.shape);
    std::vector<V> nodes = allNodes(m, e.shape), fn = allNodes(maps[f], shapeOf(g.getCodim1ReferenceGeometry(f)));
    Idx cn = m->getSubElementLocalNodeIndices(c);
    std::vector<V> got, want;
    for (std::size_t k : cg->getCodim1EntityLocalIndices(lf)) got.push_back(nodes.at(cn[k]));
    for (std::size_t k : maps[f]->getSubElementLocalNodeIndices(j)) want.push_back(faceMap<1>(g, f, fn.at(k)));
    std::string gs, ws;
    for (auto& v : got) gs += str(v);
    for (auto& v : want) ws += str(v);
    mc::require(got.size() == want.size(), what, ": number of nodes");
    for (auto& v : want) mc::require(std::any_of(got.begin(), got.end(), [&](const V& w) { return closeV(v, w); }), what, ": face ", lf, " of child ", c, " has nodes ", gs, " but the part has nodes ", ws);
    mc::step();
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    auto all = entries();
    mc::S().splitDepth = 2;
    mc::S().keyDetail = true;
    return mc::run([&] {
        auto& e = all[mc::choose(all.size(), "map")];
        mc::note(e.cls);
        bool hasFaces = shape(e.shape).dim > 0;
        switch (mc::choose(hasFaces ? 5 : 3, "part")) {
            case 0: tiling(e); break;
            case 1: volume(e); break;
            case 2: {
                std::size_t c = mc::choose(e.map->getNumberOfSubElements(), "child");
                child(e, c, mc::choose(2, "aspect"));
                break;
            }
            case 3: face(e, mc::choose(ref(e.shape).getNumberOfCodim1Entities(), "face")); break;
            default: {
                std::size_t f = mc::choose(ref(e.shape).getNumberOfCodim1Entities(), "face");
                auto maps = e.map->getCodim1RefinementMaps();
                if (f >= maps.size()) throw mc::Prune();
                part(e, f, mc::choose(maps[f]->getNumberOfSubElements(), "part of the face"));
            }
        }
    });
}
