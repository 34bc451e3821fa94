// C12: reference shapes agree with their own topology and boundary maps; orientation maps send vertices to vertices.
#include "shapes.h"
#include "Geometry/Jacobian.h"
#include "Geometry/ReferenceGeometryFactory.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
using namespace hpgem;
using namespace sh;
typedef Geometry::ReferenceGeometry RG;
typedef std::vector<std::size_t> Idx;

static int shapeOf(const RG* g) {
    for (int s = 0; s < NSHAPES; ++s)
        if (g->getGeometryType() == shape(s).type) return s;
    return -1;
}
static bool internal(const RG& g, const V& x) {
    switch (x.size()) {
        case 0: return g.isInternalPoint(point<0>(x));
        case 1: return g.isInternalPoint(point<1>(x));
        case 2: return g.isInternalPoint(point<2>(x));
        case 3: return g.isInternalPoint(point<3>(x));
        default: return g.isInternalPoint(point<4>(x));
    }
}
// a map between reference spaces, dimension-free
template <std::size_t D, int C>
V apply1(const Geometry::MappingReferenceToReference<C>* m, const V& x) {
    return coords<D + C>(m->transform(point<D>(x)));
}
template <std::size_t D, int C>
std::vector<V> jac1(const Geometry::MappingReferenceToReference<C>* m, const V& x) {  // columns
    auto j = m->calcJacobian(point<D>(x));
    std::vector<V> r(D, V(D + C));
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D + C; ++b) r[a][b] = j(b, a);
    return r;
}
template <int C>
V apply(const Geometry::MappingReferenceToReference<C>* m, const V& x) {
    switch (x.size()) {
        case 0: return apply1<0, C>(m, x);
        case 1: return apply1<1, C>(m, x);
        case 2: return apply1<2, C>(m, x);
        default: return apply1<3, C>(m, x);
    }
}
template <int C>
std::vector<V> jac(const Geometry::MappingReferenceToReference<C>* m, const V& x) {
    switch (x.size()) {
        case 0: return {};
        case 1: return jac1<1, C>(m, x);
        case 2: return jac1<2, C>(m, x);
        default: return jac1<3, C>(m, x);
    }
}
// every face and orientation map of hpGEM's shapes is affine: the images of the vertices determine it
template <int C>
void checkAffine(const Geometry::MappingReferenceToReference<C>* m, int from, const std::vector<V>& target, const std::string& what) {
    const Shape& f = shape(from);
    V x0(f.dim, 0.0);
    for (std::size_t i = 0; i < f.vert.size(); ++i) {
        V got = apply<C>(m, f.vert[i]);
        mc::require(closeV(got, target[i]), what, ": vertex ", i, " of the ", f.name, " is sent to ", str(got), " instead of ", str(target[i]));
        mc::step();
    }
    for (const V& x : lattice(from, 4)) {
        // affine interpolation of the target vertices through barycentric-like weights (multilinear on boxes)
        V want(f.dim + C, 0.0);
        for (std::size_t i = 0; i < f.vert.size(); ++i) {
            double w = 1;
            if (from == TRI || from == TET) {
                double l0 = 1;
                for (double c : x) l0 -= c;
                w = i == 0 ? l0 : x[i - 1];
            } else
                for (int d = 0; d < f.dim; ++d) w *= (1 + f.vert[i][d] * x[d]) / 2;
            for (int d = 0; d < f.dim + C; ++d) want[d] += w * target[i][d];
        }
        V got = apply<C>(m, x);
        mc::require(closeV(got, want, 1e-12), what, ": ", str(x), " is sent to ", str(got), " instead of ", str(want));
        auto j = jac<C>(m, x);
        for (int a = 0; a < f.dim; ++a) {
            V lo = x, hi = x;
            lo[a] -= 0.5;
            hi[a] += 0.5;
            V l = apply<C>(m, lo), h = apply<C>(m, hi), d(l.size());
            for (std::size_t k = 0; k < d.size(); ++k) d[k] = h[k] - l[k];
            mc::require(closeV(j[a], d, 1e-12), what, ": derivative ", a, " at ", str(x), " is ", str(j[a]), " instead of ", str(d));
        }
        mc::step();
    }
}
static std::set<std::set<int>> polytopeFaces(int s, int codim) {
    // sets of vertices lying on the intersection of facets, of the right affine dimension
    const Shape& t = shape(s);
    std::vector<std::set<int>> facet;
    for (std::size_t i = 0; i < t.vert.size(); ++i) {
        auto sl = slack(s, t.vert[i]);
        facet.resize(sl.size());
        for (std::size_t k = 0; k < sl.size(); ++k)
            if (std::abs(sl[k]) < 1e-12) facet[k].insert(i);
    }
    std::set<std::set<int>> all(facet.begin(), facet.end());
    bool grow = true;
    while (grow) {
        grow = false;
        std::set<std::set<int>> more = all;
        for (auto& a : all)
            for (auto& b : all) {
                std::set<int> c;
                std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(c, c.begin()));
                if (c.size() && more.insert(c).second) grow = true;
            }
        all = more;
    }
    std::set<std::set<int>> r;
    for (auto& a : all) {  // affine dimension by Gram-Schmidt
        std::vector<V> basis;
        V o = t.vert[*a.begin()];
        for (int i : a) {
            V d(t.dim);
            for (int k = 0; k < t.dim; ++k) d[k] = t.vert[i][k] - o[k];
            for (auto& b : basis) {
                double dot = 0;
                for (int k = 0; k < t.dim; ++k) dot += d[k] * b[k];
                for (int k = 0; k < t.dim; ++k) d[k] -= dot * b[k];
            }
            double n = 0;
            for (double v : d) n += v * v;
            if (n > 1e-9) {
                for (double& v : d) v /= std::sqrt(n);
                basis.push_back(d);
            }
        }
        if ((int)basis.size() == t.dim - codim) r.insert(a);
    }
    return r;
}
static Idx entity(const RG& g, int codim, int i) {
    return codim == 1 ? g.getCodim1EntityLocalIndices(i) : codim == 2 ? g.getCodim2EntityLocalIndices(i) : g.getCodim3EntityLocalIndices(i);
}
static int entities(const RG& g, int codim) {
    return codim == 1 ? g.getNumberOfCodim1Entities() : codim == 2 ? g.getNumberOfCodim2Entities() : g.getNumberOfCodim3Entities();
}
template <std::size_t D>
void checkNormal(const RG& g, int s, int f) {
    const Geometry::BoundaryFaceMapping* m = g.getCodim1MappingPtr(f);
    const RG* fg = g.getCodim1ReferenceGeometry(f);
    int fs = shapeOf(fg);
    for (const V& x : lattice(fs, 2)) {
        auto n = m->calcJacobian(point<D - 1>(x)).computeWedgeStuffVector();
        V y = apply<1>(m, x);
        // outward: moving along the normal leaves the shape, moving against it (from an interior facet point) stays
        V fc(shape(fs).dim, 0.0);
        for (auto& v : shape(fs).vert)
            for (int k = 0; k < shape(fs).dim; ++k) fc[k] += v[k] / shape(fs).vert.size();
        V c = apply<1>(m, fc), out = c, in = c;
        double len = 0;
        for (std::size_t k = 0; k < D; ++k) len += n[k] * n[k];
        for (std::size_t k = 0; k < D; ++k) {
            double e = 0.01 * m->outwardNormalSign() * n[k] / std::sqrt(len);
            out[k] += e;
            in[k] -= e;
        }
        mc::require(minSlack(s, out) < -1e-9 && minSlack(s, in) > 1e-9, shape(s).name, " face ", f, ": the reported sign does not make the normal point outwards");
        auto j = jac<1>(m, x);
        for (auto& t : j) {
            double dot = 0;
            for (std::size_t k = 0; k < D; ++k) dot += t[k] * n[k];
            mc::require(std::abs(dot) < 1e-12, shape(s).name, " face ", f, ": normal is not orthogonal to the face");
        }
        // its length is the area factor: square root of the Gram determinant
        double gram = 1;
        if (j.size() == 1) {
            gram = 0;
            for (double v : j[0]) gram += v * v;
        } else if (j.size() == 2) {
            double a = 0, b = 0, d = 0;
            for (std::size_t k = 0; k < D; ++k) a += j[0][k] * j[0][k], b += j[0][k] * j[1][k], d += j[1][k] * j[1][k];
            gram = a * d - b * b;
        } else if (j.size() == 3) {
            double G[3][3];
            for (int a = 0; a < 3; ++a)
                for (int b = 0; b < 3; ++b) {
                    G[a][b] = 0;
                    for (std::size_t k = 0; k < D; ++k) G[a][b] += j[a][k] * j[b][k];
                }
            gram = G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0]) + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]);
        }
        mc::require(std::abs(len - gram) < 1e-12, shape(s).name, " face ", f, ": normal has length^2 ", len, " instead of ", gram);
        mc::step();
    }
}
static void topology() {
    int s = mc::choose(NSHAPES, "shape");
    const Shape& t = shape(s);
    mc::note(t.name);
    RG& g = ref(s);
    // order 1: the linear shape, higher: curvilinear variants
    int order = 1 + mc::choose(s == LINE || s == TRI || s == TET ? mc::tier(4, 6) : 1, "order");
    RG* cg = &g;
    if (order > 1)
        cg = s == LINE ? (RG*)&Geometry::ReferenceCurvilinearLine::getReferenceLagrangeLine(order)
             : s == TRI ? (RG*)&Geometry::ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(order)
                        : (RG*)&Geometry::ReferenceCurvilinearTetrahedron::getReferenceCurvilinearTetrahedron(order);
    int part = mc::choose(3, "part");
    std::vector<V> nodes;
    for (std::size_t i = 0; i < cg->getNumberOfNodes(); ++i) nodes.push_back(coordsOf(cg->getReferenceNodeCoordinate(i), t.dim));
    // where the topological vertices are among the nodes
    std::vector<int> vertexAt(t.vert.size(), -1);
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        long long k = cg->getTopologicalLocalIndex(i);
        if (k >= 0) {
            mc::require(k < (long long)t.vert.size() && vertexAt[k] < 0, t.name, ": two nodes claim to be vertex ", k);
            vertexAt[k] = i;
        }
    }
    for (std::size_t k = 0; k < t.vert.size(); ++k)
        mc::require(vertexAt[k] >= 0 && closeV(nodes[vertexAt[k]], t.vert[k]), t.name, " order ", order, ": vertex ", k, " is not at ", str(t.vert[k]));
    if (part == 0) {
        mc::require(g.getNumberOfNodes() == t.vert.size(), t.name, ": number of nodes");
        mc::require(cg->getGeometryType() == t.type && (int)cg->getDimension() == t.dim, t.name, ": type or dimension");
        mc::require(mc::close(cg->measure(), monomialIntegral(s, std::vector<int>(t.dim, 0)), 1e-13), t.name, ": measure ", cg->measure());
        V c = coordsOf(cg->getCenter(), t.dim);
        for (int d = 0; d < t.dim; ++d) {
            std::vector<int> a(t.dim, 0);
            double vol = monomialIntegral(s, a);
            a[d] = 1;
            mc::require(std::abs(c[d] - monomialIntegral(s, a) / vol) < 1e-12, t.name, ": centre ", str(c), " is not the barycentre");
        }
        // nodes of the curvilinear variants: the complete lattice, each point once
        auto want = s == PYR ? nodes : lattice(s, order);
        mc::require(want.size() == nodes.size() || s == POINT, t.name, " order ", order, " has ", nodes.size(), " nodes");
        for (auto& w : want) {
            int hit = 0;
            for (auto& n : nodes) hit += closeV(n, w);
            mc::require(hit == 1 || s == POINT, t.name, " order ", order, ": lattice point ", str(w), " occurs ", hit, " times");
        }
        // inside test on a grid that straddles the boundary
        V x(t.dim);
        std::function<void(int)> rec = [&](int d) {
            if (d == t.dim) {
                if (t.dim == 0) return;
                double sl = minSlack(s, x);
                bool in = internal(*cg, x);
                mc::require(in == (sl >= 0), t.name, ": point ", str(x), " reported as ", in ? "inside" : "outside");
                mc::step();
                return;
            }
            int n = t.dim == 4 ? 2 : 6;
            for (int k = -n; k <= n; ++k) {
                x[d] = (k + (k >= 0 ? 0 : 0)) * (1.5 / n);
                rec(d + 1);
            }
            for (double e : {1.0, -1.0, 0.0009765625, -0.0009765625, 1.0009765625, -1.0009765625, 0.9990234375, -0.9990234375}) {
                x[d] = e;
                rec(d + 1);
            }
        };
        if (t.dim < 4)
            rec(0);
        else {
            for (int d = 0; d < 4; ++d)
                for (double e : {1.0, -1.0, 1.0009765625, -1.0009765625, 0.9990234375, 0.5, -2.0})
                    for (int k = 0; k < 16; ++k) {
                        V y(4);
                        for (int i = 0; i < 4; ++i) y[i] = i == d ? e : (k >> i & 1 ? 1 : -0.5);
                        mc::require(internal(*cg, y) == (minSlack(s, y) >= 0), t.name, ": point ", str(y), " misjudged");
                        mc::step();
                    }
        }
        if (t.dim > 0) {
            RG& fg = Geometry::ReferenceGeometryFactory::Instance().getGeometry(t.dim, nodes.size());
            mc::require(&fg == cg, "the factory returns ", fg.getName(), " for ", t.dim, "D and ", nodes.size(), " nodes");
        }
    } else {
        int codim = part;  // 1, 2 (+3 with 2)
        for (int c = codim; c <= (codim == 2 ? 3 : 1); ++c) {
            if (c > t.dim) continue;
            if (s == HYPER && c > 1) continue;  // documented as not implemented
            auto want = polytopeFaces(s, c);
            mc::require(entities(*cg, c) == (int)want.size(), t.name, ": ", entities(*cg, c), " entities of codimension ", c, " instead of ", want.size());
            std::set<std::set<int>> got;
            for (int i = 0; i < entities(*cg, c); ++i) {
                Idx li = entity(*cg, c, i);
                std::set<int> verts;
                for (std::size_t n : li) {
                    mc::require(n < nodes.size(), t.name, ": entity ", i, " of codimension ", c, " lists node ", n);
                    long long k = cg->getTopologicalLocalIndex(n);
                    if (k >= 0) verts.insert(k);
                }
                mc::require(std::set<std::size_t>(li.begin(), li.end()).size() == li.size(), t.name, ": repeated node on entity ", i);
                mc::require(want.count(verts), t.name, ": entity ", i, " of codimension ", c, " is not one");
                mc::require(got.insert(verts).second, t.name, ": entity ", i, " of codimension ", c, " occurs twice");
                mc::step();
                if (c == t.dim) {
                    mc::require(*verts.begin() == i, t.name, ": node entity ", i, " is vertex ", *verts.begin());
                    continue;
                }
                const RG* eg = c == 1 ? cg->getCodim1ReferenceGeometry(i) : c == 2 ? cg->getCodim2ReferenceGeometry(i) : nullptr;
                if (!eg) continue;
                int es = shapeOf(eg);
                mc::require(shape(es).dim == t.dim - c && shape(es).vert.size() == verts.size() && eg->getNumberOfNodes() == li.size(), t.name, ": entity ", i, " of codimension ", c,
                            " has reference shape ", eg->getName());
                // node k of the sub-shape sits at the listed node of the shape
                std::vector<V> target(shape(es).vert.size());
                std::vector<V> full;
                for (std::size_t k = 0; k < li.size(); ++k) {
                    long long v = eg->getTopologicalLocalIndex(k);
                    if (v >= 0) target[v] = nodes[li[k]];
                    full.push_back(nodes[li[k]]);
                }
                if (c == 1) {
                    auto* m = cg->getCodim1MappingPtr(i);
                    checkAffine<1>(m, es, target, mc::str(t.name, " face ", i));
                    mc::require((int)m->getTargetDimension() == t.dim, t.name, " face ", i, ": target dimension");
                    for (std::size_t k = 0; k < li.size(); ++k) {
                        V x = coordsOf(eg->getReferenceNodeCoordinate(k), t.dim - 1);
                        mc::require(closeV(apply<1>(m, x), full[k]), t.name, " order ", order, " face ", i, ": node ", k, " is sent to ", str(apply<1>(m, x)));
                        mc::require(cg->getLocalNodeIndexFromFaceAndIndexOnFace(i, k) == li[k], "node lookup through a face");
                    }
                    switch (t.dim) {
                        case 2: checkNormal<2>(*cg, s, i); break;
                        case 3: checkNormal<3>(*cg, s, i); break;
                        case 4: checkNormal<4>(*cg, s, i); break;
                        case 1: {
                            V y = apply<1>(m, V());
                            mc::require(m->outwardNormalSign() * cg->getCodim1MappingPtr(i)->calcJacobian(point<0>(V())).computeWedgeStuffVector()[0] * y[0] > 0, "line endpoint ", i, ": normal points inwards");
                        }
                    }
                }
                if (c == 2 && s == TET) checkAffine<2>(cg->getCodim2MappingPtr(i), es, target, mc::str(t.name, " edge ", i));
            }
        }
    }
    mc::state(mc::str(s, order, part));
}
static std::vector<std::vector<int>> symmetries(int s) {  // vertex permutations that are affine symmetries
    const Shape& t = shape(s);
    std::vector<int> p(t.vert.size());
    std::vector<std::vector<int>> r;
    if (s == CUBE) {
        std::vector<int> ax{0, 1, 2};
        do
            for (int flip = 0; flip < 8; ++flip) {
                for (int i = 0; i < 8; ++i) {
                    int j = 0;
                    for (int d = 0; d < 3; ++d)
                        if ((i >> ax[d] & 1) ^ (flip >> d & 1)) j |= 1 << d;
                    p[i] = j;
                }
                r.push_back(p);
            }
        while (std::next_permutation(ax.begin(), ax.end()));
        return r;
    }
    for (std::size_t i = 0; i < p.size(); ++i) p[i] = i;
    do {
        bool ok = true;
        if (s == SQUARE)  // diagonals stay diagonals
            ok = (p[0] ^ p[3]) == 3;
        if (ok) r.push_back(p);
    } while (std::next_permutation(p.begin(), p.end()));
    return r;
}
static void orientation() {
    static const std::vector<int> shapes = {POINT, LINE, TRI, SQUARE, CUBE};
    int s = mc::pick(shapes, "shape");
    const Shape& t = shape(s);
    auto sym = symmetries(s);
    const auto& p = mc::pick(sym, "symmetry");
    int order = 1 + mc::choose(s == LINE || s == TRI ? 3 : 1, "order");
    RG* g = order == 1 ? &ref(s)
            : s == LINE ? (RG*)&Geometry::ReferenceCurvilinearLine::getReferenceLagrangeLine(order)
                        : (RG*)&Geometry::ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(order);
    int aspect = mc::choose(2, "aspect");
    mc::note(mc::str(g->getName(), " symmetry ", mc::S().choice[2]));
    // labels: every arrangement of distinct numbers on the first configuration
    std::vector<std::size_t> label;
    static const std::size_t pool[] = {11, 2, 30, 4, 25, 0, 17, 8};
    for (std::size_t i = 0; i < t.vert.size(); ++i) label.push_back(pool[i]);
    std::sort(label.begin(), label.end());
    int arrangements = s == CUBE ? 1 : (int)std::round((double)fact(t.vert.size()));
    for (int a = 0; a < arrangements; ++a) {
        // second configuration: reference vertex p[i] carries the label of reference vertex i of the first
        std::vector<std::size_t> v1(g->getNumberOfNodes()), v2(g->getNumberOfNodes());
        for (std::size_t i = 0; i < v1.size(); ++i) v1[i] = 100 + i, v2[i] = 200 + i;  // higher order nodes must not matter
        std::vector<int> at(t.vert.size());
        for (std::size_t i = 0; i < v1.size(); ++i) {
            long long k = g->getTopologicalLocalIndex(i);
            if (k >= 0) at[k] = i;
        }
        for (std::size_t i = 0; i < label.size(); ++i) v1[at[i]] = label[i];
        for (std::size_t i = 0; i < label.size(); ++i) v2[at[p[i]]] = label[i];
        std::size_t idx;
        try {
            idx = g->getCodim0MappingIndex(v1, v2);
        } catch (mc::Fatal&) {
            if (s == CUBE) return;  // only the symmetries that keep the third axis are offered
            throw;
        }
        const Geometry::MappingReferenceToReference<0>* m = g->getCodim0MappingPtr(idx);
        mc::require(m == g->getCodim0MappingPtr(v1, v2), "the two lookups of an orientation map disagree");
        std::vector<V> target;
        for (std::size_t i = 0; i < t.vert.size(); ++i) target.push_back(t.vert[p[i]]);
        // which vertex permutation the returned map performs
        std::vector<int> q(t.vert.size(), -1);
        for (std::size_t i = 0; i < t.vert.size(); ++i)
            for (std::size_t j = 0; j < t.vert.size(); ++j)
                if (closeV(apply<0>(m, t.vert[i]), t.vert[j])) q[i] = j;
        std::string want, got;
        for (std::size_t i = 0; i < t.vert.size(); ++i) want += std::to_string(p[i]), got += std::to_string(q[i]);
        if (s == CUBE) {
            bool keeps = true;  // the offered ones
            for (int i = 0; i < 8; ++i) keeps = keeps && (p[i] >> 2) == (i >> 2) && (p[i] & 3) == (p[i & 3] & 3);
            if (!keeps) return;
        }
        if (aspect == 0) {
            if (want != got) mc::setKey(mc::str(t.name, "-orientation ", want, " answered by ", got));  // see known_findings.jsonl
            checkAffine<0>(m, s, target, mc::str(t.name, " orientation ", idx));
        } else {
            std::vector<V> image;
            for (std::size_t i = 0; i < t.vert.size(); ++i) {
                mc::require(q[i] >= 0, t.name, " orientation ", idx, " does not send vertices to vertices");
                image.push_back(t.vert[q[i]]);
            }
            checkAffine<0>(m, s, image, mc::str(t.name, " orientation ", idx));
            // the same map followed by every face embedding (what the right side of a face uses)
            if (a == 0 && t.dim < 3 && order == 1)
                for (int e = 0; e < NSHAPES; ++e) {
                    if (shape(e).dim != t.dim + 1) continue;
                    for (std::size_t f = 0; f < ref(e).getNumberOfCodim1Entities(); ++f) {
                        if (shapeOf(ref(e).getCodim1ReferenceGeometry(f)) != s) continue;
                        Geometry::ConcatenatedMapping cm(*m, *ref(e).getCodim1MappingPtr(f));
                        Idx li = ref(e).getCodim1EntityLocalIndices(f);
                        std::vector<V> tt;
                        for (std::size_t i = 0; i < t.vert.size(); ++i) tt.push_back(shape(e).vert[li[q[i]]]);
                        checkAffine<1>(&cm, s, tt, mc::str(t.name, " orientation ", idx, " on face ", f, " of the ", shape(e).name));
                    }
                }
        }
        mc::state(mc::str(s, order, idx));
        std::next_permutation(label.begin(), label.end());
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 3;
    return mc::run([&] {
        if (mc::choose(2, "part") == 0)
            topology();
        else
            orientation();
    });
}
