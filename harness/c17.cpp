// C17: reference-to-physical maps interpolate the nodes with exact Jacobians, inverses and updates.
#include "shapes.h"
#include "catalog.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/Jacobian.h"
#include "Geometry/Mappings/MappingReferenceToPhysical.h"
#include "Base/MeshManipulator.h"
#include "Base/MeshMoverBase.h"
#include "Base/CommandLineOptions.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
using namespace hpgem;
using sh::V;

struct Dual {  // value and gradient
    double v;
    std::array<double, 4> d;
    Dual(double x = 0) : v(x), d{{0, 0, 0, 0}} {}
};
static Dual operator+(Dual a, const Dual& b) {
    a.v += b.v;
    for (int i = 0; i < 4; ++i) a.d[i] += b.d[i];
    return a;
}
static Dual operator*(const Dual& a, const Dual& b) {
    Dual r(a.v * b.v);
    for (int i = 0; i < 4; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i];
    return r;
}
static Dual operator-(const Dual& a, const Dual& b) { return a + Dual(-1) * b; }
static Dual operator/(const Dual& a, const Dual& b) {
    Dual r(a.v / b.v);
    for (int i = 0; i < 4; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v;
    return r;
}
struct Kind {
    const char* name;
    int shape;
    bool quadratic;
    std::vector<V> nodes;  // reference positions, in hpGEM's order
    bool affineOnly;
};
static Kind kind(int k) {
    using namespace sh;
    static const int ids[] = {LINE, TRI, SQUARE, TET, PYR, PRISM, CUBE, HYPER, TRI, TET};
    Kind r{shape(ids[k]).name, ids[k], k >= 8, shape(ids[k]).vert, k == 7};
    if (k == 8) {
        r.name = "quadratic triangle";
        r.nodes = {{0, 0}, {.5, 0}, {1, 0}, {0, .5}, {.5, .5}, {0, 1}};
    }
    if (k == 9) {
        r.name = "quadratic tetrahedron";
        r.nodes = {{0, 0, 0}, {.5, 0, 0}, {1, 0, 0}, {0, .5, 0}, {.5, .5, 0}, {0, 1, 0}, {0, 0, .5}, {.5, 0, .5}, {0, .5, .5}, {0, 0, 1}};
    }
    return r;
}
enum { NKINDS = 10 };
// the nodal interpolation weights, from their defining property
static std::vector<Dual> weights(const Kind& k, const V& x) {
    int d = x.size();
    std::vector<Dual> X(d);
    for (int i = 0; i < d; ++i) {
        X[i] = Dual(x[i]);
        X[i].d[i] = 1;
    }
    std::vector<Dual> w;
    if (k.quadratic || k.shape == sh::TRI || k.shape == sh::TET) {
        std::vector<Dual> l(d + 1, Dual(1));
        for (int i = 0; i < d; ++i) l[0] = l[0] - X[i], l[i + 1] = X[i];
        for (auto& n : k.nodes) {
            V nl(d + 1, 1);
            for (int i = 0; i < d; ++i) nl[0] -= n[i], nl[i + 1] = n[i];
            if (!k.quadratic) {
                Dual v(0);
                for (int i = 0; i <= d; ++i)
                    if (nl[i] == 1) v = l[i];
                w.push_back(v);
            } else {
                Dual v(1);
                std::vector<int> half;
                for (int i = 0; i <= d; ++i) {
                    if (nl[i] == 1) v = l[i] * (Dual(2) * l[i] - Dual(1));
                    if (nl[i] == .5) half.push_back(i);
                }
                if (half.size() == 2) v = Dual(4) * l[half[0]] * l[half[1]];
                w.push_back(v);
            }
        }
    } else if (k.shape == sh::PYR) {
        Dual t = Dual(1) - X[2];
        w.push_back(X[2]);
        for (int i = 1; i < 5; ++i) w.push_back((t + Dual(k.nodes[i][0]) * X[0]) * (t + Dual(k.nodes[i][1]) * X[1]) / (Dual(4) * t));
    } else if (k.shape == sh::PRISM) {
        Dual l[3] = {Dual(1) - X[0] - X[1], X[0], X[1]};
        for (int i = 0; i < 6; ++i) w.push_back(l[i % 3] * (Dual(1) + Dual(k.nodes[i][2]) * X[2]) * Dual(.5));
    } else
        for (auto& n : k.nodes) {
            Dual v(1);
            for (int i = 0; i < d; ++i) v = v * (Dual(1) + Dual(n[i]) * X[i]) * Dual(.5);
            w.push_back(v);
        }
    return w;
}
// non-degenerate affine images, also orientation reversing and away from the origin
static V affine(int a, const V& x) {
    static const double M[4][4][4] = {
        {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}},
        {{.5, .125, -.25, 0}, {.25, -2, .5, .25}, {0, .375, 1.5, 0}, {.125, 0, 0, 1}},
        {{0, 3, 0, 0}, {1, 0, 0, .5}, {0, 0, .0625, 0}, {0, 0, 0, -1}},
        {{-.01, 0, 0, 0}, {0, -.01, .0025, 0}, {0, 0, -.01, 0}, {0, .0025, 0, .02}}};
    static const double t[4] = {0, -3, 7.5, 100};
    V r(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) {
        r[i] = t[a] + i;
        for (std::size_t j = 0; j < x.size(); ++j) r[i] += (x.size() == 1 && a == 2 ? 3 : M[a][i][j]) * x[j];
    }
    return r;
}
static const double scales[4] = {1, .5, .0625, .01};

template <std::size_t D>
struct Runner {
    typedef std::vector<Geometry::PointPhysical<D>> Nodes;
    static Geometry::PointPhysical<D> pp(const V& x) {
        Geometry::PointPhysical<D> p;
        for (std::size_t i = 0; i < D; ++i) p[i] = x[i];
        return p;
    }
    static std::vector<V> base(const Kind& k, int a) {
        std::vector<V> r;
        for (auto& n : k.nodes) r.push_back(affine(a, n));
        return r;
    }
    static void perturb(const Kind& k, std::vector<V>& pos, int a, std::size_t node, int code, double factor = 1) {
        V dx(D, 0.0);  // reference displacement, then mapped by the linear part: the element stays convex enough to be valid
        for (std::size_t i = 0; i < D; ++i) dx[i] = (code % 3 - 1) * (k.quadratic ? .03 : k.shape == sh::LINE || k.shape == sh::SQUARE || k.shape == sh::CUBE ? .25 : .09) * factor, code /= 3;
        V z(D, 0.0), o = affine(a, z), y = affine(a, dx);
        for (std::size_t i = 0; i < D; ++i) pos[node][i] += y[i] - o[i];
    }
    // everything the map promises, for the node positions pos
    static void verify(const Geometry::ElementGeometry& e, const Kind& k, const std::vector<V>& pos, int a, const std::string& when, bool inverse, bool far = false) {
        double big = 1;
        for (auto& p : pos)
            for (double c : p) big = std::max(big, std::abs(c));
        const double tol = 1e-13 * big;
        for (std::size_t i = 0; i < k.nodes.size(); ++i) {
            V y = sh::coords<D>(e.template referenceToPhysical<D>(sh::point<D>(k.nodes[i])));
            mc::require(sh::closeV(y, pos[i], tol), k.name, when, ": node ", i, " at ", sh::str(pos[i]), " is the image of ", sh::str(y));
            mc::require(sh::closeV(sh::coords<D>(Geometry::PointPhysical<D>(e.getPhysicalGeometry()->getLocalNodeCoordinates(i))), pos[i], tol), k.name, when, ": stored coordinate of node ", i);
            mc::step();
        }
        for (const V& x : sh::lattice(k.shape, D == 4 ? 2 : D == 3 ? mc::tier(3, 4) : 5)) {
            bool tip = k.shape == sh::PYR && x[2] > 1 - 1e-9;
            if (tip) continue;  // the tip is a node; the map is not differentiable there
            auto w = weights(k, x);
            V want(D, 0.0);
            std::vector<V> J(D, V(D, 0.0));
            for (std::size_t n = 0; n < pos.size(); ++n)
                for (std::size_t i = 0; i < D; ++i) {
                    want[i] += w[n].v * pos[n][i];
                    for (std::size_t j = 0; j < D; ++j) J[i][j] += w[n].d[j] * pos[n][i];
                }
            V y = sh::coords<D>(e.template referenceToPhysical<D>(sh::point<D>(x)));
            mc::require(sh::closeV(y, want, tol), k.name, when, ": reference point ", sh::str(x), " is sent to ", sh::str(y), " instead of ", sh::str(want));
            auto jac = e.template calcJacobian<D>(sh::point<D>(x));
            for (std::size_t i = 0; i < D; ++i)
                for (std::size_t j = 0; j < D; ++j) mc::require(std::abs(jac(i, j) - J[i][j]) < 10 * tol, k.name, when, " at ", sh::str(x), ": d x", i, "/d xi", j, " is ", J[i][j], " but the Jacobian says ", jac(i, j));
            if (inverse) {
                V back = sh::coords<D>(e.template physicalToReference<D>(pp(y)));
                // outside of the element a strongly distorted map can take the same value again: any such point is an answer
                if (far && !sh::closeV(back, x, 1e-8)) {
                    V again = sh::coords<D>(e.template referenceToPhysical<D>(sh::point<D>(back)));
                    mc::require(sh::closeV(again, y, 1e-9 * big), k.name, when, ": ", sh::str(y), " is mapped back to ", sh::str(back), " which is the reference point of ", sh::str(again));
                    mc::count("other preimages");
                } else
                    mc::require(sh::closeV(back, x, 1e-8), k.name, when, ": reference point ", sh::str(x), " comes back as ", sh::str(back));
            }
            mc::step();
        }
    }
    static void single(const Kind& k) {
        int a = mc::choose(4, "affine");
        std::vector<V> pos = base(k, a);
        if (!k.affineOnly) {
            int codes = std::pow(3, D) + .5;
            // up to two nodes displaced in every direction (small elements: all of them)
            bool all = D == 1 || (k.shape == sh::TRI && !k.quadratic);
            if (all)
                for (std::size_t n = 0; n < k.nodes.size(); ++n) perturb(k, pos, a, n, mc::choose(codes));
            else {
                std::size_t n = mc::choose(k.nodes.size(), "node");
                perturb(k, pos, a, n, mc::choose(codes, "displacement"));
                if (D < 3 || mc::S().thorough || mc::choose(2, "second")) {
                    if (n + 1 < k.nodes.size()) {
                        std::size_t n2 = n + 1 + mc::choose(k.nodes.size() - n - 1, "node2");
                        static const int few3[] = {0, 26, 1, 9, 23}, few2[] = {0, 8, 1, 3, 7};
                        perturb(k, pos, a, n2, D < 3 ? (mc::S().thorough ? mc::choose(codes) : few2[mc::choose(5)]) : few3[mc::choose(mc::tier(2, 5))]);
                    }
                }
            }
        }
        verifyNodes(k, pos, a, mc::choose(2, "container order"));
    }
    static double det(std::vector<V> m) {
        double r = 1;
        for (std::size_t i = 0; i < D; ++i) {
            std::size_t p = i;
            for (std::size_t j = i; j < D; ++j)
                if (std::abs(m[j][i]) > std::abs(m[p][i])) p = j;
            if (m[p][i] == 0) return 0;
            if (p != i) std::swap(m[p], m[i]), r = -r;
            r *= m[i][i];
            for (std::size_t j = i + 1; j < D; ++j)
                for (std::size_t c = D; c-- > i;) m[j][c] -= m[i][c] * m[j][i] / m[i][i];
        }
        return r;
    }
    // strongly distorted elements that are still valid: one node moved far in any direction
    static void distorted(const Kind& k) {
        if (k.affineOnly || k.shape == sh::LINE) throw mc::Prune();
        int a = mc::choose(2, "affine");
        std::vector<V> pos = base(k, a);
        std::size_t n = mc::choose(k.nodes.size(), "node");
        int codes = std::pow(3, D) + .5;
        int c = mc::choose(codes, "displacement");
        static const double factors[] = {2, 4, 8, 16, 24};
        perturb(k, pos, a, n, c, factors[mc::choose(5, "far")]);
        double lo = 1e300, hi = 0;
        int sign = 0;
        for (const V& x : sh::lattice(k.shape, 8)) {
            if (k.shape == sh::PYR && x[2] > 1 - 1e-9) continue;
            auto w = weights(k, x);
            std::vector<V> J(D, V(D, 0.0));
            for (std::size_t n = 0; n < pos.size(); ++n)
                for (std::size_t i = 0; i < D; ++i)
                    for (std::size_t j = 0; j < D; ++j) J[i][j] += w[n].d[j] * pos[n][i];
            double d = det(J);
            if (sign == 0) sign = d > 0 ? 1 : -1;
            lo = std::min(lo, d * sign);
            hi = std::max(hi, d * sign);
        }
        if (lo < .05 * hi) throw mc::Prune();  // not, or hardly, a valid element
        mc::count("distorted elements");
        verifyNodes(k, pos, a, 0, true);
    }
    static void verifyNodes(const Kind& k, const std::vector<V>& pos, int a, int order, bool far = false) {
        // node numbering in the container is a permutation with unused entries
        Nodes nodes;
        std::vector<std::size_t> idx(pos.size());
        nodes.push_back(pp(V(D, 99.0)));
        for (std::size_t i = 0; i < pos.size(); ++i) {
            std::size_t j = order ? pos.size() - 1 - i : i;
            idx[j] = nodes.size();
            nodes.push_back(pp(pos[j]));
        }
        Geometry::ElementGeometry e(idx, nodes);
        mc::state(mc::joinChoices());
        verify(e, k, pos, a, "", true, far);
    }
    // histories of moving nodes, reinit and copying
    static void history(const Kind& k) {
        int a = mc::choose(2, "affine");
        std::vector<V> pos = base(k, a);
        Nodes nodes;
        std::vector<std::size_t> idx;
        for (std::size_t i = 0; i < pos.size(); ++i) {
            idx.push_back(i);
            nodes.push_back(pp(pos[i]));
        }
        Geometry::ElementGeometry e(idx, nodes);
        std::unique_ptr<Geometry::ElementGeometry> copy;
        int depth = mc::tier(3, 4);
        for (int step = 0; step < depth; ++step) {
            int op = mc::choose(5, "op");
            if (op == 0) continue;
            if (op == 1 && !k.affineOnly)
                perturb(k, pos, a, step % pos.size(), mc::S().thorough ? 3 : 5);
            else if (op == 2 && !k.affineOnly)
                perturb(k, pos, a, pos.size() - 1, 0);
            else if (op == 3) {
                a = (a + 1) % 4;
                pos = base(k, a);
            } else if (op == 4) {
                copy.reset(new Geometry::ElementGeometry(e));
                mc::note("copy");
            }
            for (std::size_t i = 0; i < pos.size(); ++i) nodes[i] = pp(pos[i]);
            e.getReferenceToPhysicalMap()->reinit();
            if (copy) copy->getReferenceToPhysicalMap()->reinit();
            verify(e, k, pos, a, mc::str(" after step ", step), false);
            Geometry::ElementGeometry fresh(idx, nodes);
            verify(fresh, k, pos, a, " constructed anew", false);
            if (copy) verify(*copy, k, pos, a, mc::str(" copied, step ", step), false);
        }
    }
    struct Mover : Base::MeshMoverBase<D> {
        int a;
        void movePoint(Geometry::PointPhysical<D>& p) const override { p = pp(affine(a, sh::coords<D>(p))); }
    };
    // the same on a mesh: moving it, and finding the element that contains a point
    static void onMesh(const mg::Mesh& m) {
        int moves = mc::choose(3, "moves");
        std::string fn = mc::str("/dev/shm/c17-", getpid(), ".hpgem");
        m.write(fn, std::vector<int>(m.elems.size(), 0), 1, 0, 2);
        Base::ConfigurationData cfg(1, 1);
        Base::MeshManipulator<D> mesh(&cfg);
        mesh.readMesh(fn);
        std::remove(fn.c_str());
        Mover& mover = *new Mover;  // owned by the mesh
        mesh.setMeshMover(&mover);
        std::map<std::size_t, std::vector<V>> pos;
        for (Base::Element* e : mesh.getElementsList())
            for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) pos[e->getID()].push_back(sh::coords<D>(Geometry::PointPhysical<D>(e->getPhysicalGeometry()->getLocalNodeCoordinates(i))));
        for (int s = 0; s < moves; ++s) {
            mover.a = s + 1;
            mesh.move();
            for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) e->getReferenceToPhysicalMap()->reinit();
            for (auto& p : pos)
                for (auto& x : p.second) x = affine(s + 1, x);
        }
        for (Base::Element* e : mesh.getElementsList()) {
            Kind k = kind(0);
            for (int i = 0; i < 8; ++i)
                if (kind(i).nodes.size() == e->getNumberOfNodes() && sh::shape(kind(i).shape).dim == (int)D) k = kind(i);
            verify(*e, k, pos[e->getID()], 0, mc::str(" after ", moves, " moves"), true);
            for (const V& x : sh::lattice(k.shape, D == 3 ? 3 : 4)) {
                if (sh::minSlack(k.shape, x) < 1e-6) continue;
                auto p = e->template referenceToPhysical<D>(sh::point<D>(x));
                auto r = mesh.physicalToReference(p);
                mc::require(std::get<0>(r) == e, "a point inside an element is found in another element");
                mc::require(sh::closeV(sh::coords<D>(std::get<1>(r)), x, 1e-7), "a point inside an element is found at another reference position");
                std::size_t before = mesh.getMeasurePoints().size();
                mesh.addMeasurePoint(p);
                mc::require(mesh.getMeasurePoints().size() == before + 1 && std::get<0>(mesh.getMeasurePoints().back()) == e && sh::closeV(sh::coords<D>(std::get<1>(mesh.getMeasurePoints().back())), x, 1e-7), "a measure point is stored at the wrong place");
                mc::step();
            }
        }
        auto far = pp(V(D, 12345.0));
        std::size_t before = mesh.getMeasurePoints().size();
        mesh.addMeasurePoint(far);
        mc::require(mesh.getMeasurePoints().size() == before, "a point outside the mesh was accepted as measure point");
    }
};
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    std::vector<mg::Mesh> meshes;
    for (auto& m : mg::catalog(mc::S().thorough)) meshes.push_back(m);
    return mc::run([&] {
        int part = mc::choose(4, "part");
        if (part != 2) {
            Kind k = kind(mc::choose(NKINDS, "kind"));
            mc::note(k.name);
            switch (sh::shape(k.shape).dim) {
                case 1: part == 3 ? Runner<1>::distorted(k) : part ? Runner<1>::history(k) : Runner<1>::single(k); break;
                case 2: part == 3 ? Runner<2>::distorted(k) : part ? Runner<2>::history(k) : Runner<2>::single(k); break;
                case 3: part == 3 ? Runner<3>::distorted(k) : part ? Runner<3>::history(k) : Runner<3>::single(k); break;
                default: part == 3 ? Runner<4>::distorted(k) : part ? Runner<4>::history(k) : Runner<4>::single(k);
            }
        } else {
            auto& m = meshes[mc::choose(meshes.size(), "mesh")];
            switch (m.dim) {
                case 1: Runner<1>::onMesh(m); break;
                case 2: Runner<2>::onMesh(m); break;
                default: Runner<3>::onMesh(m);
            }
        }
    });
}
