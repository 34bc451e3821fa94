// C28: the matrices, vectors, fields and fluxes of the two Maxwell discretisations against their weak forms.
#include "pairs.h"
#include "hp.h"
#include "Base/MeshManipulator.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "ProblemTypes/FieldPattern.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include <complex>
#include <memory>
#include <unistd.h>
using namespace hpgem;
typedef std::complex<double> Z;
typedef std::array<double, 3> R3;
typedef std::array<Z, 3> C3;
typedef LinearAlgebra::MiddleSizeMatrix M;
typedef LinearAlgebra::MiddleSizeVector W;
typedef DGMax::BoundaryConditionType BCT;
static R3 cross(const R3& a, const R3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static C3 cross(const R3& a, const C3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double dot(const R3& a, const R3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
template <class A, class B>
Z prod(const A& a, const B& b) {  // no conjugation
    Z r = 0;
    for (int d = 0; d < 3; ++d) r += a[d] * b[d];
    return r;
}
static C3 cj(C3 a) {
    for (auto& x : a) x = std::conj(x);
    return a;
}
static C3 times(const C3& t, const R3& v) { return {{t[0] * v[0], t[1] * v[1], t[2] * v[2]}}; }
static C3 over(const R3& v, const C3& t) { return {{v[0] / t[0], v[1] / t[1], v[2] / t[2]}}; }
static void add(C3& a, Z c, const R3& v) {
    for (int d = 0; d < 3; ++d) a[d] += c * v[d];
}
// ------------------------------------------------------------------------------------------------ materials
template <std::size_t D>
struct TensorInfos : ElementInfos {  // a complex tensor that varies in space
    C3 e, m;
    R3 slope;
    TensorInfos(double eps, double mu, C3 e, C3 m, R3 slope) : ElementInfos(eps, mu), e(e), m(m), slope(slope) {}
    static double at(const PointPhysicalBase& p, const R3& slope) {
        double r = 1;
        const Geometry::PointPhysical<D>& q = p;
        for (std::size_t d = 0; d < D; ++d) r += slope[d] * q[d];
        return r;
    }
    static DGMax::MaterialTensor diag(const C3& t, double f) {
        LinearAlgebra::SmallVectorC<3> v;
        for (int d = 0; d < 3; ++d) v[d] = t[d] * f;
        return DGMax::MaterialTensor(v);
    }
    DGMax::MaterialTensor getMaterialConstantDiv(const PointPhysicalBase& p) const override { return diag(e, at(p, slope)); }
    DGMax::MaterialTensor getMaterialConstantCurl(const PointPhysicalBase& p) const override { return diag(m, 1 / at(p, slope)); }
};
struct Material {
    const char* name;
    int kind;  // 0 scalar, 1 absorbing layer, 2 tensor
    double eps, mu;
};
static const double OMEGA = 1.7;
static const std::vector<Material> materials = {{"glass", 0, 2.25, 1}, {"magnetic", 0, 1.3, 1.6}, {"vacuum", 0, 1, 1}, {"layer", 1, 1.5, 0.8}, {"tensor", 2, 2, 3}};
static const R3 pmlOffset{{0.1, -0.2, 0.15}}, pmlDepth{{1.5, 0.9, 1.1}}, pmlScale{{0.7, 1.2, 0.4}}, slope{{0.21, -0.1, 0.13}};
static const double pmlDir[3] = {1, 0, -1};
static const C3 tensorE{{Z(2, 0.3), Z(1.5, -0.2), Z(2.2, 0.1)}}, tensorM{{Z(1.1, 0.2), Z(0.9, 0.4), Z(1.3, -0.3)}};
template <std::size_t D>
std::unique_ptr<ElementInfos> infos(const Material& m) {
    if (m.kind == 0) return std::unique_ptr<ElementInfos>(new ElementInfos(m.eps, m.mu));
    if (m.kind == 2) return std::unique_ptr<ElementInfos>(new TensorInfos<D>(m.eps, m.mu, tensorE, tensorM, slope));
    LinearAlgebra::SmallVector<D> off, dir, dep, sc;
    for (std::size_t d = 0; d < D; ++d) off[d] = pmlOffset[d], dir[d] = pmlDir[d], dep[d] = pmlDepth[d], sc[d] = pmlScale[d];
    std::unique_ptr<PMLElementInfos<D>> r(new PMLElementInfos<D>(DGMax::Material(m.eps, m.mu), off, dir, dep, sc));
    r->setDispersionWavenumber(OMEGA);
    return std::unique_ptr<ElementInfos>(r.release());
}
struct Constants {
    C3 eps, mu, field, curl;  // field is multiplied with, curl is divided by
};
static Constants constants(const Material& m, const R3& x, int D) {
    Constants r;
    if (m.kind == 0) {
        r.eps.fill(m.eps);
        r.mu.fill(m.mu);
        r.field.fill(1);
        r.curl.fill(1);
    } else if (m.kind == 2) {
        double f = 1;
        for (int d = 0; d < D; ++d) f += slope[d] * x[d];
        for (int d = 0; d < 3; ++d) r.eps[d] = tensorE[d] * f, r.mu[d] = tensorM[d] / f, r.field[d] = 1, r.curl[d] = 1;
    } else {
        C3 s;
        s.fill(1);
        for (int d = 0; d < D; ++d) {
            double xi = (x[d] - pmlOffset[d]) * pmlDir[d];
            if (xi > 0) s[d] += Z(0, 1 / OMEGA) * pmlScale[d] / std::pow(pmlDepth[d], 3) * xi * xi;
        }
        for (int d = 0; d < 3; ++d) {
            Z t = s[(d + 1) % 3] * s[(d + 2) % 3];
            r.eps[d] = m.eps * t / s[d];
            r.mu[d] = m.mu * t / s[d];
            r.field[d] = 1. / s[d];
            r.curl[d] = t;
        }
    }
    return r;
}
// ------------------------------------------------------------------------------------------------ given functions
static C3 given(const R3& x, int which) {
    C3 r;
    for (int d = 0; d < 3; ++d) r[d] = Z(0.3 * (d + 1) + 0.7 * x[0] - 0.2 * d * x[1] + 0.5 * which, 0.4 - 0.1 * d + 0.35 * x[1] + 0.21 * x[2] * which + 0.1 * x[0] * x[d]);
    return r;
}
template <std::size_t D>
LinearAlgebra::SmallVectorC<D> small(const C3& v, bool curl = false) {
    LinearAlgebra::SmallVectorC<D> r;
    if (curl && D == 2)
        r[0] = v[2], r[1] = 0;
    else
        for (std::size_t d = 0; d < D; ++d) r[d] = v[d];
    return r;
}
template <std::size_t D>
R3 three(const Geometry::PointPhysical<D>& p) {
    R3 r{{0, 0, 0}};
    for (std::size_t d = 0; d < D; ++d) r[d] = p[d];
    return r;
}
template <std::size_t D>
C3 planar(C3 v) {  // in two dimensions the field has no third component
    if (D == 2) v[2] = 0;
    return v;
}
template <std::size_t D>
C3 vertical(C3 v) {  // ... and the curl has no other
    if (D == 2) v[0] = v[1] = 0;
    return v;
}
template <std::size_t D>
struct Pattern : DGMax::FieldPattern<D> {
    typedef DGMax::FieldPattern<D> B;
    typename B::VecC field(const typename B::PPhys& p) const override { return small<D>(given(three<D>(p), 5)); }
    typename B::VecC fieldCurl(const typename B::PPhys& p) const override { return small<D>(given(three<D>(p), 6), true); }
    typename B::VecC fieldDoubleCurl(const typename B::PPhys& p, const DGMax::MaterialTensor&) const override { return typename B::VecC(); }
};
// ------------------------------------------------------------------------------------------------ an element by itself
template <std::size_t D>
struct Cell {
    const Base::Element* e;
    std::array<R3, 4> x;      // vertices
    std::array<R3, 3> dual;   // gradients of the reference coordinates
    std::array<R3, 3> edge;
    double det;
    Cell(const Base::Element* e) : e(e) {
        for (std::size_t i = 0; i <= D; ++i) {
            const Geometry::PointPhysical<D>& p = e->getPhysicalGeometry()->getLocalNodeCoordinates(i);
            x[i] = three<D>(p);
        }
        for (std::size_t i = 0; i < D; ++i)
            for (int d = 0; d < 3; ++d) edge[i][d] = x[i + 1][d] - x[0][d];
        if (D == 2) edge[2] = {{0, 0, 1}};
        det = dot(edge[0], cross(edge[1], edge[2]));
        for (int i = 0; i < 3; ++i) {
            dual[i] = cross(edge[(i + 1) % 3], edge[(i + 2) % 3]);
            for (auto& v : dual[i]) v /= det;
        }
    }
    R3 physical(const Geometry::PointReference<D>& p) const {
        R3 r = x[0];
        for (std::size_t i = 0; i < D; ++i)
            for (int d = 0; d < 3; ++d) r[d] += p[i] * edge[i][d];
        return r;
    }
    Geometry::PointReference<D> reference(const R3& y) const {
        Geometry::PointReference<D> r;
        R3 v;
        for (int d = 0; d < 3; ++d) v[d] = y[d] - x[0][d];
        for (std::size_t i = 0; i < D; ++i) r[i] = dot(dual[i], v);
        return r;
    }
    struct At {
        R3 x;
        std::vector<R3> u, curl, grad;
        std::vector<double> p;
    };
    At at(const Geometry::PointReference<D>& q, bool potential) const {
        At r;
        r.x = physical(q);
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(0); ++i) {
            LinearAlgebra::SmallVector<D> v, c;
            e->basisFunction(i, q, v, 0);
            c = e->basisFunctionCurl(i, q, 0);
            R3 u{{0, 0, 0}}, w{{0, 0, 0}};
            for (std::size_t k = 0; k < D; ++k)
                for (int d = 0; d < 3; ++d) u[d] += v[k] * dual[k][d];
            if (D == 2)
                w[2] = c[0] / det;
            else
                for (std::size_t k = 0; k < D; ++k)
                    for (int d = 0; d < 3; ++d) w[d] += c[k] * edge[k][d] / det;
            r.u.push_back(u);
            r.curl.push_back(w);
        }
        if (potential)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(1); ++i) {
                r.p.push_back(e->basisFunction(i, q, 1));
                LinearAlgebra::SmallVector<D> g = e->basisFunctionDeriv(i, q, 1);
                R3 u{{0, 0, 0}};
                for (std::size_t k = 0; k < D; ++k)
                    for (int d = 0; d < 3; ++d) u[d] += g[k] * dual[k][d];
                r.grad.push_back(u);
            }
        return r;
    }
    template <class F>
    void integrate(bool potential, F f) const {
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t i = 0; i < rule->getNumberOfPoints(); ++i) {
            const Geometry::PointReference<D>& q = static_cast<const Geometry::PointReference<D>&>(rule->getPoint(i));
            f(at(q, potential), rule->weight(i) * std::abs(det));
        }
    }
};
// ------------------------------------------------------------------------------------------------ matrices for the expectation
struct Mat {
    std::size_t r, c;
    std::vector<Z> a;
    Mat(std::size_t r = 0, std::size_t c = 0) : r(r), c(c), a(r * c) {}
    Z& operator()(std::size_t i, std::size_t j) { return a[i * c + j]; }
    Z operator()(std::size_t i, std::size_t j) const { return a[i * c + j]; }
};
static Mat mul(const Mat& a, const Mat& b) {
    Mat r(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t k = 0; k < a.c; ++k)
            if (a(i, k) != Z(0))
                for (std::size_t j = 0; j < b.c; ++j) r(i, j) += a(i, k) * b(k, j);
    return r;
}
static Mat herm(const Mat& a) {
    Mat r(a.c, a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) r(j, i) = std::conj(a(i, j));
    return r;
}
static Mat solve(Mat a, Mat b) {  // a^{-1} b
    std::size_t n = a.r;
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k; i < n; ++i)
            if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        if (p != k) {
            for (std::size_t j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
            for (std::size_t j = 0; j < b.c; ++j) std::swap(b(k, j), b(p, j));
        }
        for (std::size_t i = 0; i < n; ++i)
            if (i != k) {
                Z f = a(i, k) / a(k, k);
                if (f == Z(0)) continue;
                for (std::size_t j = k; j < n; ++j) a(i, j) -= f * a(k, j);
                for (std::size_t j = 0; j < b.c; ++j) b(i, j) -= f * b(k, j);
            }
    }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < b.c; ++j) b(i, j) /= a(i, i);
    return b;
}
static Mat lower(const M& m) {
    Mat r(m.getNumberOfRows(), m.getNumberOfColumns());
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j <= i; ++j) r(i, j) = m(i, j);
    return r;
}
static Mat copy(const M& m) {
    Mat r(m.getNumberOfRows(), m.getNumberOfColumns());
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j < r.c; ++j) r(i, j) = m(i, j);
    return r;
}
static void same(const Mat& got, const Mat& want, const std::string& what) {
    mc::require(got.r == want.r && got.c == want.c, what, " is ", got.r, " by ", got.c, ", not ", want.r, " by ", want.c);
    double scale = 1e-3;
    for (auto& z : want.a) scale = std::max(scale, std::abs(z));
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            if (!(std::abs(got(i, j) - want(i, j)) <= 1e-8 * scale)) mc::fail(what, ", entry ", i, ",", j, " is ", got(i, j), ", not ", want(i, j));
    mc::step();
}
static void same(const W& got, const std::vector<Z>& want, const std::string& what) {
    mc::require(got.size() == want.size(), what, " has ", got.size(), " entries, not ", want.size());
    double scale = 1e-3;
    for (auto& z : want) scale = std::max(scale, std::abs(z));
    for (std::size_t i = 0; i < want.size(); ++i)
        if (!(std::abs(got[i] - want[i]) <= 1e-8 * scale)) mc::fail(what, ", entry ", i, " is ", got[i], ", not ", want[i]);
    mc::step();
}
static void same(Z got, Z want, double scale, const std::string& what) {
    if (!(std::abs(got - want) <= 1e-8 * std::max(scale, 1e-3))) mc::fail(what, " is ", got, ", not ", want);
    mc::step();
}
// ------------------------------------------------------------------------------------------------ a face with both sides
template <std::size_t D>
struct Side2 {
    const Base::Face* f;
    std::vector<Cell<D>> cell;
    R3 n;
    double measure, h;
    Side2(const Base::Face* f) : f(f) {
        cell.emplace_back(f->getPtrElementLeft());
        if (f->isInternal()) cell.emplace_back(f->getPtrElementRight());
        auto& c = cell[0];
        auto& loc = mg::table(D == 2 ? mg::TRI : mg::TET).faces[f->localFaceNumberLeft()];
        std::vector<R3> v;
        std::set<int> on(loc.begin(), loc.end());
        for (int k : loc) v.push_back(c.x[k]);
        R3 a, b, away;
        std::size_t opposite = 0;
        while (on.count(opposite)) ++opposite;
        for (int d = 0; d < 3; ++d) {
            a[d] = v[1][d] - v[0][d];
            b[d] = D == 2 ? (d == 2) : v[2][d] - v[0][d];
            away[d] = v[0][d] - c.x[opposite][d];
        }
        n = cross(a, b);
        double s = std::sqrt(dot(n, n));
        measure = D == 2 ? s / 2 : s;  // relative to the reference face
        if (dot(n, away) < 0) s = -s;
        for (auto& w : n) w /= s;
        h = 0;
        for (auto& p : v)
            for (auto& q : v) {
                R3 w;
                for (int d = 0; d < 3; ++d) w[d] = p[d] - q[d];
                h = std::max(h, std::sqrt(dot(w, w)));
            }
    }
    struct At {
        R3 x;
        std::vector<typename Cell<D>::At> s;
    };
    template <class F>
    void integrate(bool potential, F g) const {
        auto* rule = f->getGaussQuadratureRule();
        for (std::size_t i = 0; i < rule->getNumberOfPoints(); ++i) {
            const Geometry::PointReference<D - 1>& q = static_cast<const Geometry::PointReference<D - 1>&>(rule->getPoint(i));
            At a;
            a.s.push_back(cell[0].at(f->mapRefFaceToRefElemL(q), potential));
            a.x = a.s[0].x;
            if (cell.size() == 2) a.s.push_back(cell[1].at(cell[1].reference(a.x), potential));
            g(a, rule->weight(i) * measure);
        }
    }
    double average() const { return cell.size() == 2 ? 0.5 : 1; }
};
// one degree of freedom of a face
struct Dof {
    int side;
    std::size_t i, index;  // number in its unknown and in the element, place in the face matrix
};
struct Layout {
    std::vector<Dof> u, p;
    std::size_t total = 0;
};
static Layout layout(const Base::Face* f, bool potential) {
    Layout r;
    for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
        auto* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(0); ++i) r.u.push_back({s, i, r.total++});
        if (potential)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(1); ++i) r.p.push_back({s, i, r.total++});
    }
    return r;
}
// ------------------------------------------------------------------------------------------------ the setting
template <std::size_t D>
struct World {
    mg::Mesh gen;
    Base::ConfigurationData config;
    Base::MeshManipulator<D> mesh;
    std::vector<std::unique_ptr<ElementInfos>> owned;
    std::map<const Base::Element*, const Material*> material;
    std::map<const Base::Face*, BCT> bct;
    std::vector<Base::Element*> elements;
    std::vector<Base::Face*> faces;
    World(const mg::Mesh& m, std::size_t unknowns, std::size_t em) : gen(m), config(unknowns, 1), mesh(&config, em, 3, 2, 2) {
        std::string fn = mc::str("/tmp/c28-", getpid(), ".hpgem");
        m.write(fn, std::vector<int>(m.elems.size(), 0), 1);
        mesh.readMesh(fn);
        std::remove(fn.c_str());
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) elements.push_back(e);
        for (auto* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) faces.push_back(f);
    }
    void set(const Material& a, const Material& b, int k) {
        int i = 0;
        for (auto* e : elements) {
            const Material& m = i++ % 2 ? b : a;
            owned.push_back(infos<D>(m));
            e->setUserData(owned.back().get());
            material[e] = &m;
        }
        i = k;
        static const BCT all[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER};
        for (auto* f : faces) bct[f] = f->isInternal() ? BCT::INTERNAL : all[i++ % 3];
    }
    void coefficients() {
        int k = 0;
        for (auto* e : elements) {
            W v(e->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < v.size(); ++i) ++k, v[i] = Z(std::sin(1.3 * k), std::cos(2.1 * k));
            e->setNumberOfTimeIntegrationVectors(2);
            W zero(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) zero[i] = Z(100 + i, -50);
            e->setTimeIntegrationVector(0, zero);
            e->setTimeIntegrationVector(1, v);
        }
    }
    Constants at(const Base::Element* e, const R3& x) const { return constants(*material.at(e), x, D); }
    std::string name(const Base::Face* f) const { return mc::str(f->isInternal() ? "internal" : "boundary", " face of type ", int(bct.at(f))); }
};
template <std::size_t D>
typename DGMax::AbstractDiscretization<D>::InputFunction source(int which) {
    return [which](const Base::Element&, const Geometry::PointPhysical<D>& p) { return small<D>(given(three<D>(p), which)); };
}
template <std::size_t D>
typename DGMax::AbstractDiscretization<D>::FaceInputFunction boundary(int which) {
    return [which](Base::PhysicalFace<D>& f) { return small<D>(given(three<D>(f.getPointPhysical()), which), true); };
}
template <std::size_t D>
C3 boundaryAt(const R3& x, int which) {
    return vertical<D>(given(x, which));
}
// what both discretisations have in common
template <std::size_t D>
void fieldsAndFluxes(World<D>& w, DGMax::AbstractDiscretization<D>& d, bool potential, const DGMaxDiscretization<D>* rescaled) {
    w.coefficients();
    std::map<const Base::Element*, std::vector<Z>> c;
    double total = 0;
    bool scalar = true;
    for (auto* e : w.elements) {
        if (w.material[e]->kind) scalar = false;
        Cell<D> cell(e);
        W stored = e->getTimeIntegrationVector(1);
        std::vector<Z> v;
        for (std::size_t i = 0; i < stored.size(); ++i) v.push_back(stored[i]);
        if (rescaled) {  // y = L^H x is stored
            Mat L = lower(e->getElementMatrix(0)), y(v.size(), 1);
            for (std::size_t i = 0; i < v.size(); ++i) y(i, 0) = v[i];
            y = solve(herm(L), y);
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = y(i, 0);
        }
        c[e] = v;
        if (rescaled) continue;
        std::size_t n = e->getNumberOfBasisFunctions(0);
        for (int k = 0; k < 3; ++k) {
            Geometry::PointReference<D> q;
            for (std::size_t i = 0; i < D; ++i) q[i] = 0.11 + 0.13 * ((k + i) % 3);
            auto a = cell.at(q, potential);
            C3 E{}, C{};
            Z p = 0;
            for (std::size_t i = 0; i < n; ++i) add(E, v[i], a.u[i]), add(C, v[i], a.curl[i]);
            if (potential)
                for (std::size_t i = 0; i < a.p.size(); ++i) p += v[n + i] * a.p[i];
            auto t = w.at(e, a.x);
            auto gotE = d.computeField(e, q, stored);
            auto gotC = d.computeCurlField(e, q, stored);
            for (std::size_t i = 0; i < D; ++i) same(gotE[i], E[i] * t.field[i], 1, mc::str("component ", i, " of the field"));
            if (D == 2)
                same(gotC[0], C[2] / t.curl[2], 1, "curl of the field");
            else
                for (std::size_t i = 0; i < D; ++i) same(gotC[i], C[i] / t.curl[i], 1, mc::str("component ", i, " of the curl of the field"));
            if (auto* dd = dynamic_cast<DivDGMaxDiscretization<D>*>(&d)) same(dd->computePotential(e, q, stored), p, 1, "potential");
        }
    }
    // errors
    if (!rescaled) {
        double l2 = 0, hcurl = 0;
        for (auto* e : w.elements) {
            Cell<D> cell(e);
            std::size_t n = e->getNumberOfBasisFunctions(0);
            auto& v = c[e];
            cell.integrate(potential, [&](const typename Cell<D>::At& a, double wgt) {
                C3 E{}, C{}, g = planar<D>(given(a.x, 3)), gc = vertical<D>(given(a.x, 4));
                Z p = 0;
                for (std::size_t i = 0; i < n; ++i) add(E, v[i], a.u[i]), add(C, v[i], a.curl[i]);
                for (std::size_t i = 0; i < a.p.size(); ++i) p += v[n + i] * a.p[i];
                auto t = w.at(e, a.x);
                for (int k = 0; k < 3; ++k) {
                    l2 += wgt * std::norm(g[k] - E[k] * t.field[k]);
                    hcurl += wgt * std::norm(gc[k] - C[k] / t.curl[k]);
                }
                if (potential) l2 += wgt * std::norm(p);
            });
        }
        same(d.computeL2Error(w.mesh, 1, source<D>(3)), std::sqrt(l2), std::sqrt(l2), "L2 error");
        if (auto* dg = dynamic_cast<DGMaxDiscretization<D>*>(&d)) {
            auto curl = [](const Base::Element&, const Geometry::PointPhysical<D>& p) { return small<D>(given(three<D>(p), 4), true); };
            auto r = dg->computeError(w.mesh, 1, source<D>(3), curl, {DGMaxDiscretizationBase::L2, DGMaxDiscretizationBase::HCurl});
            mc::require(r.size() == 2, "computeError returns ", r.size(), " norms");
            same(r[DGMaxDiscretizationBase::L2], std::sqrt(l2), std::sqrt(l2), "L2 norm of the error");
            same(r[DGMaxDiscretizationBase::HCurl], std::sqrt(l2 + hcurl), std::sqrt(l2 + hcurl), "HCurl norm of the error");
        }
    }
    // fluxes and integrals over faces
    Pattern<D> pattern;
    for (auto* f : w.faces) {
        Side2<D> s(f);
        for (int side = 0; side < int(s.cell.size()); ++side) {
            auto bs = side ? Base::Side::RIGHT : Base::Side::LEFT;
            auto* e = f->getPtrElement(bs);
            double want[4] = {0, 0, 0, 0}, l2 = 0, size = 1e-3;
            s.integrate(potential, [&](const typename Side2<D>::At& a, double wgt) {
                C3 E{}, C{}, own{};
                for (std::size_t k = 0; k < s.cell.size(); ++k) {
                    auto& v = c[s.cell[k].e];
                    for (std::size_t i = 0; i < a.s[k].u.size(); ++i) {
                        add(E, s.average() * v[i], a.s[k].u[i]);
                        add(C, s.average() * v[i], a.s[k].curl[i]);
                        if (int(k) == side) add(own, v[i], a.s[k].u[i]);
                    }
                }
                C3 bE = planar<D>(given(a.x, 5)), bC = vertical<D>(given(a.x, 6)), tE, tC;
                for (int k = 0; k < 3; ++k) tE[k] = E[k] + bE[k], tC[k] = C[k] + bC[k];
                auto flux = [&](const C3& x, const C3& y) { return prod(cross(s.n, x), cj(y)).imag() * wgt; };
                want[0] += flux(E, C);
                want[1] += flux(bE, bC);
                want[2] += flux(bE, C) + flux(E, bC);
                want[3] += flux(tE, tC);
                size += std::abs(flux(tE, tC));
                auto t = w.at(e, a.x);
                for (int k = 0; k < 3; ++k) l2 += wgt * std::norm(own[k] * t.field[k]);
            });
            if (!rescaled) same(d.computeFieldL2Integral(*f, bs, 1), l2, l2, mc::str("integral of the squared field over the ", side ? "right" : "left", " side of an ", w.name(f)));
            if (!scalar) continue;
            double wave = 2.3, sign = side ? -1 : 1;
            for (bool background : {false, true}) {
                auto got = d.computeEnergyFluxes(*f, bs, wave, 1, background ? &pattern : nullptr);
                for (int k = 0; k < (background ? 4 : 1); ++k)
                    same(got[k], sign * want[k] / (wave * w.material[e]->mu), size, mc::str("energy flux ", k, " to the ", side ? "left" : "right", " through an ", w.name(f)));
            }
        }
    }
}
template <std::size_t D>
std::vector<Z> elementVector(World<D>& w, Base::Element* e, int which, bool potential) {
    Cell<D> cell(e);
    std::size_t n = e->getNumberOfBasisFunctions(0);
    std::vector<Z> r(n + (potential ? e->getNumberOfBasisFunctions(1) : 0));
    cell.integrate(false, [&](const typename Cell<D>::At& a, double wgt) {
        C3 g = planar<D>(given(a.x, which));
        for (std::size_t i = 0; i < n; ++i) r[i] += wgt * prod(g, a.u[i]);
    });
    return r;
}
// the element matrices: the mass matrix and the curl-curl matrix of the field
template <std::size_t D>
void elementFieldMatrices(World<D>& w, Base::Element* e, Mat& mass, Mat& stiff) {
    Cell<D> cell(e);
    std::size_t n = e->getNumberOfBasisFunctions(0);
    cell.integrate(false, [&](const typename Cell<D>::At& a, double wgt) {
        auto t = w.at(e, a.x);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                mass(i, j) += wgt * prod(times(t.eps, a.u[j]), a.u[i]);
                stiff(i, j) += wgt * prod(over(a.curl[j], t.mu), a.curl[i]);
            }
    });
}
// ------------------------------------------------------------------------------------------------ DGMax
template <std::size_t D>
void dgmax(const mg::Mesh& gen) {
    int order = 1 + mc::choose(D == 2 ? mc::tier(3, 4) : mc::tier(2, 3), "order");
    bool projector = mc::choose(2, "projector");
    auto handling = DGMaxDiscretizationBase::MassMatrixHandling(mc::choose(3, "handling"));
    bool ortho = handling == DGMaxDiscretizationBase::ORTHOGONALIZE;
    int nm = ortho ? 3 : 5;
    const Material& ml = materials[mc::choose(nm, "left material")];
    const Material& mr = materials[mc::choose(nm, "right material")];
    int k = mc::choose(3, "boundary");
    int history = mc::choose(ortho ? 2 : 3, "history");
    double stab = 7.5;
    mc::note(mc::str("DGMax ", D, "D order ", order, projector ? " projector " : " ", ml.name, "/", mr.name, " handling ", int(handling), " history ", history));
    DGMaxDiscretization<D> d(order, stab, projector);
    World<D> w(gen, d.getNumberOfUnknowns(), d.getNumberOfElementMatrices());
    d.initializeBasisFunctions(w.mesh);
    d.setMatrixHandling(handling);
    bool vectors = !ortho && !projector;
    auto compute = [&](int which, DGMax::AbstractDiscretizationBase::LocalIntegrals what) {
        std::map<std::size_t, typename DGMaxDiscretization<D>::InputFunction> ev;
        std::map<std::size_t, typename DGMaxDiscretization<D>::FaceInputFunction> fv;
        if (vectors) {
            ev[0] = source<D>(which);
            ev[1] = nullptr;
            ev[2] = source<D>(which + 1);
            fv[0] = boundary<D>(which);
            fv[1] = nullptr;
        }
        d.computeElementIntegrals(w.mesh, ev, what);
        d.computeFaceIntegrals(w.mesh, fv, [&](const Base::Face& f) { return w.bct.at(&f); }, what);
    };
    typedef DGMax::AbstractDiscretizationBase::LocalIntegrals LI;
    int which = 0;
    if (history == 1) {
        w.set(mr, ml, k + 1);
        compute(2, LI::ALL);
    }
    w.set(ml, mr, k);
    compute(which, LI::ALL);
    if (history == 2) compute(which = 1, LI::ONLY_VECTORS);
    std::map<const Base::Element*, Mat> L;
    for (auto* e : w.elements) {
        std::size_t n = e->getNumberOfBasisFunctions(0);
        Mat mass(n, n), stiff(n, n), gotS = copy(e->getElementMatrix(1)), B;
        elementFieldMatrices(w, e, mass, stiff);
        if (projector) {
            std::size_t np = e->getNumberOfBasisFunctions(1);
            B = Mat(np, n);
            Cell<D>(e).integrate(true, [&](const typename Cell<D>::At& a, double wgt) {
                auto t = w.at(e, a.x);
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < np; ++j) B(j, i) += wgt * prod(times(t.eps, a.u[i]), a.grad[j]);
            });
        }
        if (ortho) {
            L[e] = lower(e->getElementMatrix(0));
            for (std::size_t i = 0; i < n; ++i) mc::require(L[e](i, i).real() > 0, "factor of the mass matrix has a diagonal entry ", L[e](i, i));
            same(mul(L[e], herm(L[e])), mass, "product of the factors of the mass matrix");
            same(mul(mul(L[e], gotS), herm(L[e])), stiff, "rescaled stiffness matrix");
            if (projector) same(mul(copy(e->getElementMatrix(2)), herm(L[e])), B, "rescaled projector");
        } else {
            if (handling == DGMaxDiscretizationBase::INVERT) {
                Mat one(n, n);
                for (std::size_t i = 0; i < n; ++i) one(i, i) = 1;
                same(mul(copy(e->getElementMatrix(0)), mass), one, "product of the mass matrix and its stored inverse");
            } else
                same(copy(e->getElementMatrix(0)), mass, "mass matrix");
            same(gotS, stiff, "stiffness matrix");
            if (projector) same(copy(e->getElementMatrix(2)), B, "projector");
        }
        if (vectors) {
            same(e->getElementVector(0), elementVector(w, e, which, false), "source vector");
            same(e->getElementVector(1), std::vector<Z>(n), "absent vector");
            same(e->getElementVector(2), elementVector(w, e, which + 1, false), "second source vector");
        }
    }
    for (auto* f : w.faces) {
        Side2<D> s(f);
        Layout l = layout(f, false);
        BCT b = w.bct[f];
        Mat A(l.total, l.total), I(l.total, l.total);
        std::vector<Z> v(l.total);
        s.integrate(false, [&](const typename Side2<D>::At& a, double wgt) {
            std::vector<R3> N;
            std::vector<C3> C;
            for (auto& x : l.u) {
                R3 n = s.n;
                if (x.side)
                    for (auto& y : n) y = -y;
                N.push_back(cross(n, a.s[x.side].u[x.i]));
                C.push_back(over(a.s[x.side].curl[x.i], w.at(s.cell[x.side].e, a.x).mu));
            }
            C3 g = boundaryAt<D>(a.x, which);
            for (std::size_t i = 0; i < l.u.size(); ++i) {
                if (b == BCT::DIRICHLET) v[i] += wgt * (-prod(g, C[i]) + stab / s.h * prod(g, N[i]));
                if (b == BCT::NEUMANN || b == BCT::SILVER_MULLER) v[i] += wgt * prod(g, N[i]);
                for (std::size_t j = 0; j < l.u.size(); ++j) {
                    if (b == BCT::INTERNAL || b == BCT::DIRICHLET) A(j, i) += wgt * (-s.average() * (prod(C[i], N[j]) + prod(C[j], N[i])) + stab / s.h * dot(N[i], N[j]));
                    if (b == BCT::SILVER_MULLER) I(j, i) += wgt * Z(0, -std::sqrt(w.material[s.cell[0].e]->eps / w.material[s.cell[0].e]->mu)) * dot(N[i], N[j]);
                }
            }
        });
        Mat got = copy(f->getFaceMatrixMatrix(0));
        if (ortho) {
            Mat big(l.total, l.total);
            for (auto& x : l.u)
                for (auto& y : l.u)
                    if (x.side == y.side) big(x.index, y.index) = L[s.cell[x.side].e](x.i, y.i);
            got = mul(mul(big, got), herm(big));
        }
        same(got, A, mc::str("stiffness matrix of an ", w.name(f)));
        if (!ortho) same(copy(f->getFaceMatrixMatrix(1)), I, mc::str("impedance matrix of an ", w.name(f)));
        if (vectors) {
            same(f->getFaceVector(0), v, mc::str("vector of an ", w.name(f)));
            same(f->getFaceVector(1), std::vector<Z>(l.total), "absent vector of a face");
        }
    }
    if (!projector) fieldsAndFluxes<D>(w, d, false, ortho ? &d : nullptr);
}
// ------------------------------------------------------------------------------------------------ DivDGMax
template <std::size_t D>
void divdgmax(const mg::Mesh& gen) {
    typedef DivDGMaxDiscretizationBase::FluxType FT;
    int order = 1 + mc::choose(D == 2 ? mc::tier(2, 3) : mc::tier(1, 2), "order");
    int flux = mc::choose(8, "fluxes");
    int nm = flux ? 3 : 5;
    const Material& ml = materials[mc::choose(nm, "left material")];
    const Material& mr = materials[mc::choose(nm, "right material")];
    // the lifting of a tangential jump is a vector field, which in two dimensions the jump is not
    if (flux & 1 && D == 2) throw mc::Prune();
    // the number of faces is weighed with the permeability in one description of the Brezzi flux and not in the other
    if (flux & 1 && (ml.mu != 1 || mr.mu != 1)) throw mc::Prune();
    int k = mc::choose(3, "boundary");
    int history = mc::choose(3, "history");
    DivDGMaxDiscretizationBase::Stab st;
    st.stab1 = 6.5;
    st.stab2 = history == 0 && k == 2 ? 0 : 0.85;
    st.stab3 = 1.4;
    st.fluxType1 = flux & 1 ? FT::BREZZI : FT::IP;
    st.fluxType2 = flux & 2 ? FT::BREZZI : FT::IP;
    st.fluxType3 = flux & 4 ? FT::BREZZI : FT::IP;
    mc::note(mc::str("DivDGMax ", D, "D order ", order, " ", st.fluxType1 == FT::IP ? "i" : "b", st.fluxType2 == FT::IP ? "i" : "b", st.fluxType3 == FT::IP ? "i " : "b ", ml.name, "/", mr.name, " history ", history));
    DivDGMaxDiscretization<D> d(order, st);
    World<D> w(gen, 2, d.getNumberOfElementMatrices());
    d.initializeBasisFunctions(w.mesh);
    typedef DGMax::AbstractDiscretizationBase::LocalIntegrals LI;
    auto compute = [&](int which, LI what) {
        std::map<std::size_t, typename DivDGMaxDiscretization<D>::InputFunction> ev;
        std::map<std::size_t, typename DivDGMaxDiscretization<D>::FaceInputFunction> fv;
        ev[0] = source<D>(which);
        ev[1] = nullptr;
        fv[0] = boundary<D>(which);
        fv[1] = nullptr;
        d.computeElementIntegrals(w.mesh, ev, what);
        d.computeFaceIntegrals(w.mesh, fv, [&](const Base::Face& f) { return w.bct.at(&f); }, what);
    };
    int which = 0;
    if (history == 1) {
        w.set(mr, ml, k + 1);
        compute(2, LI::ALL);
    }
    w.set(ml, mr, k);
    compute(which, LI::ALL);
    if (history == 2) compute(which = 1, LI::ONLY_VECTORS);
    for (auto* e : w.elements) {
        std::size_t n = e->getNumberOfBasisFunctions(0), np = e->getNumberOfBasisFunctions(1);
        Mat mass(n + np, n + np), stiff(n + np, n + np);
        elementFieldMatrices(w, e, mass, stiff);
        Cell<D>(e).integrate(true, [&](const typename Cell<D>::At& a, double wgt) {
            auto t = w.at(e, a.x);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < np; ++j) {
                    Z v = -wgt * prod(times(t.eps, a.u[i]), a.grad[j]);
                    stiff(n + j, i) += v;
                    stiff(i, n + j) += std::conj(v);
                }
        });
        same(copy(e->getElementMatrix(0)), mass, "mass matrix");
        same(copy(e->getElementMatrix(1)), stiff, "stiffness matrix");
        same(e->getElementVector(0), elementVector(w, e, which, true), "source vector");
        same(e->getElementVector(1), std::vector<Z>(n + np), "absent vector");
    }
    for (auto* f : w.faces) {
        Side2<D> s(f);
        Layout l = layout(f, true);
        BCT b = w.bct[f];
        bool natural = b == BCT::NEUMANN || b == BCT::SILVER_MULLER;
        std::size_t nu = l.u.size(), np = l.p.size();
        Mat A(l.total, l.total), I(l.total, l.total), R(nu, nu), S(np, nu), T(nu, np), r(nu, 1);
        std::vector<Z> v(l.total);
        s.integrate(true, [&](const typename Side2<D>::At& a, double wgt) {
            std::vector<R3> N, U;
            std::vector<C3> C;
            std::vector<Z> E;       // normal component of eps u, with the normal of the left side
            std::vector<double> sg, P, ps;
            for (auto& x : l.u) {
                R3 n = s.n;
                if (x.side)
                    for (auto& y : n) y = -y;
                auto& u = a.s[x.side].u[x.i];
                auto t = w.at(s.cell[x.side].e, a.x);
                U.push_back(u);
                N.push_back(cross(n, u));
                C.push_back(over(a.s[x.side].curl[x.i], t.mu));
                E.push_back(prod(times(t.eps, u), s.n));
                sg.push_back(x.side ? -1 : 1);
            }
            for (auto& x : l.p) P.push_back(a.s[x.side].p[x.i]), ps.push_back(x.side ? -1 : 1);
            C3 g = boundaryAt<D>(a.x, which);
            for (std::size_t i = 0; i < nu; ++i) {
                std::size_t ii = l.u[i].index;
                if (b == BCT::DIRICHLET) {
                    v[ii] += -wgt * prod(g, C[i]);
                    if (st.fluxType1 == FT::IP) v[ii] += wgt * st.stab1 / s.h * prod(g, N[i]);
                    r(i, 0) += wgt * prod(g, U[i]);
                }
                if (natural) v[ii] += wgt * prod(g, N[i]);
                for (std::size_t j = 0; j < nu; ++j) {
                    std::size_t jj = l.u[j].index;
                    if (!natural) {
                        A(jj, ii) += -wgt * s.average() * (prod(C[i], N[j]) + prod(C[j], N[i]));
                        if (st.fluxType1 == FT::IP) A(jj, ii) += wgt * st.stab1 / s.h * dot(N[i], N[j]);
                        if (st.fluxType2 == FT::IP && b == BCT::INTERNAL) A(jj, ii) += wgt * st.stab2 * s.h * sg[i] * sg[j] * E[i] * std::conj(E[j]);
                    }
                    if (b == BCT::SILVER_MULLER) I(jj, ii) += wgt * Z(0, -std::sqrt(w.material[s.cell[0].e]->eps / w.material[s.cell[0].e]->mu)) * dot(N[i], N[j]);
                    R(j, i) += wgt * s.average() * dot(N[i], U[j]);
                }
                for (std::size_t j = 0; j < np; ++j) {
                    Z c = wgt * s.average() * E[i] * ps[j] * P[j];
                    A(l.p[j].index, ii) += c;
                    A(ii, l.p[j].index) += std::conj(c);
                    S(j, i) += wgt * s.average() * sg[i] * E[i] * P[j];
                    T(i, j) += wgt * s.average() * ps[j] * P[j] * dot(s.n, U[i]);
                }
            }
            if (st.fluxType3 == FT::IP)
                for (std::size_t i = 0; i < np; ++i)
                    for (std::size_t j = 0; j < np; ++j) A(l.p[i].index, l.p[j].index) -= wgt * st.stab3 / s.h * ps[i] * P[i] * ps[j] * P[j];
        });
        if (flux) {
            Mat MU(nu, nu), MP(np, np);
            for (int side = 0; side < int(s.cell.size()); ++side)
                s.cell[side].integrate(true, [&](const typename Cell<D>::At& a, double wgt) {
                    for (std::size_t i = 0; i < nu; ++i)
                        for (std::size_t j = 0; j < nu; ++j)
                            if (l.u[i].side == side && l.u[j].side == side) MU(i, j) += wgt * dot(a.u[l.u[i].i], a.u[l.u[j].i]);
                    for (std::size_t i = 0; i < np; ++i)
                        for (std::size_t j = 0; j < np; ++j)
                            if (l.p[i].side == side && l.p[j].side == side) MP(i, j) += wgt * a.p[l.p[i].i] * a.p[l.p[j].i];
                });
            double nf = D + 1;
            if (st.fluxType1 == FT::BREZZI && !natural) {
                Mat X = mul(herm(R), solve(MU, R));
                for (std::size_t i = 0; i < nu; ++i)
                    for (std::size_t j = 0; j < nu; ++j) A(l.u[i].index, l.u[j].index) += (st.stab1 + nf) * X(i, j);
            }
            if (st.fluxType2 == FT::BREZZI && b == BCT::INTERNAL) {
                Mat X = mul(herm(S), solve(MP, S));
                for (std::size_t i = 0; i < nu; ++i)
                    for (std::size_t j = 0; j < nu; ++j) A(l.u[i].index, l.u[j].index) += st.stab2 * X(i, j);
            }
            if (st.fluxType3 == FT::BREZZI) {
                Mat X = mul(herm(T), solve(MU, T));
                for (std::size_t i = 0; i < np; ++i)
                    for (std::size_t j = 0; j < np; ++j) A(l.p[i].index, l.p[j].index) -= st.stab3 * X(i, j);
            }
            if (st.fluxType1 == FT::BREZZI && b == BCT::DIRICHLET) {
                Mat X = mul(herm(R), solve(MU, r));
                for (std::size_t i = 0; i < nu; ++i) v[l.u[i].index] += (st.stab1 + nf) * X(i, 0);
            }
        }
        same(copy(f->getFaceMatrixMatrix(0)), A, mc::str("stiffness matrix of an ", w.name(f)));
        same(copy(f->getFaceMatrixMatrix(1)), I, mc::str("impedance matrix of an ", w.name(f)));
        same(f->getFaceVector(0), v, mc::str("vector of an ", w.name(f)));
        same(f->getFaceVector(1), std::vector<Z>(l.total), "absent vector of a face");
    }
    fieldsAndFluxes<D>(w, d, true, nullptr);
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    auto all = pairs();
    const Pair *tri = nullptr, *tet = nullptr;
    for (auto& p : all) {
        if (p.name == std::string("triangle-triangle")) tri = &p;
        if (p.name == std::string("tetrahedron-tetrahedron")) tet = &p;
    }
    return mc::run([&] {
        const Pair& p = *(mc::choose(2, "dimension-2") ? tet : tri);
        bool div = mc::choose(2, "discretisation");
        mg::Mesh m;
        m.dim = p.dim;
        m.elems = p.e;
        m.phi = mg::family(p.dim, 2);
        auto& sy = mg::symmetries(p.e[0].shape);
        std::size_t n = sy.size();
        // a few labellings with all settings here; the thorough tier takes all of them
        static const std::size_t few2[][2] = {{0, 0}, {3, 1}, {4, 5}}, few3[][2] = {{0, 0}, {7, 18}};
        std::size_t a, b;
        if (mc::thorough() && p.dim == 2) {
            a = mc::choose(n, "left labelling");
            b = mc::choose(n, "right labelling");
        } else {
            std::size_t k = mc::choose(p.dim == 2 ? 3 : 2, "labelling");
            a = p.dim == 2 ? few2[k][0] : few3[k][0];
            b = p.dim == 2 ? few2[k][1] : few3[k][1];
        }
        m.relabel(0, sy[a]);
        m.relabel(1, sy[b]);
        m.derive();
        if (p.dim == 2)
            div ? divdgmax<2>(m) : dgmax<2>(m);
        else
            div ? divdgmax<3>(m) : dgmax<3>(m);
        mc::state(mc::joinChoices());
    });
}
