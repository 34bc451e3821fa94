// C24: element and face integrals are exact for polynomials on every mesh, satisfy the divergence theorem, and all
// integration routes agree.
#include "shapes.h"
#include "meshgen.h"
#include "catalog.h"
#include "pairs.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
using namespace hpgem;
using Base::Side;
using sh::V;
typedef QuadratureRules::GaussQuadratureRule Rule;
typedef LinearAlgebra::MiddleSizeVector MV;
typedef LinearAlgebra::MiddleSizeMatrix MM;
template <std::size_t D>
using Vec = LinearAlgebra::SmallVector<D>;
// ---- the oracle: interpolation of the vertex coordinates over collapsed coordinates u in the unit box, with derivatives
struct Dual {
    double v, d[3];
    Dual(double v = 0) : v(v), d{0, 0, 0} {}
};
static Dual operator+(Dual a, const Dual& b) {
    a.v += b.v;
    for (int i = 0; i < 3; ++i) a.d[i] += b.d[i];
    return a;
}
static Dual operator*(const Dual& a, const Dual& b) {
    Dual r(a.v * b.v);
    for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i];
    return r;
}
static Dual operator-(const Dual& a, const Dual& b) { return a + Dual(-1.) * b; }
static std::vector<Dual> nodal(int shape, const std::vector<Dual>& u) {
    Dual one(1.);
    auto boxes = [&](int dim) {
        std::vector<Dual> r;
        for (int k = 0; k < (1 << dim); ++k) {
            Dual w = one;
            for (int i = 0; i < dim; ++i) w = w * (k >> i & 1 ? u[i] : one - u[i]);
            r.push_back(w);
        }
        return r;
    };
    auto simplex2 = [&] {
        Dual a = u[0], b = u[1] * (one - u[0]);
        return std::vector<Dual>{one - a - b, a, b};
    };
    switch (shape) {
        case mg::LINE: return boxes(1);
        case mg::SQUARE: return boxes(2);
        case mg::CUBE: return boxes(3);
        case mg::TRI: return simplex2();
        case mg::TET: {
            Dual a = u[0], b = u[1] * (one - a), c = u[2] * (one - a - b);
            return {one - a - b - c, a, b, c};
        }
        case mg::PRISM: {
            auto t = simplex2();
            std::vector<Dual> r;
            for (auto& x : t) r.push_back(x * (one - u[2]));
            for (auto& x : t) r.push_back(x * u[2]);
            return r;
        }
        default: {  // pyramid
            std::vector<Dual> r{u[2]};
            for (auto& x : boxes(2)) r.push_back(x * (one - u[2]));
            return r;
        }
    }
}
static const std::vector<std::pair<double, double>>& gauss() {  // on [0,1], exact to degree 15
    static std::vector<std::pair<double, double>> r;
    if (r.empty()) {
        const int n = 8;
        for (int i = 0; i < n; ++i) {
            long double x = std::cos(M_PIl * (i + .75L) / (n + .5L)), dp = 0;
            for (int it = 0; it < 60; ++it) {
                long double p0 = 1, p1 = x;
                for (int k = 2; k <= n; ++k) {
                    long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                    p0 = p1, p1 = p2;
                }
                dp = n * (x * p1 - p0) / (x * x - 1);
                x -= p1 / dp;
            }
            r.push_back({double((1 + x) / 2), double(1 / ((1 - x * x) * dp * dp))});
        }
    }
    return r;
}
static void eachPoint(int dim, const std::function<void(const std::vector<Dual>&, double)>& f) {
    std::vector<Dual> u(3);
    std::function<void(int, double)> rec = [&](int i, double w) {
        if (i == dim) {
            f(u, w);
            return;
        }
        for (auto& g : gauss()) {
            u[i] = Dual(g.first);
            u[i].d[i] = 1;
            rec(i + 1, w * g.second);
        }
    };
    rec(0, 1);
}
typedef std::vector<int> Exp;
struct Oracle {
    int dim;
    std::vector<Exp> mono;
    std::vector<V> vol;                            // [element] monomial
    std::vector<std::vector<std::vector<V>>> flux;  // [element][face][direction] monomial, with the outward normal
    std::vector<std::vector<V>> area;              // [element][face] monomial
    std::vector<std::vector<bool>> flat;
    static V values(const std::vector<Exp>& mono, const V& x) {
        V r;
        for (auto& a : mono) r.push_back(sh::monomial(x, a));
        return r;
    }
    Oracle(const mg::Mesh& m, int q) : dim(m.dim), mono(sh::exponents(m.dim, q)) {
        for (auto& e : m.elems) {
            auto& t = mg::table(e.shape);
            std::vector<mg::X> X;
            V c(3, 0);
            for (auto& v : e.v) {
                X.push_back(m.phi(v));
                for (int d = 0; d < 3; ++d) c[d] += X.back()[d] / e.v.size();
            }
            V I(mono.size(), 0);
            eachPoint(dim, [&](const std::vector<Dual>& u, double w) {
                auto N = nodal(e.shape, u);
                std::vector<Dual> x(dim);
                for (int d = 0; d < dim; ++d)
                    for (std::size_t k = 0; k < N.size(); ++k) x[d] = x[d] + N[k] * Dual(X[k][d]);
                double J = dim == 1 ? x[0].d[0] : dim == 2 ? x[0].d[0] * x[1].d[1] - x[0].d[1] * x[1].d[0]
                                                           : x[0].d[0] * (x[1].d[1] * x[2].d[2] - x[1].d[2] * x[2].d[1]) - x[0].d[1] * (x[1].d[0] * x[2].d[2] - x[1].d[2] * x[2].d[0]) +
                                                                 x[0].d[2] * (x[1].d[0] * x[2].d[1] - x[1].d[1] * x[2].d[0]);
                V y;
                for (auto& s : x) y.push_back(s.v);
                V f = values(mono, y);
                for (std::size_t k = 0; k < f.size(); ++k) I[k] += w * std::abs(J) * f[k];
            });
            vol.push_back(I);
            flux.push_back({});
            area.push_back({});
            flat.push_back({});
            for (auto& fv : t.faces) {
                std::vector<V> F(dim, V(mono.size(), 0));
                V A(mono.size(), 0), fc(3, 0);
                for (int k : fv)
                    for (int d = 0; d < 3; ++d) fc[d] += X[k][d] / fv.size();
                int fshape = fv.size() == 2 ? mg::LINE : fv.size() == 3 ? mg::TRI : mg::SQUARE;
                V n0;
                bool planar = true;
                eachPoint(dim - 1, [&](const std::vector<Dual>& u, double w) {
                    std::vector<Dual> N = dim == 1 ? std::vector<Dual>{Dual(1.)} : nodal(fshape, u);
                    std::vector<Dual> x(dim);
                    for (int d = 0; d < dim; ++d)
                        for (std::size_t k = 0; k < N.size(); ++k) x[d] = x[d] + N[k] * Dual(X[fv[k]][d]);
                    V n;
                    if (dim == 1) n = {1};
                    if (dim == 2) n = {x[1].d[0], -x[0].d[0]};
                    if (dim == 3)
                        for (int i = 0; i < 3; ++i) {
                            int j = (i + 1) % 3, k = (i + 2) % 3;
                            n.push_back(x[j].d[0] * x[k].d[1] - x[k].d[0] * x[j].d[1]);
                        }
                    double out = 0, len = 0;
                    V y;
                    for (int d = 0; d < dim; ++d) out += n[d] * (fc[d] - c[d]), len += n[d] * n[d], y.push_back(x[d].v);
                    len = std::sqrt(len);
                    V f = values(mono, y), un;
                    for (auto& s : n) s *= out > 0 ? 1 : -1, un.push_back(s / len);
                    if (n0.empty()) n0 = un;
                    planar = planar && sh::closeV(n0, un, 1e-9);
                    for (std::size_t k = 0; k < f.size(); ++k) {
                        A[k] += w * len * f[k];
                        for (int d = 0; d < dim; ++d) F[d][k] += w * n[d] * f[k];
                    }
                });
                flux.back().push_back(F);
                area.back().push_back(A);
                flat.back().push_back(planar);
            }
        }
    }
};
static double re(std::complex<double> x) { return x.real(); }
static double re(double x) { return x; }
static void near(double a, double b, const std::string& what, double tol = 1e-8) {
    mc::require(std::abs(a - b) <= tol * (1 + std::abs(b)), what, ": ", a, " instead of ", b);
    mc::step();
}
// on quadrilateral faces that meet in a quarter turn (known finding, see C12) what the right side sees is decided separately
static bool skipRight = false;
template <std::size_t DIM>
struct Mesh {
    const mg::Mesh& m;
    Base::ConfigurationData config;
    Base::MeshManipulator<DIM> mesh;
    std::vector<Base::Element*> el;
    Mesh(const mg::Mesh& m, bool reversed) : m(m), config(1, 1), mesh(&config), el(m.elems.size()) {
        std::string fn = "c24-" + std::to_string(getpid()) + ".hpgem";
        m.write(fn, std::vector<int>(m.elems.size(), 0), 1, reversed);
        mesh.readMesh(fn);
        std::remove(fn.c_str());
        for (auto* e : mesh.getElementsList())
            for (std::size_t k = 0; k < el.size(); ++k) {
                bool same = e->getNumberOfNodes() == m.elems[k].v.size();
                for (std::size_t j = 0; same && j < e->getNumberOfNodes(); ++j) {
                    const auto& c = static_cast<const Geometry::PointPhysical<DIM>&>(e->getPhysicalGeometry()->getLocalNodeCoordinates(j));
                    auto x = m.phi(m.elems[k].v[j]);
                    for (std::size_t i = 0; i < DIM; ++i) same = same && c[i] == x[i];
                }
                if (same) el[k] = e;
            }
        for (auto* e : el) mc::require(e, "an element of the file is missing");
    }
    int number(const Base::Element* e) const { return std::find(el.begin(), el.end(), e) - el.begin(); }
};
template <std::size_t DIM>
struct EIntegrand : Integration::ElementIntegrandBase<MV, DIM> {
    std::function<MV(Base::PhysicalElement<DIM>&)> f;
    void elementIntegrand(Base::PhysicalElement<DIM>& e, MV& r) override { r = f(e); }
};
template <std::size_t DIM>
struct FIntegrand : Integration::FaceIntegrandBase<MM, DIM> {
    std::function<MM(Base::PhysicalFace<DIM>&)> f;
    void faceIntegrand(Base::PhysicalFace<DIM>& e, MM& r) override { r = f(e); }
};
static bool affineElement(const mg::Mesh& m, int e) {
    auto& E = m.elems[e];
    auto& t = mg::table(E.shape);
    // affine map through the first vertices that span; check the others
    int s = E.shape;
    if (s == mg::LINE || s == mg::TRI || s == mg::TET) return true;
    auto X = [&](int k) { return m.phi(E.v[k]); };
    auto para = [&](int a, int b, int c, int d) {
        for (int i = 0; i < m.dim; ++i)
            if (std::abs(X(a)[i] + X(d)[i] - X(b)[i] - X(c)[i]) > 1e-12) return false;
        return true;
    };
    for (auto& f : t.faces)
        if (f.size() == 4 && !para(f[0], f[1], f[2], f[3])) return false;
    if (s == mg::SQUARE) return para(0, 1, 2, 3);
    return true;
}
static int need(int shape, bool affine, int q) {  // total degree of a monomial of degree q times the volume form
    if (affine) return shape == mg::PYR ? q : q;
    return shape == mg::CUBE ? 3 * q + 6 : shape == mg::PRISM ? 2 * q + 4 : 2 * q + 2;
}
template <std::size_t DIM>
static Rule* rule(const Geometry::ReferenceGeometry* g, int order) {
    return const_cast<Geometry::ReferenceGeometry*>(g)->getGaussQuadratureRule(order);
}
static int highest(int mgShape) {
    switch (mgShape) {
        case mg::PYR: return 7;
        case mg::PRISM: return 7;
        default: return 11;
    }
}
template <std::size_t DIM>
static double odd(const V& x) {  // an arbitrary integrand
    double r = 0.3;
    for (std::size_t d = 0; d < DIM; ++d) r += std::sin((d + 1.5) * x[d] + d) * (1 + x[(d + 1) % DIM]);
    return r;
}
template <std::size_t DIM, class P>
static V xs(const P& p) {
    return sh::coords<DIM>(p);
}
template <std::size_t DIM>
static V rightPoint(Base::PhysicalFace<DIM>& f) {
    return xs<DIM>(f.getFace()->getPtrElementRight()->referenceToPhysical(f.getFace()->mapRefFaceToRefElemR(f.getPointReference())));
}
template <std::size_t DIM>
static void geometry(Mesh<DIM>& M, int q, int transformation, int repeat) {
    const mg::Mesh& m = M.m;
    Oracle o(m, q);
    std::size_t nm = o.mono.size();
    Integration::ElementIntegral<DIM> EI;
    Integration::FaceIntegral<DIM> FI;
    if (transformation == 1) {
        EI.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>());
        FI.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>());
    }
    if (transformation == 2) {
        EI.setTransformation(std::make_shared<Base::HDivConformingTransformation<DIM>>());
        FI.setTransformation(std::make_shared<Base::HDivConformingTransformation<DIM>>());
    }
    auto mono = [&](const V& x) {
        MV r(nm);
        for (std::size_t k = 0; k < nm; ++k) r[k] = sh::monomial(x, o.mono[k]);
        return r;
    };
    std::vector<std::vector<V>> outflow(M.el.size(), std::vector<V>(DIM, V(nm, 0)));
    std::vector<bool> exactFaces(M.el.size(), true);
    for (int pass = 0; pass < repeat; ++pass) {
        for (auto& per : outflow)
            for (auto& v : per) std::fill(v.begin(), v.end(), 0.);
        std::vector<V> volume;
        std::vector<bool> exact;
        for (std::size_t e = 0; e < M.el.size(); ++e) {
            bool affine = affineElement(m, e);
            auto* E = M.el[e];
            auto* G = E->getReferenceGeometry();
            std::string name = mc::str("element ", e);
            // every rule that is exact for the integrand gives the exact integral
            int lo = need(m.elems[e].shape, affine, q), hi = highest(m.elems[e].shape);
            exact.push_back(lo <= hi);
            auto f = [&](Base::PhysicalElement<DIM>& p) { return mono(xs<DIM>(p.getPointPhysical())); };
            volume.push_back(V(nm, 0));
            for (int r = std::max(1, lo); r <= hi; ++r) {
                MV I = EI.integrate(E, f, rule<DIM>(G, r));
                for (std::size_t k = 0; k < nm; ++k) near(re(I[k]), o.vol[e][k], mc::str(name, " integral of monomial ", k, " with a rule of order ", r)), volume[e][k] = re(I[k]);
                if (r >= lo + 1 && !mc::thorough()) break;
            }
            // routes
            for (Rule* r : {(Rule*)nullptr, rule<DIM>(G, 3), rule<DIM>(G, 5)}) {
                Rule* used = r ? r : E->getGaussQuadratureRule();
                double direct = 0, plain = 0;
                for (std::size_t i = 0; i < used->getNumberOfPoints(); ++i) {
                    const auto& p = static_cast<const Geometry::PointReference<DIM>&>(used->getPoint(i));
                    double v = odd<DIM>(xs<DIM>(E->referenceToPhysical(p)));
                    direct += used->weight(i) * v * std::abs(E->calcJacobian(p).determinant());
                    plain += used->weight(i) * v;
                }
                auto val = [&](Base::PhysicalElement<DIM>& p) { return odd<DIM>(xs<DIM>(p.getPointPhysical())); };
                near(EI.integrate(E, val, r), direct, name + " scalar integral");
                std::function<double(Base::PhysicalElement<DIM>&)> fun = val;
                near(EI.integrate(E, fun, r), direct, name + " scalar integral of a std::function");
                auto small = EI.integrate(E, [&](Base::PhysicalElement<DIM>& p) { Vec<DIM> s; for (std::size_t d = 0; d < DIM; ++d) s[d] = (d + 1) * val(p); return s; }, r);
                for (std::size_t d = 0; d < DIM; ++d) near(small[d], (d + 1) * direct, name + " small vector integral");
                auto mat = EI.integrate(E, [&](Base::PhysicalElement<DIM>& p) { MM s(2, 3); for (int i = 0; i < 6; ++i) s[i] = (i + 1) * val(p); return s; }, r);
                for (int i = 0; i < 6; ++i) near(re(mat[i]), (i + 1) * direct, name + " matrix integral");
                EIntegrand<DIM> base;
                base.f = [&](Base::PhysicalElement<DIM>& p) { MV s(2); s[0] = val(p); s[1] = 2 * val(p); return s; };
                MV b = EI.integrate(E, &base, r);
                near(re(b[0]), direct, name + " integral of an integrand object");
                near(re(b[1]), 2 * direct, name + " integral of an integrand object");
                EI.setJacobianScaling(false);
                near(EI.integrate(E, val, r), plain, name + " unscaled integral");
                near(EI.integrate(E, [&](Base::PhysicalElement<DIM>& p) { return val(p) * p.getJacobianAbsDet(); }, r), direct, name + " unscaled integral of a scaled integrand");
                EI.setJacobianScaling(true);
            }
        }
        for (auto* F : M.mesh.getFacesList()) {
            int side[2] = {M.number(F->getPtrElementLeft()), F->isInternal() ? M.number(F->getPtrElementRight()) : -1};
            int local[2] = {(int)F->localFaceNumberLeft(), F->isInternal() ? (int)F->localFaceNumberRight() : -1};
            std::string name = mc::str("face between elements ", side[0], " and ", side[1]);
            auto& fv = mg::table(m.elems[side[0]].shape).faces[local[0]];
            int fshape = fv.size() == 4 ? mg::SQUARE : fv.size() == 3 ? mg::TRI : mg::LINE;
            bool affine = true;
            if (fv.size() == 4)
                for (std::size_t i = 0; i < DIM; ++i) {
                    auto& E = m.elems[side[0]];
                    affine = affine && std::abs(m.phi(E.v[fv[0]])[i] + m.phi(E.v[fv[3]])[i] - m.phi(E.v[fv[1]])[i] - m.phi(E.v[fv[2]])[i]) < 1e-12;
                }
            auto* G = F->getReferenceGeometry();
            int lo = DIM == 1 ? 0 : need(fshape, affine, q), hi = DIM == 1 ? 0 : highest(fshape);
            if (lo > hi)
                for (int s : side)
                    if (s >= 0) exactFaces[s] = false;
            if (skipRight && side[1] >= 0) exactFaces[side[1]] = false;
            std::vector<MM> pairResult;
            for (int r = DIM == 1 ? 1 : std::max(1, lo); r <= std::max(hi, 1); ++r) {
                Rule* R = rule<DIM>(G, r);
                auto pr = FI.integratePair(
                    F,
                    [&](Base::PhysicalFace<DIM>& p) {
                        std::pair<MM, MM> out{MM(DIM, nm), MM(DIM, nm)};
                        MV l = mono(xs<DIM>(p.getPointPhysical())), rr = p.getFace()->isInternal() ? mono(rightPoint<DIM>(p)) : l;
                        auto n = p.getUnitNormalVector();
                        for (std::size_t d = 0; d < DIM; ++d)
                            for (std::size_t k = 0; k < nm; ++k) out.first(d, k) = n[d] * l[k], out.second(d, k) = -n[d] * rr[k];
                        return out;
                    },
                    R);
                MV A = FI.integrate(F, [&](Base::PhysicalFace<DIM>& p) { return mono(xs<DIM>(p.getPointPhysical())); }, R);
                for (int s = 0; s < 2; ++s)
                    if (side[s] >= 0 && !(s && skipRight))
                        for (std::size_t d = 0; d < DIM; ++d)
                            for (std::size_t k = 0; k < nm; ++k)
                                near(re((s ? pr.second : pr.first)(d, k)), o.flux[side[s]][local[s]][d][k], mc::str(name, ": flux of monomial ", k, " in direction ", d, " out of the ", s ? "right" : "left", " element, rule of order ", r));
                if (o.flat[side[0]][local[0]])
                    for (std::size_t k = 0; k < nm; ++k) near(re(A[k]), o.area[side[0]][local[0]][k], mc::str(name, ": surface integral of monomial ", k, ", rule of order ", r));
                pairResult = {pr.first, pr.second};
                if (r >= lo + 1 && !mc::thorough()) break;
                if (DIM == 1) break;
            }
            if (!pairResult.empty())
                for (int s = 0; s < 2; ++s)
                    if (side[s] >= 0)
                        for (std::size_t d = 0; d < DIM; ++d)
                            for (std::size_t k = 0; k < nm; ++k) outflow[side[s]][d][k] += re(pairResult[s](d, k));
            // points and normals
            std::vector<Rule*> rules = {nullptr, rule<DIM>(G, 3)};
            for (Rule* r : rules) {
                Rule* used = r ? r : F->getGaussQuadratureRule();
                double direct = 0, plain = 0;
                V shift;
                std::vector<V> normals;
                for (std::size_t i = 0; i < used->getNumberOfPoints(); ++i) {
                    const auto& p = static_cast<const Geometry::PointReference<DIM - 1>&>(used->getPoint(i));
                    auto n = F->getNormalVector(p);
                    V x = xs<DIM>(F->referenceToPhysical(p));
                    normals.push_back(xs<DIM>(n));
                    double len = 0;
                    for (std::size_t d = 0; d < DIM; ++d) len += n[d] * n[d];
                    len = std::sqrt(len);
                    direct += used->weight(i) * odd<DIM>(x) * len;
                    plain += used->weight(i) * odd<DIM>(x);
                    // orthogonal to the face: central differences are exact along the axes of (bi)linear faces
                    for (std::size_t a = 0; a + 1 < DIM; ++a) {
                        Geometry::PointReference<DIM - 1> p1 = p, p2 = p;
                        p1[a] += 0.125, p2[a] -= 0.125;
                        V x1 = xs<DIM>(F->referenceToPhysical(p1)), x2 = xs<DIM>(F->referenceToPhysical(p2));
                        double dot = 0;
                        for (std::size_t d = 0; d < DIM; ++d) dot += n[d] * (x1[d] - x2[d]);
                        near(dot, 0, name + ": the normal is not orthogonal to the face", 1e-10);
                    }
                    double out = 0;
                    V c(DIM, 0), fc(DIM, 0);
                    for (auto& v : m.elems[side[0]].v)
                        for (std::size_t d = 0; d < DIM; ++d) c[d] += m.phi(v)[d] / m.elems[side[0]].v.size();
                    for (int k : fv)
                        for (std::size_t d = 0; d < DIM; ++d) fc[d] += m.phi(m.elems[side[0]].v[k])[d] / fv.size();
                    for (std::size_t d = 0; d < DIM; ++d) out += n[d] * (fc[d] - c[d]);
                    mc::require(out > 0, name, ": the normal does not point out of the left element");
                    if (F->isInternal() && !skipRight) {
                        V y = xs<DIM>(F->getPtrElementRight()->referenceToPhysical(F->mapRefFaceToRefElemR(p))), s;
                        for (std::size_t d = 0; d < DIM; ++d) s.push_back(y[d] - x[d]);
                        if (shift.empty()) shift = s;
                        mc::require(sh::closeV(shift, s, 1e-11), name, ": the left and right points do not coincide, ", sh::str(x), " and ", sh::str(y));
                        double jump = 0;
                        for (double v : s) jump += std::abs(v);
                        bool across = false;
                        for (int d = 0; d < m.dim; ++d) across = across || m.period[d];
                        mc::require(jump < 1e-11 || across, name, ": the left and right points do not coincide, ", sh::str(x), " and ", sh::str(y));
                    }
                }
                auto val = [&](Base::PhysicalFace<DIM>& p) { return odd<DIM>(xs<DIM>(p.getPointPhysical())); };
                near(FI.integrate(F, val, r), direct, name + " scalar integral");
                std::function<double(Base::PhysicalFace<DIM>&)> fun = val;
                near(FI.integrate(F, fun, r), direct, name + " scalar integral of a std::function");
                auto small = FI.integrate(F, [&](Base::PhysicalFace<DIM>& p) { Vec<DIM> s = p.getUnitNormalVector(); s *= 2 * val(p); return s; }, r);
                V want(DIM, 0);
                for (std::size_t i = 0; i < used->getNumberOfPoints(); ++i) {
                    const auto& p = static_cast<const Geometry::PointReference<DIM - 1>&>(used->getPoint(i));
                    double v = odd<DIM>(xs<DIM>(F->referenceToPhysical(p)));
                    for (std::size_t d = 0; d < DIM; ++d) want[d] += used->weight(i) * 2 * v * normals[i][d];
                }
                for (std::size_t d = 0; d < DIM; ++d) near(small[d], want[d], name + " small vector integral");
                FIntegrand<DIM> base;
                base.f = [&](Base::PhysicalFace<DIM>& p) { MM s(2, 2); for (int i = 0; i < 4; ++i) s[i] = (i - 1.5) * val(p); return s; };
                MM b = FI.integrate(F, &base, r);
                for (int i = 0; i < 4; ++i) near(re(b[i]), (i - 1.5) * direct, name + " integral of an integrand object");
                auto pr = FI.integratePair(F, [&](Base::PhysicalFace<DIM>& p) { MV s(1), t(2); s[0] = val(p); t[0] = 3 * val(p); t[1] = -val(p); return std::make_pair(s, t); }, r);
                near(re(pr.first[0]), direct, name + " integratePair");
                near(re(pr.second[0]), 3 * direct, name + " integratePair");
                near(re(pr.second[1]), -direct, name + " integratePair");
                FI.setJacobianScaling(false);
                near(FI.integrate(F, val, r), plain, name + " unscaled integral");
                auto nn = FI.integrate(F, [&](Base::PhysicalFace<DIM>& p) { Vec<DIM> s = p.getNormalVector(); s *= 2 * val(p); return s; }, r);
                for (std::size_t d = 0; d < DIM; ++d) near(nn[d], want[d], name + " unscaled integral with the scaled normal");
                auto up = FI.integratePair(F, [&](Base::PhysicalFace<DIM>& p) { MV s(1), t(1); s[0] = val(p); t[0] = 3 * val(p); return std::make_pair(s, t); }, r);
                near(re(up.first[0]), plain, name + " unscaled integratePair");
                near(re(up.second[0]), 3 * plain, name + " unscaled integratePair");
                FI.setJacobianScaling(true);
            }
        }
        // the divergence theorem
        for (std::size_t e = 0; e < M.el.size(); ++e)
            if (exactFaces[e] && exact[e])
                for (std::size_t k = 0; k < nm; ++k)
                    for (std::size_t d = 0; d < DIM; ++d) {
                        Exp a = o.mono[k];
                        double div = 0;
                        if (a[d] > 0) {
                            int f = a[d]--;
                            div = f * volume[e][std::find(o.mono.begin(), o.mono.end(), a) - o.mono.begin()];
                        }
                        near(outflow[e][d][k], div, mc::str("element ", e, ": outflow of monomial ", k, " in direction ", d, " against the integral of its divergence"));
                    }
    }
}
// integration by parts for all pairs of basis functions
template <std::size_t DIM>
static void byParts(Mesh<DIM>& M, int p, bool conforming) {
    if (conforming)
        M.mesh.useDefaultConformingBasisFunctions(p);
    else
        M.mesh.useDefaultDGBasisFunctions(p);
    Integration::ElementIntegral<DIM> EI;
    Integration::FaceIntegral<DIM> FI;
    std::vector<MM> in, out;
    std::set<int> skip;
    for (auto* E : M.el) {
        std::size_t n = E->getNumberOfBasisFunctions();
        int s = M.m.elems[M.number(E)].shape;
        in.push_back(EI.integrate(
            E,
            [&](Base::PhysicalElement<DIM>& x) {
                MM r(n, n * DIM);
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < n; ++j)
                        for (std::size_t d = 0; d < DIM; ++d) r(i, j * DIM + d) = x.basisFunctionDeriv(i)[d] * x.basisFunction(j) + x.basisFunction(i) * x.basisFunctionDeriv(j)[d];
                return r;
            },
            rule<DIM>(E->getReferenceGeometry(), highest(s))));
        out.push_back(MM(n, n * DIM));
    }
    for (auto* F : M.mesh.getFacesList()) {
        int side[2] = {M.number(F->getPtrElementLeft()), F->isInternal() ? M.number(F->getPtrElementRight()) : -1};
        auto& fv = mg::table(M.m.elems[side[0]].shape).faces[F->localFaceNumberLeft()];
        auto block = [&](Base::PhysicalFace<DIM>& x, Side s) {
            std::size_t n = M.el[side[s == Side::RIGHT]]->getNumberOfBasisFunctions();
            MM r(n, n * DIM);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                    for (std::size_t d = 0; d < DIM; ++d) r(i, j * DIM + d) = x.basisFunction(s, i) * x.basisFunctionUnitNormal(s, j)[d];
            return r;
        };
        Rule* R = rule<DIM>(F->getReferenceGeometry(), DIM == 1 ? 1 : fv.size() == 3 ? 11 : 11);
        if (F->isInternal()) {
            auto r = FI.integratePair(F, [&](Base::PhysicalFace<DIM>& x) { return std::make_pair(block(x, Side::LEFT), block(x, Side::RIGHT)); }, R);
            out[side[0]] += r.first;
            out[side[1]] += r.second;
            if (skipRight) out[side[1]] = in[side[1]], skip.insert(side[1]);
        } else
            out[side[0]] += FI.integrate(F, [&](Base::PhysicalFace<DIM>& x) { return block(x, Side::LEFT); }, R);
    }
    for (std::size_t e = 0; e < in.size(); ++e)
        for (std::size_t k = 0; k < in[e].size() && !skip.count(e); ++k) near(re(out[e][k]), re(in[e][k]), mc::str("element ", e, ": integration by parts, entry ", k), 1e-9);
}
// Stokes' theorem for curl-conforming functions
template <std::size_t DIM>
static void curls(Mesh<DIM>& M, int p, bool coyle) {
    if (coyle)
        M.mesh.useAinsworthCoyleDGBasisFunctions(p);
    else
        M.mesh.useNedelecDGBasisFunctions(p);
    Integration::ElementIntegral<DIM> EI;
    Integration::FaceIntegral<DIM> FI;
    EI.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>());
    FI.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>());
    std::vector<MM> in, out;
    for (auto* E : M.el) {
        std::size_t n = E->getNumberOfBasisFunctions();
        in.push_back(EI.integrate(
            E,
            [&](Base::PhysicalElement<DIM>& x) {
                MM r(n, DIM == 2 ? 1 : n);
                for (std::size_t i = 0; i < n; ++i)
                    if (DIM == 2)
                        r(i, 0) = x.basisFunctionCurl(i)[0];
                    else
                        for (std::size_t j = 0; j < n; ++j) {
                            Vec<DIM> a, b;
                            x.basisFunction(i, a);
                            x.basisFunction(j, b);
                            r(i, j) = x.basisFunctionCurl(i) * b - a * x.basisFunctionCurl(j);
                        }
                return r;
            },
            rule<DIM>(E->getReferenceGeometry(), 9)));
        out.push_back(MM(n, DIM == 2 ? 1 : n));
    }
    for (auto* F : M.mesh.getFacesList()) {
        int side[2] = {M.number(F->getPtrElementLeft()), F->isInternal() ? M.number(F->getPtrElementRight()) : -1};
        auto block = [&](Base::PhysicalFace<DIM>& x, Side s) {
            std::size_t n = M.el[side[s == Side::RIGHT]]->getNumberOfBasisFunctions();
            MM r(n, DIM == 2 ? 1 : n);
            double sign = s == Side::RIGHT ? -1 : 1;
            for (std::size_t i = 0; i < n; ++i) {
                Vec<DIM> a, b, c;
                x.basisFunction(s, i, a);
                Vec<DIM> nn = x.getUnitNormalVector();
                if (DIM == 2)
                    r(i, 0) = sign * (nn[0] * a[1] - nn[1] * a[0]);
                else {
                    for (int d = 0; d < 3; ++d) c[d] = sign * (nn[(d + 1) % DIM] * a[(d + 2) % DIM] - nn[(d + 2) % DIM] * a[(d + 1) % DIM]);
                    for (std::size_t j = 0; j < n; ++j) {
                        x.basisFunction(s, j, b);
                        r(i, j) = c * b;
                    }
                }
            }
            return r;
        };
        Rule* R = rule<DIM>(F->getReferenceGeometry(), 9);
        if (F->isInternal()) {
            auto r = FI.integratePair(F, [&](Base::PhysicalFace<DIM>& x) { return std::make_pair(block(x, Side::LEFT), block(x, Side::RIGHT)); }, R);
            out[side[0]] += r.first;
            out[side[1]] += r.second;
        } else
            out[side[0]] += FI.integrate(F, [&](Base::PhysicalFace<DIM>& x) { return block(x, Side::LEFT); }, R);
    }
    for (std::size_t e = 0; e < in.size(); ++e)
        for (std::size_t k = 0; k < in[e].size(); ++k) near(re(out[e][k]), re(in[e][k]), mc::str("element ", e, ": Stokes' theorem, entry ", k), 1e-9);
}
template <std::size_t DIM>
struct Curl {
    static void go(Mesh<DIM>& M, int p, bool c) { curls<DIM>(M, p, c); }
};
template <>
struct Curl<1> {
    static void go(Mesh<1>&, int, bool) {}
};
template <std::size_t DIM>
static void run(const mg::Mesh& m, bool reversed, bool all) {
    bool simplices = DIM > 1, pyramid = false, curved = false;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        simplices = simplices && (m.elems[e].shape == mg::TRI || m.elems[e].shape == mg::TET);
        pyramid = pyramid || m.elems[e].shape == mg::PYR;
        curved = curved || !affineElement(m, e);
    }
    Mesh<DIM> M(m, reversed);
    M.mesh.useDefaultDGBasisFunctions(1);
    int what = mc::choose(all ? 3 : 2, "what");
    if (what == 0) {
        int tr = all ? mc::choose(3, "transformation") : 0;
        int q = curved ? (DIM == 3 ? 1 : 3) : DIM == 3 ? mc::tier(2, 4) : 4;
        geometry<DIM>(M, q, tr, all ? 2 : 1);
        if (curved && DIM == 3) geometry<DIM>(M, 2, tr, 1);  // where a rule is exact for it
    }
    if (what == 1) {
        bool conforming = all ? mc::choose(2, "conforming") : false;
        int p = 1 + mc::choose(pyramid || (!all && !mc::thorough()) ? 1 : DIM == 3 ? 2 : 3, "order");
        byParts<DIM>(M, p, conforming);
    }
    if (what == 2) {
        if (!simplices) throw mc::Prune();
        int p = 1 + mc::choose(mc::tier(2, 3), "order");
        int coyle = DIM == 3 ? mc::choose(2, "space") : 0;
        Curl<DIM>::go(M, p, coyle);
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 3;
    auto P = pairs();
    auto C = mg::catalog(mc::thorough());
    C.push_back(mg::grid(2, mg::pt(3, 1, 1), "t", mg::pt(1, 0), 0));
    C.push_back(mg::grid(3, mg::pt(1, 1, 1), "t", mg::pt(0), 0));
    C.push_back(mg::grid(3, mg::pt(2, 1, 1), "5", mg::pt(0), 0));
    return mc::run([&] {
        int which = mc::choose(P.size() + C.size(), "mesh");
        int fam = mc::choose(3, "coordinates");
        mg::Mesh m;
        bool swap = false;
        if (which < (int)P.size()) {
            const Pair& p = P[which];
            m.dim = p.dim;
            m.elems = p.e;
            m.period = p.period;
            auto& s0 = mg::symmetries(p.e[0].shape);
            auto& s1 = mg::symmetries(p.e[1].shape);
            std::vector<int> lefts;
            std::set<std::vector<int>> seen;
            for (std::size_t k = 0; k < s0.size(); ++k) {
                if (p.dim == 3 && !mc::thorough()) {  // every left face once, and every reflection
                    std::vector<int> f;
                    for (std::size_t j = 0; j < p.e[0].v.size(); ++j)
                        for (auto& w : p.e[1].v)
                            if (p.e[0].v[s0[k][j]] == w) f.push_back(j);
                    mg::Mesh t;
                    t.dim = 3;
                    t.elems = {p.e[0]};
                    t.relabel(0, s0[k]);
                    if (!seen.insert(f).second) continue;
                }
                lefts.push_back(k);
            }
            int a = mc::pick(lefts, "left labelling");
            int b = mc::choose(s1.size(), "right labelling");
            m.relabel(0, s0[a]);
            m.relabel(1, s1[b]);
            swap = mc::choose(2, "swapped");
            if (swap) std::swap(m.elems[0], m.elems[1]);
            mc::note(mc::str(p.name, " coordinates ", fam));
        } else {
            m = C[which - P.size()];
            mc::note(mc::str("mesh ", which - P.size(), " coordinates ", fam));
        }
        bool pyramid = false;
        for (auto& e : m.elems) pyramid = pyramid || e.shape == mg::PYR;
        if (pyramid && fam == 2) throw mc::Prune();
        for (int d = 0; d < m.dim; ++d)
            if (m.period[d] && fam == 2 && m.period[d] % 4) throw mc::Prune();
        m.phi = mg::family(m.dim, fam);
        m.derive();
        std::string key = quarter(m);
        skipRight = false;
        if (!key.empty()) {
            skipRight = !mc::choose(2, "right side of a quarter turn");
            if (!skipRight) mc::setKey(mc::str(key, " ", which < (int)P.size() ? P[which].name : "catalogue"));
        }
        bool all = which >= (int)P.size() || m.dim < 3;
        if (m.dim == 1) run<1>(m, swap, all);
        if (m.dim == 2) run<2>(m, swap, all);
        if (m.dim == 3) run<3>(m, swap, all);
        mc::state(mc::joinChoices());
    });
}
