// C19: element and face views depend only on their current settings.
#include "world.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
using namespace hpgem;
using namespace wd;
using Base::Side;
typedef QuadratureRules::GaussQuadratureRule Rule;
// a transformation that supports everything and depends on the Jacobian and a parameter
template <std::size_t D>
struct Own : Base::CoordinateTransformation<D> {
    double k;
    explicit Own(double k) : k(k) {}
    double transform(double x, const Base::CoordinateTransformationData<D>& d) const override { return k * x + d.getJacobianDet(); }
    Vec<D> transform(Vec<D> x, const Base::CoordinateTransformationData<D>& d) const override { return k * (d.getJacobian() * x); }
    Vec<D> transformDeriv(Vec<D> x, const Base::CoordinateTransformationData<D>& d) const override { return d.getTransposeJacobian() * x + k * x; }
    Vec<D> transformCurl(Vec<D> x, const Base::CoordinateTransformationData<D>& d) const override { return d.getJacobian() * x / d.getJacobianDet() * k; }
    double transformDiv(double x, const Base::CoordinateTransformationData<D>& d) const override { return k * x / d.getJacobianDet(); }
};
template <std::size_t D>
struct Direct : Base::CoordinateTransformationData<D> {  // the data computed without any view
    Geometry::Jacobian<D, D> j, t;
    double det;
    explicit Direct(const Geometry::Jacobian<D, D>& j) : j(j), t(j.transpose()), det(j.determinant()) {}
    const Geometry::Jacobian<D, D>& getJacobian() const override { return j; }
    const Geometry::Jacobian<D, D>& getTransposeJacobian() const override { return t; }
    double getJacobianDet() const override { return det; }
};
template <std::size_t D>
using Trans = std::vector<std::shared_ptr<Base::CoordinateTransformation<D>>>;
static double re(std::complex<double> x) { return x.real() + 3 * x.imag(); }
static double re(double x) { return x; }
typedef std::vector<std::pair<const char*, double>> Dump;
template <std::size_t D>
void put(Dump& d, const char* n, const Vec<D>& v) {
    for (std::size_t i = 0; i < D; ++i) d.push_back({n, v[i]});
}
static void put(Dump& d, const char* n, double v) { d.push_back({n, v}); }
static void put(Dump& d, const char* n, const LinearAlgebra::MiddleSizeVector& v) {
    d.push_back({n, (double)v.size()});
    for (std::size_t i = 0; i < v.size(); ++i) d.push_back({n, re(v[i])});
}
static void put(Dump& d, const char* n, const LinearAlgebra::MiddleSizeMatrix& v) {
    d.push_back({n, (double)v.getNumberOfRows()});
    d.push_back({n, (double)v.getNumberOfColumns()});
    for (std::size_t i = 0; i < v.size(); ++i) d.push_back({n, re(v[i])});
}
static void scribble(LinearAlgebra::MiddleSizeVector& v) {
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = 7. + i;
}
static void scribble(LinearAlgebra::MiddleSizeMatrix& v) {
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = 9. + i;
}
static void same(const Dump& a, const Dump& b, const char* against) {
    std::size_t n = std::min(a.size(), b.size());
    for (std::size_t i = 0; i < n; ++i) {
        mc::require(std::string(a[i].first) == b[i].first, "the number of values of ", a[i].first, " or ", b[i].first, " differs from ", against);
        mc::require(mc::close(a[i].second, b[i].second, 1e-9), a[i].first, " is ", a[i].second, ", ", against, " gives ", b[i].second);
    }
    mc::require(a.size() == b.size(), "another number of values than ", against);
    mc::step(n);
}
template <std::size_t D>
struct Env {
    World<D> w;
    std::vector<std::size_t> internal, boundary;
    std::vector<std::size_t> elements;
    Env() : w(D == 1 ? 2 : 3) {
        auto ord = [](int e, int u) { return u == 0 ? (D == 3 ? 1 : 1 + e % 2) : u == 1 ? (e % 2 ? 1 : D == 3 ? 1 : 2) : -(1 + (e * 2 + 1) % 3); };
        if (D == 1) {
            auto o = [](int e, int u) { return u == 0 ? 1 + e % 3 : 2 + (e + 1) % 3; };
            w.add(mg::grid(1, mg::pt(3, 1, 1), "b", mg::pt(0), 1), o);
            w.add(mg::grid(1, mg::pt(3, 1, 1), "b", mg::pt(1), 0), o);
        } else {
            w.add(D == 2 ? mg::hybrid2(2) : mg::hybrid3(2), ord);
            // a ring of which one third is modelled: the sides of its periodic face are rotated
            mg::Mesh m = mg::grid(D, mg::pt(3, 1, 1), D == 2 ? "bbt" : "bbp", mg::pt(1), 0);
            m.phi = [](const mg::L& p) {
                mg::X x;
                double a = p[0] * .25, r = 1 + .25 * p[1];
                x[0] = r * std::cos(a), x[1] = r * std::sin(a), x[2] = .5 * p[2];
                return x;
            };
            m.derive();
            w.add(m, ord, 1.5);
        }
        for (std::size_t f = 0; f < w.faces.size(); ++f) (w.faces[f]->isInternal() ? internal : boundary).push_back(f);
        // every pair of element kinds once, and the periodic ones
        thin(internal);
        thin(boundary);
        std::set<std::string> seen;
        for (std::size_t e = 0; e < w.el.size(); ++e) {
            std::string k = mc::str((int)w.el[e]->getReferenceGeometry()->getGeometryType(), " ", w.el[e]->getTotalNumberOfBasisFunctions(), " ", e < 2 || e == w.el.size() - 1);
            if (seen.insert(k).second) elements.push_back(e);
        }
    }
    void thin(std::vector<std::size_t>& l) {
        std::vector<std::size_t> r;
        std::set<std::string> seen;
        for (auto f : l) {
            auto* F = w.faces[f];
            std::string k = mc::str(F->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), " ", F->isInternal() ? F->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0, " ",
                                    w.angle[f] != 0, (int)F->getFaceType(), (int)F->getReferenceGeometry()->getGeometryType());
            if (seen.insert(k).second) r.push_back(f);
        }
        // keep the list short: all rotated ones first
        std::stable_sort(r.begin(), r.end(), [&](std::size_t a, std::size_t b) { return (w.angle[a] != 0) > (w.angle[b] != 0); });
        if (r.size() > 6) r.resize(6);
        l = r;
    }
    static Env& get() {
        static Env* e = new Env;
        return *e;
    }
    Trans<D> explicitTransforms() const {
        Trans<D> t;
        t.push_back(std::make_shared<Base::H1ConformingTransformation<D>>());
        t.push_back(std::make_shared<Own<D>>(2.));
        if (D > 1) t.push_back(std::make_shared<Own<D>>(3.));
        return t;
    }
};
template <std::size_t D>
struct Apply {  // transformation of unknown u, or the default one
    const Trans<D>& t;
    const Base::CoordinateTransformation<D>& operator[](std::size_t u) const { return u < t.size() && t[u] ? *t[u] : *t[0]; }
};
// one value of everything of one element at one point, computed without views
template <std::size_t D>
struct Values {
    std::vector<std::vector<double>> val, div;
    std::vector<std::vector<Vec<D>>> grad, vec, curl;
    LinearAlgebra::MiddleSizeVector sol;
    std::vector<Vec<D>> solD;
};
template <std::size_t D>
struct VecValues {
    static void fill(Values<D>& r, const Base::Element* e, const Ref<D>& p, const Apply<D>& t, const Direct<D>& J, std::size_t u) {
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
            Vec<D> v;
            e->basisFunction(i, p, v, u);
            r.vec[u].push_back(t[u].transform(v, J));
            r.curl[u].push_back(t[u].transformCurl(e->basisFunctionCurl(i, p, u), J));
            r.div[u].push_back(t[u].transformDiv(e->basisFunctionDiv(i, p, u), J));
        }
    }
};
template <>
struct VecValues<1> {
    static void fill(Values<1>&, const Base::Element*, const Ref<1>&, const Apply<1>&, const Direct<1>&, std::size_t) {}
};
template <std::size_t D>
Values<D> direct(const Base::Element* e, const Ref<D>& p, const Trans<D>& tr, bool vectors) {
    Apply<D> t{tr};
    Direct<D> J(e->calcJacobian(p));
    std::size_t n = e->getNumberOfUnknowns();
    Values<D> r;
    r.val.resize(n), r.div.resize(n), r.grad.resize(n), r.vec.resize(n), r.curl.resize(n);
    r.sol.resize(n);
    r.solD.resize(n);
    auto c = e->getTimeIntegrationVector(0);
    for (std::size_t u = 0; u < n; ++u) {
        r.sol[u] = 0;
        r.solD[u].set(0);
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
            r.val[u].push_back(t[u].transform(e->basisFunction(i, p, u), J));
            r.grad[u].push_back(t[u].transformDeriv(e->basisFunctionDeriv(i, p, u), J));
            auto k = c[e->convertToSingleIndex(i, u)];
            r.sol[u] += k * r.val[u][i];
            r.solD[u] += std::real(k) * r.grad[u][i];
        }
        if (vectors && u == 2) VecValues<D>::fill(r, e, p, t, J, u);
    }
    return r;
}
template <std::size_t D>
struct ReadVec {
    static void element(Base::PhysicalElement<D>& v, Dump& d, std::size_t u) {
        for (std::size_t i = 0; i < v.getNumberOfBasisFunctions(u); ++i) {
            Vec<D> x;
            v.basisFunction(i, x, u);
            put(d, "a vector value", x);
            put(d, "a curl", v.basisFunctionCurl(i, u));
            put(d, "a divergence", v.basisFunctionDiv(i, u));
        }
    }
    static void cross(Base::PhysicalFace<2>& v, Dump& d, std::size_t i, std::size_t u) {
        Vec<2> x;
        v.basisFunctionUnitNormalCross(i, x, u);
        put(d, "a unit normal cross product", x);
    }
    static void cross(Base::PhysicalFace<3>& v, Dump& d, std::size_t i, std::size_t u) {
        Vec<3> x;
        v.basisFunctionUnitNormalCross(i, x, u);
        put(d, "a unit normal cross product", x);
        v.basisFunctionNormalCross(i, x, u);
        put(d, "a normal cross product", x);
    }
    static void crossSide(Base::PhysicalFace<2>& v, Dump& d, Side s, std::size_t i, std::size_t u) {
        Vec<2> x;
        v.basisFunctionUnitNormalCross(s, i, x, u);
        put(d, "a unit normal cross product of one side", x);
    }
    static void crossSide(Base::PhysicalFace<3>& v, Dump& d, Side s, std::size_t i, std::size_t u) {
        Vec<3> x;
        v.basisFunctionUnitNormalCross(s, i, x, u);
        put(d, "a unit normal cross product of one side", x);
        v.basisFunctionNormalCross(s, i, x, u);
        put(d, "a normal cross product of one side", x);
    }
    static void face(Base::PhysicalFace<D>& v, Dump& d, std::size_t u, std::size_t nl, std::size_t nr) {
        for (std::size_t i = 0; i < nl + nr; ++i) {
            Vec<D> x;
            v.basisFunction(i, x, u);
            put(d, "a vector value", x);
            put(d, "a curl", v.basisFunctionCurl(i, u));
            put(d, "a divergence", v.basisFunctionDiv(i, u));
            cross(v, d, i, u);
        }
        for (int s = 0; s < (nr ? 2 : 1); ++s)
            for (std::size_t i = 0; i < (s ? nr : nl); ++i) {
                Side S = s ? Side::RIGHT : Side::LEFT;
                Vec<D> x;
                v.basisFunction(S, i, x, u);
                put(d, "a vector value of one side", x);
                put(d, "a curl of one side", v.basisFunctionCurl(S, i, u));
                put(d, "a divergence of one side", v.basisFunctionDiv(S, i, u));
                crossSide(v, d, S, i, u);
            }
    }
};
template <>
struct ReadVec<1> {
    static void element(Base::PhysicalElement<1>&, Dump&, std::size_t) {}
    static void face(Base::PhysicalFace<1>&, Dump&, std::size_t, std::size_t, std::size_t) {}
};
template <std::size_t D>
Dump readElement(Base::PhysicalElement<D>& v, bool vectors, int what, bool mark) {
    Dump d;
    std::size_t n = v.getNumberOfUnknowns();
    if (what == 2) {  // only some
        put(d, "", v.getSolution());
        put(d, "", v.getJacobianAbsDet());
        put(d, "", v.basisFunctionDeriv(0, n - 1));
        auto& r = v.getResultVector();
        if (mark) scribble(r);
        return d;
    }
    put(d, "a reference point", v.getPointReference().getCoordinates());
    put(d, "a physical point", v.getPointPhysical().getCoordinates());
    put(d, "the Jacobian determinant", v.getJacobianDet());
    put(d, "the absolute Jacobian determinant", v.getJacobianAbsDet());
    for (std::size_t i = 0; i < D * D; ++i) {
        put(d, "the Jacobian", v.getJacobian()[i]);
        put(d, "the transposed Jacobian", v.getTransposeJacobian()[i]);
        put(d, "the inverse transposed Jacobian", v.getInverseTransposeJacobian()[i]);
    }
    for (std::size_t u = 0; u < n; ++u)
        for (std::size_t i = 0; i < v.getNumberOfBasisFunctions(u); ++i) {
            put(d, "a basis function", v.basisFunction(i, u));
            put(d, "a gradient", v.basisFunctionDeriv(i, u));
            if (u == 0) {
                put(d, "a basis function of the first unknown", v.basisFunction(i));
                put(d, "a gradient of the first unknown", v.basisFunctionDeriv(i));
            }
        }
    if (vectors && n > 2) ReadVec<D>::element(v, d, 2);
    put(d, "the solution", v.getSolution());
    for (auto& x : v.getSolutionDeriv()) put(d, "the gradient of the solution", x);
    auto& m = v.getResultMatrix();
    auto& r = v.getResultVector();
    put(d, "the result matrix", m);
    put(d, "the result vector", r);
    if (mark) scribble(m), scribble(r);
    return d;
}
template <std::size_t D>
Dump directElement(const Base::Element* e, const Ref<D>& p, const Trans<D>& t, bool vectors) {
    Dump d;
    std::size_t n = e->getNumberOfUnknowns();
    auto v = direct<D>(e, p, t, vectors);
    Direct<D> J(e->calcJacobian(p));
    put(d, "a reference point", p.getCoordinates());
    put(d, "a physical point", e->referenceToPhysical(p).getCoordinates());
    put(d, "the Jacobian determinant", J.det);
    put(d, "the absolute Jacobian determinant", std::abs(J.det));
    for (std::size_t i = 0; i < D * D; ++i) {
        put(d, "the Jacobian", J.j[i]);
        put(d, "the transposed Jacobian", J.t[i]);
        put(d, "the inverse transposed Jacobian", J.t.inverse()[i]);
    }
    for (std::size_t u = 0; u < n; ++u)
        for (std::size_t i = 0; i < v.val[u].size(); ++i) {
            put(d, "a basis function", v.val[u][i]);
            put(d, "a gradient", v.grad[u][i]);
            if (u == 0) {
                put(d, "a basis function of the first unknown", v.val[u][i]);
                put(d, "a gradient of the first unknown", v.grad[u][i]);
            }
        }
    if (vectors && n > 2)
        for (std::size_t i = 0; i < v.vec[2].size(); ++i) {
            put(d, "a vector value", v.vec[2][i]);
            put(d, "a curl", v.curl[2][i]);
            put(d, "a divergence", v.div[2][i]);
        }
    put(d, "the solution", v.sol);
    for (auto& x : v.solD) put(d, "the gradient of the solution", x);
    std::size_t N = e->getTotalNumberOfBasisFunctions();
    put(d, "the result matrix", LinearAlgebra::MiddleSizeMatrix(N, N, 0.));
    LinearAlgebra::MiddleSizeVector z(N);
    z *= 0;
    put(d, "the result vector", z);
    return d;
}
template <std::size_t D>
Ref<D> somePoint(int k) {
    Ref<D> p;
    static const double c[2][3] = {{.25, .1875, .125}, {.0625, .5, .3125}};
    for (std::size_t d = 0; d < D; ++d) p[d] = c[k][d];
    return p;
}
template <>
Ref<0> somePoint<0>(int) {
    return Ref<0>();
}
static Rule* someRule(const Geometry::ReferenceGeometry* g, int k) {
    return QuadratureRules::AllGaussQuadratureRules::instance().getRule(g, g->getGeometryType() == Geometry::ReferenceGeometryType::PYRAMID ? 1 + k : 2 + 2 * k);
}
template <std::size_t D>
struct Settings {
    int target = -1;
    Trans<D> t;
    bool ruled = false, located = false, valid = true;
    Rule* rule = nullptr;
    std::size_t index = 0;
    int point = 0;
};
template <std::size_t D>
void elementHistory(int depth) {
    Env<D>& E = Env<D>::get();
    auto& w = E.w;
    bool vectors = mc::choose(2, "transformations") == 0;
    Settings<D> s;
    Base::PhysicalElement<D> view;
    if (vectors) {
        s.t = E.explicitTransforms();
        for (std::size_t u = 0; u < s.t.size(); ++u) view.setTransformation(s.t[u], u);
        mc::note("every unknown has a transformation");
    } else {
        s.t.push_back(std::make_shared<Base::H1ConformingTransformation<D>>());
        mc::note("default transformation");
    }
    int len = 1 + mc::choose(depth, "length");
    for (int k = 0; k < len; ++k) {
        std::vector<std::pair<int, int>> ops;
        for (std::size_t e = 0; e < E.elements.size(); ++e) ops.push_back({0, (int)e});
        ops.push_back({1, 0});
        ops.push_back({1, 1});
        if (s.target >= 0) {
            ops.push_back({2, 0});
            ops.push_back({2, 1});
            if (s.ruled && s.valid) {
                for (std::size_t i : {std::size_t(0), s.rule->getNumberOfPoints() - 1})
                    if (!(i == 0 && s.rule->getNumberOfPoints() == 1)) ops.push_back({3, (int)i});
            }
            ops.push_back({4, 0});
            if (vectors) {
                ops.push_back({4, 1});
                if (D > 1) ops.push_back({4, 2});
            }
        }
        auto o = mc::pick(ops, "operation");
        auto* g = s.target >= 0 ? w.el[E.elements[s.target]]->getReferenceGeometry() : nullptr;
        switch (o.first) {
            case 0: {
                auto* e = w.el[E.elements[o.second]];
                mc::note(mc::str("setElement ", E.elements[o.second]));
                view.setElement(e);
                if (s.ruled && g && e->getReferenceGeometry() != g) s.valid = false;
                s.target = o.second;
                break;
            }
            case 1:
                mc::note(mc::str("setPointReference ", o.second));
                view.setPointReference(somePoint<D>(o.second));
                s.point = o.second, s.ruled = false, s.located = true, s.valid = true;
                break;
            case 2:
                mc::note(mc::str("setQuadratureRule ", o.second));
                s.rule = someRule(g, o.second);
                view.setQuadratureRule(s.rule);
                s.ruled = s.located = s.valid = true, s.index = 0;
                break;
            case 3:
                mc::note(mc::str("setQuadraturePointIndex ", o.second));
                view.setQuadraturePointIndex(o.second);
                s.index = o.second;
                break;
            default: {
                std::size_t u = o.second;
                bool own = !vectors ? false : dynamic_cast<Own<D>*>(s.t[u].get()) != nullptr;
                std::shared_ptr<Base::CoordinateTransformation<D>> t;
                if (!vectors || (u < 2 && !own))
                    t = std::make_shared<Own<D>>(4. + u + k);
                else if (u < 2)
                    t = std::make_shared<Base::H1ConformingTransformation<D>>();
                else
                    t = std::make_shared<Own<D>>(5. + k);
                mc::note(mc::str("setTransformation of unknown ", u));
                view.setTransformation(t, u);
                s.t[u] = t;
            }
        }
        bool readable = s.target >= 0 && s.located && s.valid;
        if (k + 1 < len && readable) {
            int what = mc::choose(3, "reads");
            if (what) {
                mc::note(what == 1 ? "read everything" : "read some");
                readElement(view, vectors, what, true);
            }
        } else if (k + 1 == len && !readable)
            throw mc::Prune();
    }
    Dump got = readElement(view, vectors, 1, false);
    Base::PhysicalElement<D> fresh;
    for (std::size_t u = 0; u < s.t.size(); ++u) fresh.setTransformation(s.t[u], u);
    auto* e = w.el[E.elements[s.target]];
    fresh.setElement(e);
    if (s.ruled) {
        fresh.setQuadratureRule(s.rule);
        fresh.setQuadraturePointIndex(s.index);
    } else
        fresh.setPointReference(somePoint<D>(s.point));
    Ref<D> p = s.ruled ? Ref<D>(s.rule->getPoint(s.index)) : somePoint<D>(s.point);
    same(got, directElement<D>(e, p, s.t, vectors), "the element itself");
    {
        Trans<D> h{std::make_shared<Base::H1ConformingTransformation<D>>()};
        auto v = direct<D>(e, p, h, false);
        Dump a, b;
        put(a, "the solution of the element", e->getSolution(0, p));
        for (auto& x : e->getSolutionGradient(0, p)) put(a, "the solution gradient of the element", x);
        put(b, "the solution of the element", v.sol);
        for (auto& x : v.solD) put(b, "the solution gradient of the element", x);
        same(a, b, "summing its basis functions");
    }
    same(got, readElement(fresh, vectors, 1, false), "a fresh view");
    mc::state(mc::str(D, "E", s.target, s.ruled, s.index, s.point, mc::joinChoices()));
}
// ------------------------------------------------------------------------------------------------------------ faces
template <std::size_t D>
Dump readFace(Base::PhysicalFace<D>& v, bool vectors, int what, bool mark) {
    Dump d;
    auto* f = v.getFace();
    std::size_t n = f->getPtrElementLeft()->getNumberOfUnknowns();
    bool in = f->isInternal();
    if (what == 2) {
        put(d, "", v.getUnitNormalVector());
        put(d, "", v.getSolution(in ? Side::RIGHT : Side::LEFT));
        put(d, "", v.basisFunctionNormal(0, n - 1));
        auto& m = v.getResultMatrix(Side::LEFT, in ? Side::RIGHT : Side::LEFT);
        if (mark) scribble(m);
        return d;
    }
    put(d, "the normal", v.getNormalVector());
    put(d, "the unit normal", v.getUnitNormalVector());
    put(d, "the area", v.getRelativeSurfaceArea());
    put(d, "a physical point", v.getPointPhysical().getCoordinates());
    for (std::size_t u = 0; u < n; ++u) {
        std::size_t nl = f->getPtrElementLeft()->getNumberOfBasisFunctions(u), nr = in ? f->getPtrElementRight()->getNumberOfBasisFunctions(u) : 0;
        for (std::size_t i = 0; i < nl + nr; ++i) {
            put(d, "a basis function", v.basisFunction(i, u));
            put(d, "a gradient", v.basisFunctionDeriv(i, u));
            put(d, "a function times the normal", v.basisFunctionNormal(i, u));
            put(d, "a function times the unit normal", v.basisFunctionUnitNormal(i, u));
            if (u == 0) {
                put(d, "a basis function of the first unknown", v.basisFunction(i));
                put(d, "a function of the first unknown times the normal", v.basisFunctionNormal(i));
                put(d, "a function of the first unknown times the unit normal", v.basisFunctionUnitNormal(i));
            }
        }
        for (int s = 0; s < (in ? 2 : 1); ++s)
            for (std::size_t i = 0; i < (s ? nr : nl); ++i) {
                Side S = s ? Side::RIGHT : Side::LEFT;
                put(d, "a basis function of one side", v.basisFunction(S, i, u));
                put(d, "a gradient of one side", v.basisFunctionDeriv(S, i, u));
                put(d, "a function of one side times the normal", v.basisFunctionNormal(S, i, u));
                put(d, "a function of one side times the unit normal", v.basisFunctionUnitNormal(S, i, u));
                if (u == 0) put(d, "a basis function of one side of the first unknown", v.basisFunction(S, i));
            }
        if (vectors && u == 2) ReadVec<D>::face(v, d, u, nl, nr);
    }
    for (int s = 0; s < (in ? 2 : 1); ++s) {
        Side S = s ? Side::RIGHT : Side::LEFT;
        put(d, "the solution", v.getSolution(S));
        for (auto& x : v.getSolutionDeriv(S)) put(d, "the gradient of the solution", x);
    }
    auto& M = v.getResultMatrix();
    auto& r = v.getResultVector();
    for (int a = 0; a < (in ? 2 : 1); ++a) {
        for (int b = 0; b < (in ? 2 : 1); ++b) {
            Side A = a ? Side::RIGHT : Side::LEFT, B = b ? Side::RIGHT : Side::LEFT;
            auto& m = v.getResultMatrix(A, B);
            put(d, "a result matrix of two sides", m);
            if (mark) scribble(m);
            put(d, "a block of the result matrix", M.getElementMatrix(A, B));
            if (mark) {
                auto X = M.getElementMatrix(A, B);
                scribble(X);
                M.setElementMatrix(X, A, B);
            }
        }
        auto& x = v.getResultVector(a ? Side::RIGHT : Side::LEFT);
        put(d, "a result vector of one side", x);
        if (mark) scribble(x);
    }
    put(d, "the result vector", r);
    if (mark) scribble(r);
    return d;
}
template <std::size_t D>
Vec<D> wedge(const Vec<D>& n, const Vec<D>& v);
template <>
Vec<3> wedge<3>(const Vec<3>& n, const Vec<3>& v) {
    Vec<3> r;
    for (int i = 0; i < 3; ++i) r[i] = n[(i + 1) % 3] * v[(i + 2) % 3] - n[(i + 2) % 3] * v[(i + 1) % 3];
    return r;
}
template <>
Vec<2> wedge<2>(const Vec<2>& n, const Vec<2>& v) {
    Vec<2> r;
    r[0] = n[0] * v[1] - n[1] * v[0];
    r[1] = 0;
    return r;
}
template <>
Vec<1> wedge<1>(const Vec<1>&, const Vec<1>&) {
    return Vec<1>();
}
template <std::size_t D>
void directVectors(Dump& d, const std::vector<Vec<D>>& vec, const std::vector<Vec<D>>& curl, const std::vector<double>& div, const Vec<D>& nv, const Vec<D>& un, std::size_t nl) {
    auto one = [&](std::size_t i, bool side) {
        double sg = i < nl ? 1 : -1;
        put(d, side ? "a vector value of one side" : "a vector value", vec[i]);
        put(d, side ? "a curl of one side" : "a curl", curl[i]);
        put(d, side ? "a divergence of one side" : "a divergence", div[i]);
        put(d, side ? "a unit normal cross product of one side" : "a unit normal cross product", sg * wedge<D>(un, vec[i]));
        if (D == 3) put(d, side ? "a normal cross product of one side" : "a normal cross product", sg * wedge<D>(nv, vec[i]));
    };
    for (std::size_t i = 0; i < vec.size(); ++i) one(i, false);
    for (std::size_t i = 0; i < vec.size(); ++i) one(i, true);
}
template <std::size_t D>
Dump directFace(const Base::Face* f, const Ref<D - 1>& p, const Trans<D>& tr, bool vectors, double angle) {
    Dump d;
    Apply<D> t{tr};
    bool in = f->isInternal();
    std::size_t n = f->getPtrElementLeft()->getNumberOfUnknowns();
    auto L = direct<D>(f->getPtrElementLeft(), f->mapRefFaceToRefElemL(p), tr, vectors);
    Values<D> R;
    if (in) R = direct<D>(f->getPtrElementRight(), f->mapRefFaceToRefElemR(p), tr, vectors);
    Geometry::Jacobian<D, D> rot;
    for (std::size_t i = 0; i < D; ++i)
        for (std::size_t j = 0; j < D; ++j) rot(i, j) = i == j;
    if (D > 1) rot[0] = rot[D + 1] = std::cos(angle), rot[1] = std::sin(angle), rot[D] = -std::sin(angle);  // column major
    Direct<D> rt(rot);
    if (in && angle)
        for (std::size_t u = 0; u < n; ++u) {
            for (auto& x : R.val[u]) x = t[u].transform(x, rt);
            for (auto& x : R.grad[u]) x = t[u].transformDeriv(x, rt);
            for (auto& x : R.vec[u]) x = t[u].transform(x, rt);
            for (auto& x : R.curl[u]) x = t[u].transformCurl(x, rt);
            for (auto& x : R.div[u]) x = t[u].transformDiv(x, rt);
        }
    Vec<D> nv = f->getNormalVector(p);
    Vec<D> un = nv / nv.l2Norm();
    put(d, "the normal", nv);
    put(d, "the unit normal", un);
    put(d, "the area", nv.l2Norm());
    put(d, "a physical point", f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(p)).getCoordinates());
    for (std::size_t u = 0; u < n; ++u) {
        std::size_t nl = L.val[u].size();
        auto val = L.val[u];
        auto grad = L.grad[u];
        if (in) {
            val.insert(val.end(), R.val[u].begin(), R.val[u].end());
            grad.insert(grad.end(), R.grad[u].begin(), R.grad[u].end());
        }
        for (std::size_t i = 0; i < val.size(); ++i) {
            double sg = i < nl ? 1 : -1;
            put(d, "a basis function", val[i]);
            put(d, "a gradient", grad[i]);
            put(d, "a function times the normal", nv * (sg * val[i]));
            put(d, "a function times the unit normal", un * (sg * val[i]));
            if (u == 0) {
                put(d, "a basis function of the first unknown", val[i]);
                put(d, "a function of the first unknown times the normal", nv * (sg * val[i]));
                put(d, "a function of the first unknown times the unit normal", un * (sg * val[i]));
            }
        }
        for (std::size_t i = 0; i < val.size(); ++i) {
            double sg = i < nl ? 1 : -1;
            put(d, "a basis function of one side", val[i]);
            put(d, "a gradient of one side", grad[i]);
            put(d, "a function of one side times the normal", nv * (sg * val[i]));
            put(d, "a function of one side times the unit normal", un * (sg * val[i]));
            if (u == 0) put(d, "a basis function of one side of the first unknown", val[i]);
        }
        if (vectors && u == 2) {
            auto vec = L.vec[u], curl = L.curl[u];
            auto div = L.div[u];
            if (in) {
                vec.insert(vec.end(), R.vec[u].begin(), R.vec[u].end());
                curl.insert(curl.end(), R.curl[u].begin(), R.curl[u].end());
                div.insert(div.end(), R.div[u].begin(), R.div[u].end());
            }
            directVectors<D>(d, vec, curl, div, nv, un, nl);
        }
    }
    for (int s = 0; s < (in ? 2 : 1); ++s) {
        // the traces of the solution are those of the element of that side, in its own coordinates
        auto V = direct<D>(s ? f->getPtrElementRight() : f->getPtrElementLeft(), s ? f->mapRefFaceToRefElemR(p) : f->mapRefFaceToRefElemL(p), tr, false);
        put(d, "the solution", V.sol);
        for (auto& x : V.solD) put(d, "the gradient of the solution", x);
    }
    std::size_t N[2] = {f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), in ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0};
    auto zero = [](std::size_t n) {
        LinearAlgebra::MiddleSizeVector z(n);
        for (std::size_t i = 0; i < n; ++i) z[i] = 0;
        return z;
    };
    for (int a = 0; a < (in ? 2 : 1); ++a) {
        for (int b = 0; b < (in ? 2 : 1); ++b) {
            put(d, "a result matrix of two sides", LinearAlgebra::MiddleSizeMatrix(N[a], N[b], 0.));
            put(d, "a block of the result matrix", LinearAlgebra::MiddleSizeMatrix(N[a], N[b], 0.));
        }
        put(d, "a result vector of one side", zero(N[a]));
    }
    put(d, "the result vector", zero(N[0] + N[1]));
    return d;
}
template <std::size_t D>
void faceHistory(bool in, int depth) {
    Env<D>& E = Env<D>::get();
    auto& w = E.w;
    auto& list = in ? E.internal : E.boundary;
    bool vectors = mc::choose(2, "transformations") == 0;
    Settings<D> s;
    Base::PhysicalFace<D> view(in);
    if (vectors) {
        s.t = E.explicitTransforms();
        for (std::size_t u = 0; u < s.t.size(); ++u) view.setTransform(s.t[u], u);
        mc::note("every unknown has a transformation");
    } else {
        s.t.push_back(std::make_shared<Base::H1ConformingTransformation<D>>());
        mc::note("default transformation");
    }
    int len = 1 + mc::choose(depth, "length");
    for (int k = 0; k < len; ++k) {
        std::vector<std::pair<int, int>> ops;
        for (std::size_t e = 0; e < list.size(); ++e) ops.push_back({0, (int)e});
        ops.push_back({1, 0});
        if (D > 1) ops.push_back({1, 1});
        if (s.target >= 0) {
            ops.push_back({2, 0});
            if (D > 1) ops.push_back({2, 1});
            if (s.rule && s.valid)
                if (s.rule->getNumberOfPoints() > 1) ops.push_back({3, 1}), ops.push_back({3, (int)s.rule->getNumberOfPoints() - 1});
            ops.push_back({4, 0});
            if (vectors) {
                ops.push_back({4, 1});
                if (D > 1) ops.push_back({4, 2});
            }
        }
        auto o = mc::pick(ops, "operation");
        auto* g = s.target >= 0 ? w.faces[list[s.target]]->getReferenceGeometry() : nullptr;
        switch (o.first) {
            case 0: {
                auto* f = w.faces[list[o.second]];
                mc::note(mc::str("setFace ", w.faceName[list[o.second]]));
                view.setFace(f);
                if (s.rule && g && f->getReferenceGeometry() != g) s.valid = false;
                s.target = o.second;
                break;
            }
            case 1:
                mc::note(mc::str("setPointReference ", o.second));
                view.setPointReference(somePoint<D - 1>(o.second));
                s.point = o.second, s.ruled = false, s.located = true;
                break;
            case 2:
                mc::note(mc::str("setQuadratureRule ", o.second));
                s.rule = someRule(g, o.second);
                view.setQuadratureRule(s.rule);
                s.ruled = s.located = s.valid = true, s.index = 0;
                break;
            case 3:
                mc::note(mc::str("setQuadraturePointIndex ", o.second));
                view.setQuadraturePointIndex(o.second);
                s.index = o.second, s.ruled = true, s.located = true;
                break;
            default: {
                std::size_t u = o.second;
                bool own = !vectors ? false : dynamic_cast<Own<D>*>(s.t[u].get()) != nullptr;
                std::shared_ptr<Base::CoordinateTransformation<D>> t;
                if (!vectors || (u < 2 && !own))
                    t = std::make_shared<Own<D>>(4. + u + k);
                else if (u < 2)
                    t = std::make_shared<Base::H1ConformingTransformation<D>>();
                else
                    t = std::make_shared<Own<D>>(5. + k);
                mc::note(mc::str("setTransform of unknown ", u));
                view.setTransform(t, u);
                s.t[u] = t;
            }
        }
        bool readable = s.target >= 0 && s.located && (!s.ruled || s.valid);
        if (k + 1 < len && readable) {
            int what = mc::choose(3, "reads");
            if (what) {
                mc::note(what == 1 ? "read everything" : "read some");
                readFace(view, vectors, what, true);
            }
        } else if (k + 1 == len && !readable)
            throw mc::Prune();
    }
    Dump got = readFace(view, vectors, 1, false);
    Base::PhysicalFace<D> fresh(in);
    for (std::size_t u = 0; u < s.t.size(); ++u) fresh.setTransform(s.t[u], u);
    auto* f = w.faces[list[s.target]];
    fresh.setFace(f);
    if (s.ruled) {
        fresh.setQuadratureRule(s.rule);
        fresh.setQuadraturePointIndex(s.index);
    } else
        fresh.setPointReference(somePoint<D - 1>(s.point));
    Ref<D - 1> p = s.ruled ? Ref<D - 1>(s.rule->getPoint(s.index)) : somePoint<D - 1>(s.point);
    same(got, directFace<D>(f, p, s.t, vectors, w.angle[list[s.target]]), "the face itself");
    same(got, readFace(fresh, vectors, 1, false), "a fresh view");
    mc::state(mc::str(D, "F", in, mc::joinChoices()));
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    return mc::run([&] {
        int view = mc::choose(3, "view"), dim = mc::choose(3, "dimension") + 1;
        mc::note(mc::str(view == 0 ? "element" : view == 1 ? "internal face" : "boundary face", " view in ", dim, "D"));
        int depth = mc::tier(4, 5);
        if (dim == 1) view == 0 ? elementHistory<1>(depth) : faceHistory<1>(view == 1, depth + 1);
        if (dim == 2) view == 0 ? elementHistory<2>(depth) : faceHistory<2>(view == 1, depth);
        if (dim == 3) depth = mc::tier(3, 5);
        if (dim == 3) view == 0 ? elementHistory<3>(depth) : faceHistory<3>(view == 1, depth);
    });
}
