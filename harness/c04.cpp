// C04: explicit time stepping gives the same solution for every partitioning, and it is the Runge-Kutta method that was asked for.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include <dirent.h>
#include <sys/stat.h>
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/MpiContainer.h"
#include "Base/CommandLineOptions.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
using namespace hpgem;
typedef LinearAlgebra::MiddleSizeVector Vec;
typedef LinearAlgebra::MiddleSizeMatrix Mat;
typedef std::vector<double> D;
struct Method {
    const char* name;
    std::size_t order, stages;
    bool tvd;
};
static const std::vector<Method> methods = {{"forward Euler", 1, 1, true}, {"mid point", 2, 2, false}, {"TVD 2", 2, 2, true}, {"TVD 3", 3, 3, true},
                                            {"classical 4", 4, 4, false}, {"Dormand-Prince", 5, 7, false}, {"Bogacki-Shampine", 3, 4, false}};
static const TimeIntegration::ButcherTableau* rule(const Method& m) {
    return TimeIntegration::AllTimeIntegrators::Instance().getRule(m.order, m.stages, m.tvd);
}
// ---- rooted trees
struct Tree {
    std::vector<Tree> kids;
    int size() const {
        int n = 1;
        for (auto& k : kids) n += k.size();
        return n;
    }
    double gamma() const {
        double g = size();
        for (auto& k : kids) g *= k.gamma();
        return g;
    }
    std::string name() const {
        std::string s = "[";
        for (auto& k : kids) s += k.name();
        return s + "]";
    }
    D phi(const TimeIntegration::ButcherTableau* t) const {  // product over the children of (A phi(child))
        std::size_t n = t->getNumberOfStages();
        D r(n, 1);
        for (auto& k : kids) {
            D p = k.phi(t);
            for (std::size_t i = 0; i < n; ++i) {
                double s = 0;
                for (std::size_t j = 0; j < i; ++j) s += t->getA(i, j) * p[j];
                r[i] *= s;
            }
        }
        return r;
    }
};
static void trees(int n, std::vector<std::vector<Tree>>& all) {
    all.assign(n + 1, {});
    for (int s = 1; s <= n; ++s) {
        std::set<std::string> seen;
        // multisets of smaller trees with s-1 nodes, as sequences in a fixed order of the trees
        std::vector<Tree> small;
        for (int k = 1; k < s; ++k) small.insert(small.end(), all[k].begin(), all[k].end());
        std::function<void(Tree, int, std::size_t)> grow = [&](Tree t, int left, std::size_t from) {
            if (!left) {
                if (seen.insert(t.name()).second) all[s].push_back(t);
                return;
            }
            for (std::size_t i = from; i < small.size(); ++i)
                if (small[i].size() <= left) {
                    Tree u = t;
                    u.kids.push_back(small[i]);
                    grow(u, left - small[i].size(), i);
                }
        };
        grow(Tree{}, s - 1, 0);
    }
}
static void tableau(const Method& m) {
    auto* t = rule(m);
    mc::require(t->getOrder() == m.order && t->getNumberOfStages() == m.stages && t->getTotalVariationDiminishing() == m.tvd, "the rule of order ",
                m.order, " with ", m.stages, " stages is not the one that was asked for");
    std::size_t n = m.stages;
    for (std::size_t i = 0; i < n; ++i) {
        double s = 0;
        for (std::size_t j = 0; j < i; ++j) s += t->getA(i, j);
        mc::requireClose(t->getC(i), s, 1e-14, "stage time ", i);
    }
    std::vector<std::vector<Tree>> all;
    trees(5, all);
    static const std::size_t known[] = {0, 1, 1, 2, 4, 9};
    for (int s = 1; s <= 5; ++s) mc::require(all[s].size() == known[s], "harness: ", all[s].size(), " trees of order ", s);
    for (std::size_t s = 1; s <= m.order; ++s)
        for (auto& tr : all[s]) {
            D p = tr.phi(t);
            double sum = 0, emb = 0;
            for (std::size_t i = 0; i < n; ++i) {
                sum += t->getB(i) * p[i];
                if (t->hasErrorEstimate()) emb += t->getErrorCoefficient(i) * p[i];
            }
            mc::step();
            mc::state(m.name + tr.name());
            mc::requireClose(sum, 1 / tr.gamma(), 1e-12, m.name, ": order condition of tree ", tr.name());
            if (t->hasErrorEstimate() && s < m.order) mc::requireClose(emb, 0, 1e-12, m.name, ": embedded order condition of tree ", tr.name());
        }
    if (t->hasErrorEstimate()) {  // the estimate is not vacuous
        double worst = 0;
        for (auto& tr : all[m.order]) {
            D p = tr.phi(t);
            double emb = 0;
            for (std::size_t i = 0; i < n; ++i) emb += t->getErrorCoefficient(i) * p[i];
            worst = std::max(worst, std::abs(emb));
        }
        mc::require(worst > 1e-6, m.name, ": the error estimate does not see errors of the order of the method");
    }
    if (m.tvd) {  // absolutely monotonic at r = 1/2: a convex combination of Euler steps of half the size
        const double r = 0.5;
        std::size_t N = n + 1;
        std::vector<D> K(N, D(N, 0)), X(N, D(N, 0));
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j) K[i][j] = t->getA(i, j);
        for (std::size_t j = 0; j < n; ++j) K[n][j] = t->getB(j);
        // X (I + rK) = K  <=>  X = K - r X K, lower triangular
        for (std::size_t it = 0; it < N; ++it) {
            auto Y = K;
            for (std::size_t i = 0; i < N; ++i)
                for (std::size_t j = 0; j < N; ++j)
                    for (std::size_t k = 0; k < N; ++k) Y[i][j] -= r * X[i][k] * K[k][j];
            X = Y;
        }
        for (std::size_t i = 0; i < N; ++i) {
            double s = 0;
            for (std::size_t j = 0; j < N; ++j) {
                mc::require(X[i][j] > -1e-13, m.name, " is not total variation diminishing");
                s += X[i][j];
            }
            mc::require(r * s < 1 + 1e-13, m.name, " is not total variation diminishing");
        }
    }
}

// ---- the test problem
struct Setup {
    int kind;  // 0: one side of a face at a time, 1: both sides together, 2: HpgemAPILinear, 3: the same with source terms
    std::size_t unknowns, order;
    const Method* method;
};
template <std::size_t DIM>
double h(const Base::Element* e) {
    auto* g = e->getPhysicalGeometry();
    double r = 0;
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
        for (std::size_t d = 0; d < DIM; ++d) r += p[d] * (1 + 0.4 * d) / g->getNumberOfNodes();
    }
    return r * 0.1;
}
static void solveDense(std::vector<D> a, D& b) {
    std::size_t n = b.size();
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k; i < n; ++i)
            if (std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
        std::swap(a[p], a[k]);
        std::swap(b[p], b[k]);
        for (std::size_t i = k + 1; i < n; ++i) {
            double f = a[i][k] / a[k][k];
            for (std::size_t j = k; j < n; ++j) a[i][j] -= f * a[k][j];
            b[i] -= f * b[k];
        }
    }
    for (std::size_t k = n; k-- > 0;) {
        for (std::size_t j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j];
        b[k] /= a[k][k];
    }
}
template <std::size_t DIM, class F>
void quadPoints(const Base::Element* e, const QuadratureRules::GaussQuadratureRule* q, F fn) {
    for (std::size_t k = 0; k < q->getNumberOfPoints(); ++k) {
        Geometry::PointReference<DIM> p = q->getPoint(k);
        fn(p, q->weight(k) * std::abs(e->calcJacobian(p).determinant()));
    }
}
template <std::size_t DIM>
std::vector<D> massOf(const Base::Element* e) {
    std::size_t n = e->getTotalNumberOfBasisFunctions();
    std::vector<D> M(n, D(n, 0.));
    quadPoints<DIM>(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<DIM>& p, double w) {
        for (std::size_t v = 0; v < e->getNumberOfUnknowns(); ++v)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i)
                for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(v); ++j)
                    M[e->convertToSingleIndex(i, v)][e->convertToSingleIndex(j, v)] += w * e->basisFunction(i, p, v) * e->basisFunction(j, p, v);
    });
    return M;
}
// small enough for all time steps to be stable after multiplication with the inverse mass matrix
template <std::size_t DIM>
double scaleOf(const Base::Element* e) {
    static std::map<const Base::Element*, double> cache;
    auto it = cache.find(e);
    if (it != cache.end()) return it->second;
    auto M = massOf<DIM>(e);
    D rows(M.size(), 0.);
    for (std::size_t j = 0; j < M.size(); ++j) {
        D u(M.size(), 0.);
        u[j] = 1;
        solveDense(M, u);
        for (std::size_t i = 0; i < M.size(); ++i) rows[i] += std::abs(u[i]);
    }
    return cache[e] = 1 / *std::max_element(rows.begin(), rows.end());
}
template <std::size_t DIM>
double initial(const Geometry::PointPhysical<DIM>& p, double t, std::size_t v, std::size_t order) {
    double r = 1 + v + 0.25 * t;
    for (std::size_t d = 0; d < DIM; ++d) r += (0.3 + 0.1 * d + 0.05 * v) * p[d];
    if (order > 1) r += 0.02 * p[0] * p[0];
    return r;
}
template <std::size_t DIM>
double exact(const Geometry::PointPhysical<DIM>& p, double t, std::size_t v) {
    return initial<DIM>(p, t, v, 2) + 0.1 * std::sin(p[0] + t);
}
template <std::size_t DIM>
struct Formulas {
    bool linear;
    static double scale(const Base::Element* e) { return scaleOf<DIM>(e); }
    static double c(const Base::Element* e) { return 0.3 + 0.2 * h<DIM>(e); }
    static double w(const Base::Element* a, const Base::Element* b) { return 0.02 + 0.01 * (h<DIM>(a) + h<DIM>(b)); }
    template <class V>
    void element(const Base::Element* e, const V& u, double t, D& r) const {
        for (std::size_t i = 0; i < r.size(); ++i) {
            double x = std::real(u[i]);
            r[i] += scale(e) * (-c(e) * x + (linear ? 0 : 0.05 * std::sin(x) + t * 0.1 * (i + 1) * h<DIM>(e)));
        }
    }
    template <class V>
    void face(const Base::Element* self, const Base::Element* other, const V& us, const V& uo, double t, D& r) const {
        for (std::size_t i = 0; i < r.size(); ++i)
            r[i] += scale(self) * w(self, other) * (linear ? 1 : 1 + t) * (std::real(uo[i % uo.size()]) - std::real(us[i]));
    }
    template <class V>
    void boundary(const Base::Element* e, const V& u, double t, D& r) const {
        for (std::size_t i = 0; i < r.size(); ++i) r[i] += scale(e) * 0.05 * (1 + h<DIM>(e)) * ((linear ? 0 : t) - std::real(u[i]));
    }
};
inline Vec toVec(const D& d) {
    Vec v(d.size());
    for (std::size_t i = 0; i < d.size(); ++i) v[i] = d[i];
    return v;
}
template <std::size_t DIM, class BASE>
struct Common : BASE {
    using BASE::BASE;
    std::size_t order_ = 1;
    std::vector<double> progress, frames;
    Vec getInitialSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t) override {
        Vec r(this->configData_->numberOfUnknowns_);
        for (std::size_t v = 0; v < r.size(); ++v) r[v] = initial<DIM>(p, t, v, order_);
        return r;
    }
    Vec getExactSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t) override {
        Vec r(this->configData_->numberOfUnknowns_);
        for (std::size_t v = 0; v < r.size(); ++v) r[v] = exact<DIM>(p, t, v);
        return r;
    }
    void showProgress(const double t, const std::size_t) override { progress.push_back(t); }
    void VTKWrite(Output::VTKTimeDependentWriter<DIM>& out, double t, std::size_t id) override {
        frames.push_back(t);
        BASE::VTKWrite(out, t, id);
    }
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
};
template <std::size_t DIM>
struct Simple : Common<DIM, Base::HpgemAPISimplified<DIM>> {
    Formulas<DIM> f{false};
    Simple(const Setup& s) : Common<DIM, Base::HpgemAPISimplified<DIM>>(s.unknowns, s.order, rule(*s.method), 1, s.kind == 1) { this->order_ = s.order; }
    Vec computeRightHandSideAtElement(Base::Element* e, const Vec& u, const double t) override {
        D r(e->getTotalNumberOfBasisFunctions(), 0.);
        f.element(e, u, t, r);
        return toVec(r);
    }
    Vec computeRightHandSideAtFace(Base::Face* fc, Vec& u, const double t) override {
        D r(fc->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), 0.);
        f.boundary(fc->getPtrElementLeft(), u, t, r);
        return toVec(r);
    }
    Vec computeRightHandSideAtFace(Base::Face* fc, const Base::Side s, Vec& l, Vec& r, const double t) override {
        const Base::Element *a = fc->getPtrElement(s), *b = fc->getPtrElement(s == Base::Side::LEFT ? Base::Side::RIGHT : Base::Side::LEFT);
        D x(a->getTotalNumberOfBasisFunctions(), 0.);
        f.face(a, b, s == Base::Side::LEFT ? l : r, s == Base::Side::LEFT ? r : l, t, x);
        return toVec(x);
    }
    std::pair<Vec, Vec> computeBothRightHandSidesAtFace(Base::Face* fc, Vec& l, Vec& r, const double t) override {
        return {computeRightHandSideAtFace(fc, Base::Side::LEFT, l, r, t), computeRightHandSideAtFace(fc, Base::Side::RIGHT, l, r, t)};
    }
};
template <std::size_t DIM>
struct Linear : Common<DIM, Base::HpgemAPILinear<DIM>> {
    Formulas<DIM> f{true};
    Linear(const Setup& s) : Common<DIM, Base::HpgemAPILinear<DIM>>(s.unknowns, s.order, rule(*s.method), 1, s.kind == 3, s.kind == 3) { this->order_ = s.order; }
    Mat computeStiffnessMatrixAtElement(Base::Element* e) override {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        Mat m(n, n, 0.);
        for (std::size_t i = 0; i < n; ++i) m(i, i) = -f.scale(e) * f.c(e);
        return m;
    }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* fc) override {
        const Base::Element* a = fc->getPtrElementLeft();
        std::size_t n = a->getTotalNumberOfBasisFunctions();
        if (!fc->isInternal()) {
            Base::FaceMatrix m(n, 0);
            Mat x(n, n, 0.);
            for (std::size_t i = 0; i < n; ++i) x(i, i) = -f.scale(a) * 0.05 * (1 + h<DIM>(a));
            m.setElementMatrix(x, Base::Side::LEFT, Base::Side::LEFT);
            return m;
        }
        const Base::Element* b = fc->getPtrElementRight();
        std::size_t k = b->getTotalNumberOfBasisFunctions();
        Base::FaceMatrix m(n, k);
        double w = f.w(a, b);
        Mat ll(n, n, 0.), lr(n, k, 0.), rl(k, n, 0.), rr(k, k, 0.);
        for (std::size_t i = 0; i < n; ++i) {
            ll(i, i) = -w * f.scale(a);
            lr(i, i % k) = w * f.scale(a);
        }
        for (std::size_t i = 0; i < k; ++i) {
            rr(i, i) = -w * f.scale(b);
            rl(i, i % n) = w * f.scale(b);
        }
        m.setElementMatrix(ll, Base::Side::LEFT, Base::Side::LEFT);
        m.setElementMatrix(lr, Base::Side::LEFT, Base::Side::RIGHT);
        m.setElementMatrix(rl, Base::Side::RIGHT, Base::Side::LEFT);
        m.setElementMatrix(rr, Base::Side::RIGHT, Base::Side::RIGHT);
        return m;
    }
    Vec getSourceTerm(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t) override {
        Vec r(this->configData_->numberOfUnknowns_);
        for (std::size_t v = 0; v < r.size(); ++v) r[v] = 0.1 * t * initial<DIM>(p, t, v, this->order_);
        return r;
    }
    Vec integrateSourceTermAtFace(Base::Face* fc, const double t, const std::size_t) override {
        std::size_t n = fc->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
        Vec r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = f.scale(fc->getPtrElementLeft()) * t * 0.05 * (i + 1) * h<DIM>(fc->getPtrElementLeft());
        return r;
    }
};
// ---- an independent integration on the whole mesh
typedef std::map<const Base::Element*, D> Field;
template <std::size_t DIM>
struct Reference {
    Base::MeshManipulator<DIM>& mesh;
    const Setup& s;
    Formulas<DIM> f;
    std::map<const Base::Element*, std::vector<D>> mass;
    Reference(Base::MeshManipulator<DIM>& m, const Setup& s) : mesh(m), s(s), f{s.kind >= 2} {
        for (auto* e : mesh.getElementsList()) {
            mass[e] = massOf<DIM>(e);
        }
    }
    template <class F>
    void points(const Base::Element* e, const QuadratureRules::GaussQuadratureRule* q, F fn) {
        quadPoints<DIM>(e, q, fn);
    }
    template <class F>
    Field project(F g) {
        Field r;
        for (auto* e : mesh.getElementsList()) r[e] = moments(e, g);
        for (auto& p : r) solveDense(mass[p.first], p.second);
        return r;
    }
    template <class F>
    D moments(const Base::Element* e, F g) {
        D b(e->getTotalNumberOfBasisFunctions(), 0.);
        points(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<DIM>& p, double w) {
            Geometry::PointPhysical<DIM> x = e->referenceToPhysical(p);
            for (std::size_t v = 0; v < s.unknowns; ++v)
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) b[e->convertToSingleIndex(i, v)] += w * e->basisFunction(i, p, v) * g(x, v);
        });
        return b;
    }
    Field rhs(const Field& u, double t) {
        Field r;
        for (auto* e : mesh.getElementsList()) {
            D x(u.at(e).size(), 0.);
            f.element(e, u.at(e), t, x);
            if (s.kind == 3) {
                D m = moments(e, [&](const Geometry::PointPhysical<DIM>& p, std::size_t v) { return 0.1 * t * initial<DIM>(p, t, v, s.order); });
                for (std::size_t i = 0; i < x.size(); ++i) x[i] += m[i];
            }
            for (auto* fc : e->getFacesList()) {
                if (!fc->isInternal()) {
                    f.boundary(e, u.at(e), t, x);
                    if (s.kind == 3)
                        for (std::size_t i = 0; i < x.size(); ++i) x[i] += f.scale(e) * t * 0.05 * (i + 1) * h<DIM>(e);
                    continue;
                }
                const Base::Element* o = fc->getPtrElementLeft() == e ? fc->getPtrElementRight() : fc->getPtrElementLeft();
                f.face(e, o, u.at(e), u.at(o), t, x);
            }
            r[e] = x;
        }
        return r;
    }
    Field derivative(const Field& u, double t) {
        Field r = rhs(u, t);
        for (auto& p : r) solveDense(mass[p.first], p.second);
        return r;
    }
    static void axpy(Field& y, double a, const Field& x) {
        for (auto& p : y)
            for (std::size_t i = 0; i < p.second.size(); ++i) p.second[i] += a * x.at(p.first)[i];
    }
    std::vector<Field> k;
    Field stepped(const Field& u, double t, double dt) {
        auto* tb = rule(*s.method);
        k.clear();
        for (std::size_t i = 0; i < tb->getNumberOfStages(); ++i) {
            Field y = u;
            for (std::size_t j = 0; j < i; ++j) axpy(y, dt * tb->getA(i, j), k[j]);
            k.push_back(derivative(y, t + tb->getC(i) * dt));
        }
        Field r = u;
        for (std::size_t i = 0; i < k.size(); ++i) axpy(r, dt * tb->getB(i), k[i]);
        return r;
    }
    double errorOfStep(double dt) {
        auto* tb = rule(*s.method);
        double e = 0;
        Field d = k[0];
        for (auto& p : d) std::fill(p.second.begin(), p.second.end(), 0.);
        for (std::size_t i = 0; i < k.size(); ++i) axpy(d, dt * tb->getErrorCoefficient(i), k[i]);
        for (auto& p : d)
            for (double x : p.second) e += x * x;
        return std::sqrt(e);
    }
    void compare(const char* what, const Field& ref, std::size_t vec) {
        for (auto& p : ref) {
            const Vec& x = p.first->getTimeIntegrationVector(vec);
            mc::require(x.size() == p.second.size(), what, ": ", x.size(), " coefficients");
            for (std::size_t i = 0; i < x.size(); ++i) mc::requireClose(std::real(x[i]), p.second[i], 1e-9, what, ": coefficient ", i);
        }
    }
};
template <std::size_t DIM, class API>
std::string history(API& api, const std::string& fn, const Setup& s, bool all) {
    api.readMesh(fn);
    auto& mesh = api.mesh();
    auto* tb = rule(*s.method);
    const bool lin = s.kind >= 2;
    if (lin) api.tasksBeforeSolving();
    std::unique_ptr<Reference<DIM>> ref;
    if (all) ref.reset(new Reference<DIM>(mesh, s));
    dist::Blob b;
    std::vector<Base::Element*> els;
    for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) els.push_back(e);
    b.i(els.size());
    for (auto* e : els) {
        b.i(e->isOwnedByCurrentProcessor());
        auto* g = e->getPhysicalGeometry();
        b.i(g->getNumberOfNodes());
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
            const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
            for (std::size_t d = 0; d < 3; ++d) b.d(d < DIM ? p[d < DIM ? d : 0] : 0);
        }
    }
    auto dump = [&](const char* what, std::vector<std::size_t> vecs, D scalars = {}) {
        b.str(what);
        b.i(scalars.size());
        for (double x : scalars) b.d(x);
        b.i(vecs.size());
        for (auto* e : els)
            for (auto v : vecs) {
                const Vec& x = e->getTimeIntegrationVector(v);
                b.i(x.size());
                for (std::size_t i = 0; i < x.size(); ++i) b.d(std::real(x[i]));
            }
    };
    Field u, du;
    double t = 0.5;
    api.setInitialSolution(0, t, 0);
    dump("initial solution", {0});
    if (ref) {
        u = ref->project([&](const Geometry::PointPhysical<DIM>& p, std::size_t v) { return initial<DIM>(p, t, v, s.order); });
        ref->compare("initial solution", u, 0);
    }
    api.computeTimeDerivative(0, 1, t);
    dump("time derivative", {0, 1});
    if (ref) ref->compare("time derivative", du = ref->derivative(u, t), 1);
    api.computeRightHandSide(0, 1, t);
    dump("right hand side", {1});
    if (ref) ref->compare("right hand side", ref->rhs(u, t), 1);
    for (double dt : {0.125, 0.0625}) {
        double before = t;
        api.computeOneTimeStep(t, dt);
        mc::requireClose(t, before + dt, 1e-14, "time after a step");
        std::vector<std::size_t> vs{0};
        for (std::size_t i = 1; i <= tb->getNumberOfStages(); ++i) vs.push_back(i);
        dump("time step", vs, {t});
        if (ref) {
            u = ref->stepped(u, before, dt);
            ref->compare("time step", u, 0);
        }
    }
    if (tb->hasErrorEstimate()) {
        auto en = api.computeErrorAndNormOfUpdate(0.0625);
        dump("error of the update", {}, {std::get<0>(en), std::get<1>(en)});
        if (ref) {
            mc::requireClose(std::get<0>(en), ref->errorOfStep(0.0625), 1e-9, "error of the update");
            mc::require(std::get<1>(en) > 0, "norm of the update is ", std::get<1>(en));
        }
        for (double tol : {1e-2, 1e-9, 1e-3}) {
            double before = t;
            api.computeOneTimeStep(t, tol, 0.25);
            double dt = t - before;
            dump("adaptive step", {0}, {t});
            mc::require(dt > 0 && dt <= 0.25 + 1e-14, "adaptive step of size ", dt);
            if (ref) {
                u = ref->stepped(u, before, dt);
                ref->compare("adaptive step", u, 0);
                double norm = 0;
                for (auto& p : u) {
                    double q = 0;
                    for (double x : p.second) q += x * x;
                    norm += std::sqrt(q);
                }
                mc::require(ref->errorOfStep(dt) <= tol * norm * (1 + 1e-6) + 1e-15, "adaptive step accepted an error of ", ref->errorOfStep(dt),
                            " with tolerance ", tol);
            }
        }
    }
    double err = std::real(api.computeTotalError(0, t));
    Vec mx = api.computeMaxError(0, t);
    D sc{err};
    for (std::size_t i = 0; i < mx.size(); ++i) sc.push_back(std::real(mx[i]));
    dump("errors", {}, sc);
    if (ref) {
        double e2 = 0;
        D m(s.unknowns, 0.);
        for (auto* e : els) {
            auto value = [&](const Geometry::PointReference<DIM>& p, std::size_t v) {
                double x = -exact<DIM>(e->referenceToPhysical(p), t, v);
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) x += u[e][e->convertToSingleIndex(i, v)] * e->basisFunction(i, p, v);
                return x;
            };
            auto* q = QuadratureRules::AllGaussQuadratureRules::instance().getRule(e->getReferenceGeometry(), 2 * s.order + 2);
            ref->points(e, q, [&](const Geometry::PointReference<DIM>& p, double w) {
                for (std::size_t v = 0; v < s.unknowns; ++v) e2 += w * value(p, v) * value(p, v);
            });
            ref->points(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<DIM>& p, double) {
                for (std::size_t v = 0; v < s.unknowns; ++v) m[v] = std::max(m[v], std::abs(value(p, v)));
            });
        }
        // the rule for the total error may be changed: it integrates a smooth function
        mc::requireClose(err, std::sqrt(e2), 1e-3, "total error");
        for (std::size_t v = 0; v < s.unknowns; ++v) mc::requireClose(sc[v + 1], m[v], 1e-9, "maximal error of unknown ", v);
    }
    // the result may not be one of the inputs (documented)
    std::size_t to = tb->getNumberOfStages() == 1 ? 1 : 2;
    if (to == 1)
        api.computeTimeDerivative(std::vector<std::size_t>{0}, {0.75}, 1, t);
    else
        api.computeTimeDerivative({0, 1}, {0.5, 0.25}, to, t);
    dump("derivative of a combination", {to});
    api.scaleVector(1, -0.75);
    dump("scaled", {1});
    api.scaleAndAddVector(to, 1, 1.5);
    dump("scaled and added", {to});
    api.copyTimeIntegrationToTimeLevelData(to, 0);
    api.scaleVector(to, 0.);
    api.copyTimeLevelToTimeIntegrationData(0, 1);
    api.synchronize(1);
    dump("copied through a time level", {0, 1});
    return b.s;
}
struct Solve {
    double T, dt;
    std::size_t frames;
    double error;
};
template <std::size_t DIM>
std::string runSolve(const std::string& fn, const Setup& s, const Solve& v, const std::string& out) {
    static std::vector<std::string> args{"c04"};
    if (v.error > 0) {
        args.push_back("--error");
        args.push_back(mc::str(v.error));
    }
    std::vector<char*> av;
    for (auto& a : args) av.push_back(&a[0]);
    Base::parse_options(av.size(), av.data());
    Simple<DIM> api(s);
    api.readMesh(fn);
    api.setOutputFileName(out);
    const double t0 = 0.25;
    api.solve(t0, t0 + v.T, v.dt, v.frames, true);
    dist::Blob b;
    b.i(api.progress.size());
    for (double x : api.progress) b.d(x);
    b.i(api.frames.size());
    for (double x : api.frames) b.d(x);
    mc::require(!api.progress.empty(), "no time steps");
    double last = t0;
    for (double x : api.progress) {
        mc::require(x > last, "time does not increase");
        mc::require(x - last <= v.dt * (1 + 1e-9) || v.error > 0, "a step of size ", x - last, " with maximum ", v.dt);
        last = x;
    }
    mc::requireClose(last, t0 + v.T, 1e-11, "the final time");
    mc::require(api.frames.size() == v.frames + 1, api.frames.size(), " frames instead of the initial one and ", v.frames);
    for (std::size_t i = 0; i < api.frames.size(); ++i) {
        mc::require(std::abs(api.frames[i] - (t0 + i * v.T / std::max<std::size_t>(v.frames, 1))) < 1e-9 * v.T, "frame ", i, " is written at time ", api.frames[i]);
    }
    if (mcmpi::rank() == 0 && Base::MPIContainer::Instance().getNumberOfProcessors() == 1 && v.error <= 0) {
        Reference<DIM> ref(api.mesh(), s);
        Field u = ref.project([&](const Geometry::PointPhysical<DIM>& p, std::size_t k) { return initial<DIM>(p, t0, k, s.order); });
        double t = t0;
        for (double x : api.progress) {
            u = ref.stepped(u, t, x - t);
            t = x;
        }
        ref.compare("solution at the end", u, 0);
    }
    std::vector<Base::Element*> els;
    for (auto* e : api.mesh().getElementsList()) {
        const Vec& x = e->getTimeIntegrationVector(0);
        for (std::size_t i = 0; i < x.size(); ++i) b.d(std::real(x[i]));
    }
    return b.s;
}
template <std::size_t DIM>
std::string body(const std::string& fn, const Setup& s, bool all) {
    if (s.kind < 2) {
        Simple<DIM> a(s);
        return history<DIM>(a, fn, s, all);
    }
    Linear<DIM> a(s);
    return history<DIM>(a, fn, s, all);
}
struct Rec {
    std::string what;
    D scalars;
    std::map<int, std::vector<D>> at;  // mesh element -> vectors
};
struct Parsed {
    std::map<int, bool> owned;
    std::vector<Rec> recs;
};
static Parsed parse(const mg::Mesh& m, const std::string& s) {
    dist::Blob b(s);
    Parsed r;
    std::vector<int> ids(b.gi());
    for (auto& id : ids) {
        bool own = b.gi();
        std::vector<mg::X> x(b.gi());
        for (auto& p : x)
            for (int d = 0; d < 3; ++d) p[d] = b.gd();
        id = dist::findElement(m, x);
        mc::require(id >= 0, "an element that is not in the mesh");
        r.owned[id] = own;
    }
    while (!b.end()) {
        Rec q;
        q.what = b.gstr();
        q.scalars.resize(b.gi());
        for (auto& x : q.scalars) x = b.gd();
        std::size_t nv = b.gi();
        for (int id : ids) {
            q.at[id].resize(nv);
            for (auto& v : q.at[id]) {
                v.resize(b.gi());
                for (auto& x : v) x = b.gd();
            }
        }
        r.recs.push_back(q);
    }
    return r;
}
static void removeFiles(const std::string& prefix) {
    if (DIR* d = opendir(".")) {
        while (auto* e = readdir(d))
            if (!strncmp(e->d_name, prefix.c_str(), prefix.size())) unlink(e->d_name);
        closedir(d);
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem"), out = mc::str("o", getpid(), "_");
    auto run = [&](const mg::Mesh& m, int P, int mode, const std::function<std::string(int)>& f, std::vector<std::string>& res) {
        mcmpi::Options o;
        o.mode = mode;
        mcmpi::explore(P, o, f, [&](const std::vector<std::string>& r) {
            std::string all;
            for (auto& x : r) {
                all += x;
                mc::state(x);
            }
            mc::outcome(all);
            res = r;
        });
    };
    std::string cachedKey;
    Parsed cached;
    int rc = mc::run([&] {
        int part = mc::choose(3, "part");
        const Method& me = mc::pick(methods, "method");
        mc::note(me.name);
        if (part == 0) {
            tableau(me);
            return;
        }
        if (part == 1) {
            static const std::vector<std::pair<std::size_t, std::size_t>> sizes = {{1, 1}, {2, 1}, {1, 2}, {2, 0}};
            Setup s;
            s.method = &me;
            s.kind = mc::choose(4, "interface");
            const mg::Mesh& m = mc::pick(cat, "mesh");
            mc::note(m.name);
            std::size_t n = m.elems.size();
            int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
            const std::size_t limit[] = {0, 99, mc::thorough() ? 6u : 4u, mc::thorough() ? 4u : 3u, 3};
            if (n > limit[P]) throw mc::Prune();
            std::size_t im = &me - &methods[0], iz = mc::choose(sizes.size(), "unknowns and order");
            bool pyr = false;
            for (auto& e : m.elems) pyr = pyr || e.shape == mg::PYR;
            if (pyr && sizes[iz].second > 1) throw mc::Prune();
            // quick: every pair of method and interface, the sizes in turn
            if (!mc::thorough() && P > 1 && iz != (im + s.kind) % 4) throw mc::Prune();
            s.unknowns = sizes[iz].first;
            s.order = sizes[iz].second;
            auto parts = mg::chooseParts(n, P);
            if (P > 1)
                for (int p = 0; p < P; ++p)
                    if (!mc::thorough() && P > 2 && !std::count(parts.begin(), parts.end(), p)) throw mc::Prune();
            auto f = [&](bool all) {
                return [&, all](int) { return m.dim == 1 ? body<1>(fn, s, all) : m.dim == 2 ? body<2>(fn, s, all) : body<3>(fn, s, all); };
            };
            std::string key = mc::str(m.name, "/", &m - &cat[0], "/", im, "/", s.kind, "/", iz);
            std::vector<std::string> res;
            if (cachedKey != key) {
                m.write(fn, std::vector<int>(n, 0), 1);
                run(m, 1, 0, f(true), res);
                cached = parse(m, res[0]);
                cachedKey = key;
            }
            if (P == 1) return;
            m.write(fn, parts, P);
            for (int mode = 0; mode < 2; ++mode) {
                if (!mc::thorough() && mode != int((im + s.kind + parts[0]) % 2)) continue;
                run(m, P, mode, f(false), res);
                for (int p = 0; p < P; ++p) {
                    Parsed q = parse(m, res[p]);
                    mc::require(q.recs.size() == cached.recs.size(), "process ", p, " made ", q.recs.size(), " records");
                    for (std::size_t k = 0; k < q.recs.size(); ++k) {
                        auto &a = q.recs[k], &c = cached.recs[k];
                        mc::require(a.what == c.what && a.scalars.size() == c.scalars.size(), "other history");
                        for (std::size_t i = 0; i < a.scalars.size(); ++i)
                            mc::requireClose(a.scalars[i], c.scalars[i], 1e-8, a.what, " (step ", k, "), number ", i, " on process ", p, " of ", P);
                        for (auto& e : a.at)
                            for (std::size_t v = 0; v < e.second.size(); ++v) {
                                const D &x = e.second[v], &y = c.at.at(e.first)[v];
                                mc::require(x.size() == y.size(), a.what, ": number of coefficients");
                                for (std::size_t i = 0; i < x.size(); ++i)
                                    mc::requireClose(x[i], y[i], 1e-8, a.what, " (step ", k, ", vector ", v, "): element ", e.first,
                                                     q.owned[e.first] ? " (owned)" : " (ghost)", " on process ", p, " of ", P);
                            }
                    }
                }
            }
            return;
        }
        // the complete solver loop
        static const std::vector<Solve> solves = {{1, 0.25, 1, 0}, {1, 0.3, 0, 0}, {1, 0.3, 1, 0}, {1, 0.3, 2, 0}, {1, 0.1, 3, 0}, {0.7, 0.1, 7, 0}, {10, 0.01, 1, 0},
                                                  {10, 0.01, 0, 0}, {0.05, 0.5, 1, 0}, {0.05, 0.5, 3, 0}, {1, 0.5, 1, 1e-3}, {1, 0.5, 3, 1e-4}, {1, 0.01, 2, 1e-6}};
        const Solve& v = mc::pick(solves, "times");
        mc::note(mc::str("T=", v.T, " dt=", v.dt, " frames=", v.frames, " error=", v.error));
        if (v.error > 0 && !rule(me)->hasErrorEstimate()) throw mc::Prune();
        if (v.T / v.dt > 100 && &me - &methods[0] > 0) throw mc::Prune();
        int P = 1 + mc::choose(mc::tier(2, 3), "P-1");
        static const std::vector<mg::Mesh> ms = {mg::grid(1, mg::pt(3, 1, 1), "b"), mg::grid(2, mg::pt(1, 1, 1), "t"), mg::grid(3, mg::pt(2, 1, 1), "b", mg::pt(0), 1)};
        const mg::Mesh& m = mc::pick(ms, "mesh");
        if (v.T / v.dt > 100 && m.dim > 1) throw mc::Prune();
        auto parts = mg::chooseParts(m.elems.size(), P);
        m.write(fn, parts, P);
        Setup s{0, 1, 1, &me};
        std::vector<std::string> res;
        run(m, P, 0, [&](int) { return m.dim == 1 ? runSolve<1>(fn, s, v, out) : m.dim == 2 ? runSolve<2>(fn, s, v, out) : runSolve<3>(fn, s, v, out); }, res);
        removeFiles(out);
    });
    unlink(fn.c_str());
    removeFiles(out);
    return rc;
}
