// C32: the steady-state interface solves exactly the system that its integrands define, for every partitioning and history of solves.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include <unistd.h>
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/MpiContainer.h"
#include "Base/CommandLineOptions.h"
using namespace hpgem;
typedef LinearAlgebra::MiddleSizeVector Values;
typedef LinearAlgebra::MiddleSizeMatrix Matrix;
typedef std::vector<double> D;
typedef std::map<int, D> Seen;
// what can be asked of the interface in one solve
struct Kind {
    int operatorKind, data;  // 0: diffusion, 1: advection-reaction with coupled unknowns; which right-hand sides and coefficients
    Kind(int c = 0) : operatorKind(c % 2), data(c / 2) {}
    int code() const { return operatorKind + 2 * data; }
    bool elementSource() const { return data != 1; }  // 0: both, 1: faces only, 2: elements only
    bool faceSource() const { return data != 2; }
};
static const int kinds = 6;
struct Setting {
    mg::Mesh m;
    std::size_t unknowns, order;
    bool flags;  // tell the interface which source terms there are
    std::string fn;
};
// ---- the formulas, in terms of values, gradients and the unit normal only
template <std::size_t DIM>
struct Trace {
    std::size_t var;
    double value;
    LinearAlgebra::SmallVector<DIM> grad, normal;  // normal out of the element of this function
};
template <std::size_t DIM>
struct Form {
    Kind k;
    typedef Geometry::PointPhysical<DIM> P;
    static double at(const P& p, double s) {
        double r = s;
        for (std::size_t d = 0; d < DIM; ++d) r += (0.2 + 0.3 * d) * p[d];
        return r;
    }
    double element(const Trace<DIM>& u, const Trace<DIM>& w, const P& p) const {  // u: solution, w: test function
        double r = 0, scale = 1 + 0.5 * k.data;
        if (u.var == w.var) {
            if (k.operatorKind == 0)
                r += scale * (u.grad * w.grad) + (0.5 + 0.1 * std::cos(at(p, 0))) * u.value * w.value;
            else {
                for (std::size_t d = 0; d < DIM; ++d) r += (0.3 - 0.5 * d) * u.grad[d] * w.value;
                r += (3 + scale) * u.value * w.value;
            }
        } else
            r += (0.2 + 0.4 * u.var) * u.value * w.value;
        return r;
    }
    double face(const Trace<DIM>& u, const Trace<DIM>& w, const P& p, bool internal) const {
        double half = internal ? 0.5 : 1, jump = u.value * w.value * (u.normal * w.normal), r = 0;
        if (u.var == w.var) {
            if (k.operatorKind == 0)
                r += -half * (u.grad * w.normal) * w.value - 0.75 * half * (w.grad * u.normal) * u.value + (30 + 2 * k.data) * jump;
            else
                r += (1.5 + 0.1 * at(p, k.data)) * jump;
        } else
            r += 0.25 * (1 + u.var) * jump;
        return r;
    }
    double source(const P& p, std::size_t v) const { return std::sin(at(p, 1 + v)) + k.data; }
    double faceSource(const Trace<DIM>& w, const P& p, bool internal) const {
        double g = std::cos(at(p, w.var));
        if (internal) return 0.3 * (1 + k.data) * w.value + 0.1 * g * (w.normal[0] + 0.5 * w.normal[DIM - 1]) * w.value;
        return g * (2 * w.value - (w.grad * w.normal));
    }
    double exact(const P& p, std::size_t v) const { return at(p, v); }
};
// ---- the program of a user
template <std::size_t DIM>
struct Program : Base::HpgemAPILinearSteadyState<DIM> {
    typedef Base::HpgemAPILinearSteadyState<DIM> Base_;
    Form<DIM> f;
    bool flags;
    std::size_t unasked = 0;
    Program(const Setting& s, Kind first)
        : Base_(s.unknowns, s.order, !s.flags || first.elementSource(), !s.flags || first.faceSource()), f{first}, flags(s.flags) {
        this->setWriteTecOutput(false);
        this->setWriteVTK(false);
    }
    static Trace<DIM> trace(Base::PhysicalElement<DIM>& e, std::size_t i, std::size_t v) {
        return {v, e.basisFunction(i, v), e.basisFunctionDeriv(i, v), {}};
    }
    Matrix computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<DIM>& e) override {
        Matrix& r = e.getResultMatrix();
        std::size_t n = this->configData_->numberOfUnknowns_;
        for (std::size_t v = 0; v < n; ++v)
            for (std::size_t i = 0; i < e.getElement()->getNumberOfBasisFunctions(v); ++i)
                for (std::size_t q = 0; q < n; ++q)
                    for (std::size_t j = 0; j < e.getElement()->getNumberOfBasisFunctions(q); ++j)
                        r(e.convertToSingleIndex(i, v), e.convertToSingleIndex(j, q)) = -f.element(trace(e, j, q), trace(e, i, v), e.getPointPhysical());
        return r;
    }
    struct Fn {
        Trace<DIM> t;
        std::size_t at;
    };
    std::vector<Fn> functions(Base::PhysicalFace<DIM>& fc) {
        std::vector<Fn> r;
        for (int s = 0; s < (fc.isInternal() ? 2 : 1); ++s) {
            Base::Side side = s ? Base::Side::RIGHT : Base::Side::LEFT;
            const Base::Element* e = fc.getFace()->getPtrElement(side);
            for (std::size_t v = 0; v < this->configData_->numberOfUnknowns_; ++v)
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) {
                    LinearAlgebra::SmallVector<DIM> nrm = fc.getUnitNormalVector();
                    if (s) nrm *= -1.;
                    r.push_back({{v, fc.basisFunction(side, i, v), fc.basisFunctionDeriv(side, i, v), nrm}, fc.convertToSingleIndex(side, i, v)});
                }
        }
        return r;
    }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<DIM>& fc) override {
        Base::FaceMatrix& r = fc.getResultMatrix();
        auto fs = functions(fc);
        for (auto& w : fs)
            for (auto& u : fs) r(w.at, u.at) = -f.face(u.t, w.t, fc.getPointPhysical(), fc.isInternal());
        return r;
    }
    Values getSourceTerm(const Geometry::PointPhysical<DIM>& p) override {
        if (flags && !f.k.elementSource()) ++unasked;
        Values r(this->configData_->numberOfUnknowns_);
        for (std::size_t v = 0; v < r.size(); ++v) r[v] = f.k.elementSource() ? f.source(p, v) : 0;
        return r;
    }
    Values computeIntegrandSourceTermAtFace(Base::PhysicalFace<DIM>& fc) override {
        if (flags && !f.k.faceSource()) ++unasked;
        Values& r = fc.getResultVector();
        if (f.k.faceSource())
            for (auto& w : functions(fc)) r[w.at] = f.faceSource(w.t, fc.getPointPhysical(), fc.isInternal());
        return r;
    }
    Values getExactSolution(const Geometry::PointPhysical<DIM>& p) override {
        Values r(this->configData_->numberOfUnknowns_);
        for (std::size_t v = 0; v < r.size(); ++v) r[v] = f.exact(p, v);
        return r;
    }
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    std::size_t where() const { return this->solutionVectorId_; }
};
template <std::size_t DIM>
int indexOf(const mg::Mesh& m, const Base::Element* e) {
    auto* g = e->getPhysicalGeometry();
    std::vector<mg::X> x;
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
        x.emplace_back();
        for (std::size_t d = 0; d < 3; ++d) x.back()[d] = d < DIM ? p[d < DIM ? d : 0] : 0;
    }
    int r = dist::findElement(m, x);
    mc::require(r >= 0, "element ", e->getID(), " is not in the mesh file");
    return r;
}
static void put(dist::Blob& b, const Seen& s) {
    b.i(s.size());
    for (auto& e : s) {
        b.i(e.first);
        b.i(e.second.size());
        for (double z : e.second) b.d(z);
    }
}
static Seen get(dist::Blob& b) {
    Seen r;
    for (long n = b.gi(); n > 0; --n) {
        int id = b.gi();
        D& v = r[id];
        v.resize(b.gi());
        for (double& x : v) x = b.gd();
    }
    return r;
}
// ---- the reference: a dense system from the formulas, with the quadrature rules of the elements and faces
template <std::size_t DIM>
Seen alone(const Setting& s, Kind k) {
    Program<DIM> api(s, k);
    api.readMesh(s.fn);
    Form<DIM> f{k};
    std::map<const Base::Element*, std::size_t> start;
    std::size_t n = 0;
    for (auto* e : api.mesh().getElementsList()) {
        start[e] = n;
        n += e->getTotalNumberOfBasisFunctions();
    }
    std::vector<PetscScalar> a(n * n, 0.), b(n, 0.);
    struct Fn {
        Trace<DIM> t;
        std::size_t at;
    };
    auto collect = [&](const Base::Element* e, const Geometry::PointReference<DIM>& p, const LinearAlgebra::SmallVector<DIM>& nrm, std::vector<Fn>& r) {
        // gradient: solve J^T g = reference gradient by Cramer's rule on the columns of the Jacobian
        auto J = e->calcJacobian(p);
        double M[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        for (std::size_t i = 0; i < DIM; ++i)
            for (std::size_t j = 0; j < DIM; ++j) M[i][j] = J(i, j);  // dx_i / dxi_j
        auto det = [&](double m[3][3]) {
            return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        };
        double T[3][3];
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) T[i][j] = M[j][i];
        for (std::size_t v = 0; v < s.unknowns; ++v)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) {
                Fn fn;
                fn.t.var = v;
                fn.t.value = e->basisFunction(i, p, v);
                fn.t.normal = nrm;
                LinearAlgebra::SmallVector<DIM> ref = e->basisFunctionDeriv(i, p, v);
                // basisFunctionDeriv of an element is the derivative with respect to the reference coordinates
                for (std::size_t d = 0; d < DIM; ++d) {
                    double U[3][3];
                    for (int x = 0; x < 3; ++x)
                        for (int y = 0; y < 3; ++y) U[x][y] = y == int(d) ? (x < int(DIM) ? ref[x] : 0) : T[x][y];
                    fn.t.grad[d] = det(U) / det(T);
                }
                fn.at = start.at(e) + e->convertToSingleIndex(i, v);
                r.push_back(fn);
            }
        return std::abs(det(M));
    };
    for (auto* e : api.mesh().getElementsList()) {
        auto* q = e->getGaussQuadratureRule();
        for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
            Geometry::PointReference<DIM> p = q->getPoint(i);
            std::vector<Fn> fs;
            double w = q->weight(i) * collect(e, p, {}, fs);
            Geometry::PointPhysical<DIM> x = e->referenceToPhysical(p);
            for (auto& t : fs) {
                for (auto& u : fs) a[t.at * n + u.at] += w * f.element(u.t, t.t, x);
                if (k.elementSource()) b[t.at] += w * f.source(x, t.t.var) * t.t.value;
            }
        }
    }
    std::set<const Base::Face*> done;
    for (auto* e : api.mesh().getElementsList())
        for (const Base::Face* fc : e->getFacesList()) {
            if (!done.insert(fc).second) continue;
            auto* q = fc->getGaussQuadratureRule();
            for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
                Geometry::PointReference<DIM - 1> p = q->getPoint(i);
                LinearAlgebra::SmallVector<DIM> nrm = fc->getNormalVector(p);
                double area = 0;
                for (std::size_t d = 0; d < DIM; ++d) area += nrm[d] * nrm[d];
                area = std::sqrt(area);
                nrm *= 1 / area;
                std::vector<Fn> fs;
                collect(fc->getPtrElementLeft(), fc->mapRefFaceToRefElemL(p), nrm, fs);
                if (fc->isInternal()) {
                    LinearAlgebra::SmallVector<DIM> other = nrm;
                    other *= -1.;
                    collect(fc->getPtrElementRight(), fc->mapRefFaceToRefElemR(p), other, fs);
                }
                Geometry::PointPhysical<DIM> x = fc->referenceToPhysical(p);
                double w = q->weight(i) * area;
                for (auto& t : fs) {
                    for (auto& u : fs) a[t.at * n + u.at] += w * f.face(u.t, t.t, x, fc->isInternal());
                    if (k.faceSource()) b[t.at] += w * f.faceSource(t.t, x, fc->isInternal());
                }
            }
        }
    fakepetsc::eliminate(a, b);
    Seen r;
    for (auto& p : start) {
        D v(b.begin() + p.second, b.begin() + p.second + p.first->getTotalNumberOfBasisFunctions());
        r[indexOf<DIM>(s.m, p.first)] = v;
    }
    return r;
}
// ---- a history of solves in one program
template <std::size_t DIM>
std::string history(const Setting& s, const std::vector<Kind>& ks, int errors) {
    Program<DIM> api(s, ks[0]);
    api.readMesh(s.fn);
    dist::Blob b;
    for (std::size_t i = 0; i < ks.size(); ++i) {
        api.f.k = ks[i];
        api.solveSteadyStateWithPetsc(errors);
        mc::require(!api.unasked, "a source term that does not exist is asked for");
        Seen own, near;
        for (auto* e : api.mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            const Values& x = e->getTimeIntegrationVector(api.where());
            D v(x.size());
            for (std::size_t j = 0; j < v.size(); ++j) v[j] = x[j];
            // the solution that users evaluate
            auto& center = e->getReferenceGeometry()->getCenter();
            const Geometry::PointReference<DIM> c(center);
            Values u = e->getSolution(api.where(), c);
            for (std::size_t q = 0; q < s.unknowns; ++q) {
                double sum = 0;
                for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(q); ++j) sum += v.at(e->convertToSingleIndex(j, q)) * e->basisFunction(j, c, q);
                mc::requireClose(u[q], sum, 1e-10, "solution at the centre of element ", e->getID());
            }
            (e->isOwnedByCurrentProcessor() ? own : near)[indexOf<DIM>(s.m, e)] = v;
        }
        put(b, own);
        put(b, near);
    }
    return b.s;
}
static const Seen& reference(const Setting& s, Kind k) {
    static std::map<std::string, Seen> known;
    std::string key = mc::str(s.m.name, "/", s.unknowns, s.order, "/", k.code());
    auto it = known.find(key);
    if (it != known.end()) return it->second;
    Setting one = s;
    one.fn = "r" + s.fn;
    s.m.write(one.fn, std::vector<int>(s.m.elems.size(), 0), 1);
    Seen r;
    mcmpi::explore(
        1, mcmpi::Options(),
        [&](int) {
            dist::Blob b;
            put(b, s.m.dim == 1 ? alone<1>(one, k) : s.m.dim == 2 ? alone<2>(one, k) : alone<3>(one, k));
            return b.s;
        },
        [&](const std::vector<std::string>& res) {
            dist::Blob b;
            b.s = res[0];
            r = get(b);
        });
    unlink(one.fn.c_str());
    mc::require(r.size() == s.m.elems.size(), "harness: reference with ", r.size(), " elements");
    return known[key] = r;
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("s", getpid(), ".hpgem");
    static const std::vector<std::pair<std::size_t, std::size_t>> sizes = {{1, 1}, {2, 1}, {1, 2}, {2, 0}};
    int rc = mc::run([&] {
        Setting s;
        int im = mc::choose(cat.size(), "mesh");
        s.m = cat[im];
        s.m.name = mc::str(im, s.m.name);
        mc::note(s.m.name);
        s.fn = fn;
        std::size_t n = s.m.elems.size(), iz = mc::choose(sizes.size(), "unknowns and order");
        s.unknowns = sizes[iz].first;
        s.order = sizes[iz].second;
        bool pyr = false;
        for (auto& e : s.m.elems) pyr = pyr || e.shape == mg::PYR;
        if (pyr && s.order > 1) throw mc::Prune();
        int P = 1 + mc::choose(3, "P-1");
        const std::size_t limit[] = {0, 99, mc::thorough() ? 6u : 4u, mc::thorough() ? 4u : 3u};
        if (n > limit[P]) throw mc::Prune();
        auto ps = mg::chooseParts(n, P);
        if (!mc::thorough() && P > 2)
            for (int p = 0; p < P; ++p)
                if (!std::count(ps.begin(), ps.end(), p)) throw mc::Prune();
        s.flags = mc::choose(2, "tell which sources there are");
        int length = 1 + mc::choose(s.flags ? 1 : P == 1 ? 3 : 2, "length-1");
        if (!mc::thorough()) {
            if (length == 3 && im > 1) throw mc::Prune();
            if (length == 2 && (P > 2 || s.m.dim == 3 || (P == 2 && n > 3))) throw mc::Prune();
            if (P > 1 && (im + ps[0] + iz) % 2 != std::size_t(s.flags) && s.m.dim > 1) throw mc::Prune();
        }
        std::vector<Kind> ks;
        for (int i = 0; i < length; ++i) ks.emplace_back(mc::choose(kinds, "problem"));
        int errors = length == 1 ? mc::choose(2, "compute the error") : 0;
        if (errors && P > 1 && !mc::thorough() && ks[0].data) throw mc::Prune();
        s.m.write(fn, ps, P);
        mcmpi::Options o;
        o.mode = (ks[0].code() + ps[0]) % 2;
        mcmpi::explore(
            P, o,
            [&](int) { return s.m.dim == 1 ? history<1>(s, ks, errors) : s.m.dim == 2 ? history<2>(s, ks, errors) : history<3>(s, ks, errors); },
            [&](const std::vector<std::string>& res) {
                std::vector<Seen> all(ks.size());
                std::vector<std::pair<int, Seen>> near;
                for (auto& r : res) {
                    dist::Blob b;
                    b.s = r;
                    for (std::size_t k = 0; k < ks.size(); ++k) {
                        for (auto& e : get(b)) mc::require(all[k].insert(e).second, "two processes own element ", e.first);
                        near.emplace_back(k, get(b));
                    }
                }
                for (auto& q : near)
                    for (auto& e : q.second) mc::require(e.second == all[q.first][e.first], "a neighbouring process has other coefficients of element ", e.first);
                for (std::size_t k = 0; k < ks.size(); ++k) {
                    auto& want = reference(s, ks[k]);
                    double scale = 0;
                    for (auto& e : want)
                        for (double z : e.second) scale = std::max(scale, std::abs(z));
                    mc::require(all[k].size() == want.size(), "solution ", k, " has ", all[k].size(), " elements");
                    for (auto& e : want) {
                        auto& got = all[k][e.first];
                        mc::require(got.size() == e.second.size(), "element ", e.first, " of solution ", k, " has ", got.size(), " values instead of ", e.second.size());
                        for (std::size_t i = 0; i < got.size(); ++i) {
                            mc::step();
                            mc::require(std::abs(got[i] - e.second[i]) < 1e-8 * scale, "solve ", k, " of ", ks.size(), " (problem ", ks[k].code(), "): coefficient ", i, " of element ",
                                        e.first, " is ", got[i], " instead of ", e.second[i]);
                        }
                    }
                    mc::outcome(mc::str(ks[k].code(), "/", int(scale * 1e3)));
                }
                mc::state(mc::joinChoices());
            });
    });
    unlink(fn.c_str());
    return rc;
}
