// C33: Maxwell's equations in time: every stored solution is that of the chosen scheme at the time it is said to belong to.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "petscksp.h"
#include "DGMaxProgramUtils.h"
#include "ElementInfos.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DGMaxTimeIntegration.h"
#include <unistd.h>
using namespace hpgem;
typedef std::complex<double> Z;
typedef DGMax::AbstractDiscretizationBase B;
static const std::vector<std::string> zoneNames = {"Main", "layer"};
struct Setting {
    mg::Mesh m;
    int order, dielectric;
    std::string fn;
    double eps(int zone) const { return dielectric ? (zone ? 1.5 : 2.25) : 1.; }
};
// one call of the solver
struct Call {
    int method = 0, steps = 0, stride = 1, terms = 0, lossy = 0;
    double tau() const { return method ? 0.06 : 0.02; }
};
template <std::size_t D>
static std::array<double, 3> three(const Geometry::PointPhysical<D>& p) {
    std::array<double, 3> r{{0, 0, 0}};
    for (std::size_t d = 0; d < D; ++d) r[d] = p[d];
    return r;
}
template <std::size_t D>
static LinearAlgebra::SmallVector<D> given(const std::array<double, 3>& x, int which) {
    LinearAlgebra::SmallVector<D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = 0.4 + 0.3 * d + which * 0.7 + 0.6 * x[(d + 1) % D] - 0.2 * x[d] * which;
    return r;
}
template <std::size_t D>
struct Problem : SeparableTimeIntegrationProblem<D> {
    Call c;
    explicit Problem(const Call& c) : c(c) {}
    typedef LinearAlgebra::SmallVector<D> V;
    V initialCondition(const Geometry::PointPhysical<D>& p) const override { return given<D>(three<D>(p), 0); }
    V initialConditionDerivative(const Geometry::PointPhysical<D>& p) const override { return given<D>(three<D>(p), 1); }
    V sourceTermRef(const Geometry::PointPhysical<D>& p) const override { return given<D>(three<D>(p), 2); }
    V boundaryConditionRef(Base::PhysicalFace<D>& f) const override { return given<D>(three<D>(f.getPointPhysical()), 3); }
    double timeScalingSource(double t) const override { return c.terms & 1 ? 3 + 5 * t - 40 * t * t : 0; }
    double timeScalingBoundary(double t) const override { return c.terms & 2 ? std::cos(9 * t) - 0.5 : 0; }
    double conductivity() const override { return c.lossy ? 4. : 0.; }
};
template <std::size_t D>
int indexOf(const mg::Mesh& m, const Base::Element* e) {
    std::vector<mg::X> x;
    auto* g = e->getPhysicalGeometry();
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<D>& p = g->getLocalNodeCoordinates(i);
        x.emplace_back();
        for (std::size_t d = 0; d < 3; ++d) x.back()[d] = d < D ? p[d < D ? d : 0] : 0;
    }
    int r = dist::findElement(m, x);
    mc::require(r >= 0, "element ", e->getID(), " is not in the mesh file");
    return r;
}
template <std::size_t D>
struct World {
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<D>> mesh;
    std::vector<std::unique_ptr<Base::UserData>> own;
    explicit World(const Setting& s) : config(1, 1) {
        auto structure = DGMax::determineStructureDescription(mc::str("Main,", s.eps(0), ";layer,", s.eps(1)), D);
        mesh = DGMax::readMesh<D>(s.fn, &config, *structure, DGMaxDiscretization<D>(s.order, 5).getNumberOfElementMatrices());
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) own.emplace_back(e->getUserData());
    }
    ~World() {
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) e->setUserData(nullptr);
    }
};
// what one call leaves: the times of the stored solutions and, per element, the coefficients of each
struct Kept {
    std::vector<double> times;
    std::map<int, std::vector<std::vector<Z>>> levels;
};
static void put(dist::Blob& b, const Kept& k) {
    b.i(k.times.size());
    for (double t : k.times) b.d(t);
    b.i(k.levels.size());
    for (auto& e : k.levels) {
        b.i(e.first);
        b.i(e.second.size());
        for (auto& v : e.second) {
            b.i(v.size());
            for (Z z : v) {
                b.d(z.real());
                b.d(z.imag());
            }
        }
    }
}
static Kept get(dist::Blob& b) {
    Kept k;
    k.times.resize(b.gi());
    for (auto& t : k.times) t = b.gd();
    int n = b.gi();
    for (int i = 0; i < n; ++i) {
        int e = b.gi();
        auto& l = k.levels[e];
        l.resize(b.gi());
        for (auto& v : l) {
            v.resize(b.gi());
            for (auto& z : v) {
                double x = b.gd(), y = b.gd();
                z = Z(x, y);
            }
        }
    }
    return k;
}
template <std::size_t D>
std::string history(const Setting& s, const std::vector<Call>& calls) {
    World<D> w(s);
    DGMaxTimeIntegration<D> solver(*w.mesh, s.order, 5);
    dist::Blob out;
    for (const Call& c : calls) {
        Problem<D> problem(c);
        TimeIntegrationParameters<D> p;
        p.method = c.method ? DGMaxTimeIntegration<D>::CO4 : DGMaxTimeIntegration<D>::CO2;
        p.stab = 5;
        p.timeStepSize = c.tau();
        p.numberOfSteps = c.steps;
        p.snapshotStride = c.stride;
        solver.solve(problem, p);
        Kept k;
        // the times, as told to the exact solution of an error computation
        solver.printErrors(
            {DGMaxDiscretizationBase::L2},
            [&](const Geometry::PointPhysical<D>&, double t) {
                if (k.times.empty() || k.times.back() != t) k.times.push_back(t);
                return LinearAlgebra::SmallVectorC<D>();
            },
            [](const Geometry::PointPhysical<D>&, double) { return LinearAlgebra::SmallVectorC<D>(); });
        for (Base::Element* e : w.mesh->getElementsList()) {
            auto& l = k.levels[indexOf<D>(s.m, e)];
            for (std::size_t t = 0; t < std::min(k.times.size(), e->getNumberOfTimeIntegrationVectors()); ++t) {
                l.emplace_back();
                auto& v = e->getTimeIntegrationVector(t);
                for (std::size_t i = 0; i < v.size(); ++i) l.back().push_back(v[i]);
            }
        }
        put(out, k);
    }
    return out.s;
}
// the matrices and vectors of the problem, from a mesh of its own
struct System {
    std::vector<int> first;  // per element
    std::size_t n = 0;
    std::vector<Z> mass, stiff, source, boundary, start, derivative;
};
static void putAll(dist::Blob& b, const System& s) {
    b.i(s.first.size());
    for (int i : s.first) b.i(i);
    b.i(s.n);
    for (auto* v : {&s.mass, &s.stiff, &s.source, &s.boundary, &s.start, &s.derivative}) {
        b.i(v->size());
        for (Z z : *v) {
            b.d(z.real());
            b.d(z.imag());
        }
    }
}
static System getAll(const std::string& text) {
    dist::Blob b(text);
    System s;
    s.first.resize(b.gi());
    for (int& i : s.first) i = b.gi();
    s.n = b.gi();
    for (auto* v : {&s.mass, &s.stiff, &s.source, &s.boundary, &s.start, &s.derivative}) {
        v->resize(b.gi());
        for (Z& z : *v) {
            double x = b.gd(), y = b.gd();
            z = Z(x, y);
        }
    }
    return s;
}
template <std::size_t D>
std::string system(const Setting& s) {
    World<D> w(s);
    DGMaxDiscretization<D> d(s.order, 5);
    Problem<D> problem((Call()));
    d.initializeBasisFunctions(*w.mesh);
    std::map<const Base::Element*, int> index;
    for (Base::Element* e : w.mesh->getElementsList()) index[e] = indexOf<D>(s.m, e);
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::InputFunction> ev;
    typedef const Geometry::PointPhysical<D>& P;
    ev[B::ELEMENT_VECTOR_ID] = [&](const Base::Element&, P p) { return problem.sourceTermRef(p); };
    ev[B::INITIAL_CONDITION_VECTOR_ID] = [&](const Base::Element& e, P p) { return problem.initialCondition(p) * s.eps(s.m.elems[index.at(&e)].zone); };
    ev[B::INITIAL_CONDITION_DERIVATIVE_VECTOR_ID] = [&](const Base::Element& e, P p) { return problem.initialConditionDerivative(p) * s.eps(s.m.elems[index.at(&e)].zone); };
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::FaceInputFunction> fv;
    fv[B::FACE_VECTOR_ID] = [&](Base::PhysicalFace<D>& f) { return problem.boundaryConditionRef(f); };
    d.computeElementIntegrals(*w.mesh, ev);
    d.computeFaceIntegrals(*w.mesh, fv);
    System r;
    r.first.assign(s.m.elems.size() + 1, -1);
    for (Base::Element* e : w.mesh->getElementsList()) {
        r.first[index[e]] = r.n;
        r.n += e->getTotalNumberOfBasisFunctions();
    }
    std::size_t n = r.n;
    r.first.back() = n;
    r.mass.assign(n * n, 0.);
    r.stiff = r.mass;
    r.source = r.boundary = r.start = r.derivative = std::vector<Z>(n, 0.);
    for (Base::Element* e : w.mesh->getElementsList()) {
        std::size_t o = r.first[index[e]], k = e->getTotalNumberOfBasisFunctions();
        auto mass = e->getElementMatrix(B::MASS_MATRIX_ID), stiff = e->getElementMatrix(B::STIFFNESS_MATRIX_ID);
        auto a = e->getElementVector(B::ELEMENT_VECTOR_ID), b = e->getElementVector(B::INITIAL_CONDITION_VECTOR_ID), c = e->getElementVector(B::INITIAL_CONDITION_DERIVATIVE_VECTOR_ID);
        for (std::size_t i = 0; i < k; ++i) {
            r.source[o + i] += a[i];
            r.start[o + i] += b[i];
            r.derivative[o + i] += c[i];
            for (std::size_t j = 0; j < k; ++j) {
                r.mass[(o + i) * n + o + j] += mass(i, j);
                r.stiff[(o + i) * n + o + j] += stiff(i, j);
            }
        }
    }
    for (Base::Face* f : w.mesh->getFacesList()) {
        std::vector<std::size_t> at;
        for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
            auto* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
            for (std::size_t i = 0; i < e->getTotalNumberOfBasisFunctions(); ++i) at.push_back(r.first[index[e]] + i);
        }
        auto stiff = f->getFaceMatrixMatrix(B::FACE_STIFFNESS_MATRIX_ID);
        auto load = f->getFaceVector(B::FACE_VECTOR_ID);
        for (std::size_t i = 0; i < at.size(); ++i) {
            if (load.size()) r.boundary[at[i]] += load[i];
            if (stiff.size())
                for (std::size_t j = 0; j < at.size(); ++j) r.stiff[at[i] * n + at[j]] += stiff(i, j);
        }
    }
    dist::Blob b;
    putAll(b, r);
    return b.s;
}
static const System& systemOf(const Setting& s) {
    static std::map<std::string, System> known;
    std::string key = mc::str(s.m.name, "/", s.order, s.dielectric);
    auto it = known.find(key);
    if (it != known.end()) return it->second;
    Setting one = s;
    one.fn = "r" + s.fn;
    s.m.write(one.fn, std::vector<int>(s.m.elems.size(), 0), 1);
    System r;
    mcmpi::explore(
        1, mcmpi::Options(), [&](int) { return s.m.dim == 2 ? system<2>(one) : system<3>(one); }, [&](const std::vector<std::string>& res) { r = getAll(res[0]); });
    unlink(one.fn.c_str());
    // M^-1, once, then M^-1 times everything
    std::size_t n = r.n;
    std::vector<Z> inverse(n * n);
    for (std::size_t j = 0; j < n; ++j) {
        std::vector<Z> b(n, 0.);
        b[j] = 1;
        fakepetsc::eliminate(r.mass, b);
        for (std::size_t i = 0; i < n; ++i) inverse[i * n + j] = b[i];
    }
    auto apply = [&](std::vector<Z>& v) {
        std::vector<Z> y(n, 0.);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) y[i] += inverse[i * n + j] * v[j];
        v = y;
    };
    for (auto* v : {&r.source, &r.boundary, &r.start, &r.derivative}) apply(*v);
    for (std::size_t j = 0; j < n; ++j) {
        std::vector<Z> c(n);
        for (std::size_t i = 0; i < n; ++i) c[i] = r.stiff[i * n + j];
        apply(c);
        for (std::size_t i = 0; i < n; ++i) r.stiff[i * n + j] = c[i];
    }
    return known[key] = r;
}
// x'' + sigma x' + S x = f, stepped with the scheme of the name; all solutions, from step 0 on
static std::vector<std::vector<Z>> stepped(const System& s, const Call& c, double& largest) {
    Problem<2> problem(c);  // for the scalars
    std::size_t n = s.n;
    std::vector<Z> x = s.start, v = s.derivative;
    for (Z q : x) largest = std::max(largest, std::abs(q));
    auto sum = [&](std::vector<Z>& y, double a, const std::vector<Z>& z) {
        for (std::size_t i = 0; i < n; ++i) y[i] += a * z[i];
        for (Z q : y) largest = std::max(largest, std::abs(q));
    };
    auto force = [&](std::vector<Z>& y, double a, double t) {
        sum(y, a * problem.timeScalingSource(t), s.source);
        sum(y, a * problem.timeScalingBoundary(t), s.boundary);
    };
    auto stiff = [&](std::vector<Z>& y, double a) {
        std::vector<Z> k(n, 0.);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) k[i] += s.stiff[i * n + j] * x[j];
        sum(y, a, k);
    };
    std::vector<std::vector<Z>> r(1, x);
    const double tau = c.tau(), sigma = problem.conductivity(), q = std::sqrt(19.);
    const double al[6] = {0, (146 + 5 * q) / 540, (10 * q - 2) / 135, 0.2, -(23 + 20 * q) / 270, (14 - q) / 108};
    for (int step = 0; step < c.steps; ++step) {
        double t = step * tau;
        if (!c.method) {
            // (v+ - v-)/tau + sigma (v+ + v-)/2 + S x = (f(t) + f(t+tau))/2
            sum(x, tau / 2, v);
            std::vector<Z> w(n, 0.);
            sum(w, 1 - sigma * tau / 2, v);
            stiff(w, -tau);
            force(w, tau / 2, t);
            force(w, tau / 2, t + tau);
            for (auto& z : w) z /= 1 + sigma * tau / 2;
            v = w;
            sum(x, tau / 2, v);
        } else {
            // five times: Euler's method and its adjoint, of which adjacent parts are taken together
            double s = 0;
            for (int k = 1; k < 6; ++k) {
                double a = al[k], b = al[6 - k];
                sum(x, b * tau, v);
                stiff(v, -b * tau);
                force(v, b * tau, t + s * tau);
                s += a + b;
                stiff(v, -a * tau);
                force(v, a * tau, t + s * tau);
                sum(x, a * tau, v);
            }
        }
        r.push_back(x);
    }
    return r;
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    auto* nowhere = new std::ofstream("/dev/null");  // stays until the end
    std::cout.rdbuf(nowhere->rdbuf());
    mc::S().splitDepth = 6;
    std::vector<mg::Mesh> cat;
    cat.push_back(mg::grid(2, mg::pt(1, 1, 1), "t"));
    cat.push_back(mg::grid(2, mg::pt(2, 1, 1), "t", mg::pt(0, 0), 1));
    cat.push_back(mg::grid(3, mg::pt(1, 1, 1), "t", mg::pt(0, 0, 0), 1));
    for (auto& m : cat) m.zones = zoneNames;
    std::string fn = mc::str("t", getpid(), ".hpgem");
    int rc = mc::run([&] {
        Setting s;
        int im = mc::choose(cat.size(), "mesh");
        s.m = cat[im];
        mc::note(s.m.name);
        s.fn = fn;
        s.dielectric = mc::choose(2, "dielectric");
        s.order = 1 + (im == 0 || (mc::thorough() && im == 1) ? mc::choose(2, "order-1") : 0);
        std::size_t n = s.m.elems.size();
        for (std::size_t e = 0; e < n; ++e) s.m.elems[e].zone = e % 2;
        int P = 1 + mc::choose(mc::tier(2, 3), "P-1");
        if (P > int(n)) throw mc::Prune();
        std::vector<int> ps = mg::chooseParts(n, P);
        std::vector<Call> calls(1 + mc::choose(2, "calls-1"));
        for (std::size_t i = 0; i < calls.size(); ++i) {
            Call& c = calls[i];
            c.method = mc::choose(2, "method");
            // the grid of steps and strides on the small mesh; elsewhere the combinations that differ in kind
            if ((im == 0 && P == 1 && s.order == 1 && calls.size() == 1) || (mc::thorough() && im == 0)) {
                c.steps = mc::choose(calls.size() == 1 ? 7 : 5, "steps");
                c.stride = 1 + mc::choose(calls.size() == 1 ? 7 : 3, "stride-1");
            } else {
                static const int of[4][2] = {{1, 1}, {3, 2}, {2, 2}, {0, 1}};
                int k = mc::choose(im == 2 && calls.size() == 2 ? 2 : 4, "steps,stride");
                c.steps = of[k][0];
                c.stride = of[k][1];
            }
            c.terms = mc::choose(4, "terms");
            c.lossy = !c.method && !s.dielectric && (i == 0 || mc::thorough()) ? mc::choose(2, "lossy") : 0;
            if (!mc::thorough() && calls.size() == 2 && i == 0 && (c.terms == 1 || c.terms == 2 || c.steps == 0)) throw mc::Prune();
            if (!mc::thorough() && calls.size() == 2 && im > 0 && (i == 0 ? c.steps != 3 : (c.terms == 0 || c.steps == 0))) throw mc::Prune();
        }
        s.m.write(fn, ps, P);
        mcmpi::Options o;
        o.mode = calls[0].steps % 2;
        mcmpi::explore(
            P, o, [&](int) { return s.m.dim == 2 ? history<2>(s, calls) : history<3>(s, calls); },
            [&](const std::vector<std::string>& res) {
                std::vector<dist::Blob> in;
                for (auto& r : res) in.emplace_back(r);
                auto& sys = systemOf(s);
                for (std::size_t i = 0; i < calls.size(); ++i) {
                    const Call& c = calls[i];
                    double scale = 0;
                    auto want = stepped(sys, c, scale);
                    // at the start, every stride steps and at the end
                    std::vector<int> at;
                    for (int k = 0; k <= c.steps; ++k)
                        if (k % c.stride == 0 || k == c.steps) at.push_back(k);
                    std::set<int> seen;
                    for (std::size_t p = 0; p < in.size(); ++p) {
                        Kept k = get(in[p]);
                        mc::require(k.levels.empty() || k.times.size() == at.size(), "process ", p, ", call ", i, ": ", k.times.size(), " stored solutions instead of ", at.size());
                        for (std::size_t l = 0; l < k.times.size(); ++l)
                            mc::require(std::abs(k.times[l] - at[l] * c.tau()) < 1e-12, "call ", i, ": solution ", l, " is said to be of time ", k.times[l], " instead of ", at[l] * c.tau());
                        for (auto& e : k.levels) {
                            mc::require(seen.insert(e.first).second, "two processes own element ", e.first);
                            mc::require(e.second.size() == at.size(), "element ", e.first, " has ", e.second.size(), " solutions instead of ", at.size());
                            for (std::size_t l = 0; l < at.size(); ++l) {
                                auto& v = e.second[l];
                                for (std::size_t j = 0; j < v.size(); ++j) {
                                    mc::step();
                                    Z y = want[at[l]][sys.first[e.first] + j];
                                    mc::require(std::abs(v[j] - y) < 1e-9 * scale, "call ", i, ": coefficient ", j, " of element ", e.first, " at step ", at[l], " is ", v[j],
                                                " instead of ", y);
                                }
                            }
                        }
                    }
                    mc::require(seen.size() == n, seen.size(), " elements have a solution");
                    mc::outcome(mc::str(c.method, c.terms, c.lossy, "/", at.size(), "/", int(std::abs(want.back()[0]) * 1e6)));
                }
                mc::state(mc::joinChoices());
            });
    });
    unlink(fn.c_str());
    return rc;
}
