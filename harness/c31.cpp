// C31: a sequence of harmonic problems: every one of them is solved as if it were the only one, on every process.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "petscksp.h"
#include "DGMaxProgramUtils.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Algorithms/HarmonicSolver.h"
#include <unistd.h>
using namespace hpgem;
typedef std::complex<double> Z;
typedef DGMax::BoundaryConditionType BCT;
typedef HarmonicProblemChanges HPC;
static const std::vector<std::string> zoneNames = {"Main", "layer"};
// a problem is four independent choices
struct Kind {
    int omega, source, type, value;
    Kind(int code = 0) : omega(code & 1), source(code >> 1 & 1), type(code >> 2 & 1), value(code >> 3 & 1) {}
    int code() const { return omega | source << 1 | type << 2 | value << 3; }
};
template <std::size_t D>
static std::array<double, 3> three(const Geometry::PointPhysical<D>& p) {
    std::array<double, 3> r{{0, 0, 0}};
    for (std::size_t d = 0; d < D; ++d) r[d] = p[d];
    return r;
}
template <std::size_t D>
static LinearAlgebra::SmallVectorC<D> given(const std::array<double, 3>& x, int which) {
    LinearAlgebra::SmallVectorC<D> r;
    for (std::size_t d = 0; d < D; ++d)
        r[d] = Z(0.4 + 0.3 * d + which * 0.7 + 0.6 * x[(d + 1) % D] - 0.2 * x[d] * which, 0.25 - 0.4 * x[d] + 0.5 * which * x[(d + 1) % D]);
    return r;
}
template <std::size_t D>
struct Problem : HarmonicProblem<D> {
    Kind k;
    explicit Problem(Kind k) : k(k) {}
    double omega() const override { return k.omega ? 2.3 : 1.1; }
    LinearAlgebra::SmallVectorC<D> sourceTerm(const Base::Element&, const Geometry::PointPhysical<D>& p) const override { return given<D>(three<D>(p), k.source); }
    BCT getBoundaryConditionType(const Base::Face& f) const override {
        if (f.isInternal()) return BCT::INTERNAL;
        // by the place of the face
        auto& local = f.getReferenceGeometry()->getCenter();
        auto c = three<D>(f.referenceToPhysical(Geometry::PointReference<D - 1>(local)));
        int i = int(std::floor(7 * c[0] + 5 * c[1] + 3 * c[2] + 50.25));
        static const BCT a[] = {BCT::DIRICHLET, BCT::SILVER_MULLER, BCT::NEUMANN}, b[] = {BCT::SILVER_MULLER, BCT::DIRICHLET, BCT::DIRICHLET};
        return (k.type ? b : a)[i % 3];
    }
    LinearAlgebra::SmallVectorC<D> boundaryCondition(Base::PhysicalFace<D>& f) const override { return given<D>(three<D>(f.getPointPhysical()), 2 + k.value); }
};
template <std::size_t D>
int indexOf(const mg::Mesh& m, const Base::Element* e) {
    std::vector<mg::X> x;
    auto* g = e->getPhysicalGeometry();
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<D>& p = g->getLocalNodeCoordinates(i);
        x.emplace_back();
        for (std::size_t d = 0; d < 3; ++d) x.back()[d] = d < D ? p[d < D ? d : 0] : 0;
    }
    int r = dist::findElement(m, x);
    mc::require(r >= 0, "element ", e->getID(), " is not in the mesh file");
    return r;
}
struct Setting {
    mg::Mesh m;
    int div, order, layer;
    std::string fn;
};
template <std::size_t D>
struct World {
    const Setting& s;
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<D>> mesh;
    std::vector<std::unique_ptr<Base::UserData>> own;
    std::vector<std::shared_ptr<PMLElementInfos<D>>> pmls;
    std::shared_ptr<DGMax::AbstractDiscretization<D>> d;
    explicit World(const Setting& s) : s(s), config(s.div ? 2 : 1, 1) {
        auto structure = DGMax::determineStructureDescription("Main,2;layer,1.5", D);
        if (s.div) {
            typename DivDGMaxDiscretization<D>::Stab st;
            st.stab1 = 5;
            st.stab2 = 0.1;
            st.stab3 = 5;
            st.setAllFluxeTypes(DivDGMaxDiscretization<D>::FluxType::IP);
            d = std::make_shared<DivDGMaxDiscretization<D>>(s.order, st);
        } else
            d = std::make_shared<DGMaxDiscretization<D>>(s.order, 5);
        mesh = DGMax::readMesh<D>(s.fn, &config, *structure, d->getNumberOfElementMatrices());
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) own.emplace_back(e->getUserData());
        if (s.layer) {
            DGMax::PMLZoneDescription<D> z;
            z.zoneName_ = "layer";
            for (std::size_t i = 0; i < D; ++i) {
                z.direction_[i] = i == 0 ? 1 : i == 1 ? -1 : 0;
                z.attenuation_[i] = 0.2 + 0.1 * i;
            }
            pmls = DGMax::applyPMLs(*mesh, {z});
        }
    }
    ~World() {
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) e->setUserData(nullptr);
    }
};
// what is seen of a solution: coefficients and fluxes of every element
typedef std::map<int, std::vector<Z>> Seen;
static void put(dist::Blob& b, const Seen& s) {
    b.i(s.size());
    for (auto& e : s) {
        b.i(e.first);
        b.i(e.second.size());
        for (Z z : e.second) {
            b.d(z.real());
            b.d(z.imag());
        }
    }
}
template <std::size_t D>
Seen see(const mg::Mesh& m, Base::MeshManipulator<D>& mesh, DGMax::AbstractDiscretization<D>& d, double omega, DGMax::AbstractHarmonicResult<D>* result) {
    Seen r;
    for (Base::Element* e : mesh.getElementsList()) {
        std::vector<Z> v;
        auto& c = e->getTimeIntegrationVector(0);
        for (std::size_t i = 0; i < c.size(); ++i) v.push_back(c[i]);
        auto& center = e->getReferenceGeometry()->getCenter();
        const Geometry::PointReference<D> p(center);
        auto field = result ? result->computeField(e, p) : d.computeField(e, p, c), curl = result ? result->computeFieldCurl(e, p) : d.computeCurlField(e, p, c);
        for (std::size_t i = 0; i < D; ++i) v.push_back(field[i]);
        for (std::size_t i = 0; i < D; ++i) v.push_back(curl[i]);
        for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) {
            Base::Face* face = const_cast<Base::Face*>(e->getFace(f));
            Base::Side side = face->getPtrElementLeft() == e ? Base::Side::LEFT : Base::Side::RIGHT;
            v.push_back(result ? static_cast<DGMax::AbstractHarmonicResult<D>*>(result)->computeEnergyFlux(*face, side, omega, nullptr)[0]
                               : d.computeEnergyFluxes(*face, side, omega, 0, nullptr)[0]);
            v.push_back(result ? result->computeFieldL2Integral(*face, side) : d.computeFieldL2Integral(*face, side, 0));
        }
        r[indexOf<D>(m, e)] = v;
    }
    return r;
}
// the reference: one problem, on a new mesh, with the equations put together here
template <std::size_t D>
Seen alone(const Setting& s, Kind k) {
    World<D> w(s);
    Problem<D> problem(k);
    const double omega = problem.omega();
    for (auto& p : w.pmls) p->setDispersionWavenumber(omega);
    typedef DGMax::AbstractDiscretizationBase B;
    w.d->initializeBasisFunctions(*w.mesh);
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::InputFunction> ev;
    ev[B::ELEMENT_VECTOR_ID] = [&](const Base::Element& e, const Geometry::PointPhysical<D>& p) { return problem.sourceTerm(e, p); };
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::FaceInputFunction> fv;
    fv[B::FACE_VECTOR_ID] = [&](Base::PhysicalFace<D>& f) { return problem.boundaryCondition(f); };
    w.d->computeElementIntegrals(*w.mesh, ev);
    w.d->computeFaceIntegrals(*w.mesh, fv, [&](const Base::Face& f) { return problem.getBoundaryConditionType(f); });
    std::map<const Base::Element*, std::size_t> first;
    std::size_t n = 0;
    for (Base::Element* e : w.mesh->getElementsList()) {
        first[e] = n;
        n += e->getTotalNumberOfBasisFunctions();
    }
    std::vector<Z> a(n * n, 0.), b(n, 0.);
    for (Base::Element* e : w.mesh->getElementsList()) {
        std::size_t o = first[e], k = e->getTotalNumberOfBasisFunctions();
        auto mass = e->getElementMatrix(B::MASS_MATRIX_ID), stiff = e->getElementMatrix(B::STIFFNESS_MATRIX_ID);
        auto load = e->getElementVector(B::ELEMENT_VECTOR_ID);
        for (std::size_t i = 0; i < k; ++i) {
            b[o + i] += load[i];
            for (std::size_t j = 0; j < k; ++j) a[(o + i) * n + o + j] += stiff(i, j) - omega * omega * mass(i, j);
        }
    }
    for (Base::Face* f : w.mesh->getFacesList()) {
        std::vector<std::size_t> at;
        for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
            auto* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
            for (std::size_t i = 0; i < e->getTotalNumberOfBasisFunctions(); ++i) at.push_back(first[e] + i);
        }
        auto stiff = f->getFaceMatrixMatrix(B::FACE_STIFFNESS_MATRIX_ID), imp = f->getFaceMatrixMatrix(B::FACE_IMPEDANCE_MATRIX_ID);
        auto load = f->getFaceVector(B::FACE_VECTOR_ID);
        for (std::size_t i = 0; i < at.size(); ++i) {
            if (load.size()) b[at[i]] += load[i];
            for (std::size_t j = 0; j < at.size(); ++j) {
                if (stiff.size()) a[at[i] * n + at[j]] += stiff(i, j);
                if (imp.size()) a[at[i] * n + at[j]] += omega * imp(i, j);
            }
        }
    }
    fakepetsc::eliminate(a, b);
    for (Base::Element* e : w.mesh->getElementsList()) {
        LinearAlgebra::MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = b[first[e] + i];
        e->setTimeIntegrationVector(0, v);
    }
    return see<D>(s.m, *w.mesh, *w.d, omega, nullptr);
}
// how the driver tells what changed
enum Telling { EXACT, EVERYTHING, MORE };
template <std::size_t D>
struct Driver : DGMax::AbstractHarmonicSolverDriver<D> {
    const Setting& s;
    World<D>& w;
    std::vector<Problem<D>> problems;
    int telling, extra, at = -1;
    dist::Blob& out;
    std::size_t handled = 0;
    Driver(const Setting& s, World<D>& w, const std::vector<Kind>& ks, int telling, int extra, dist::Blob& out)
        : s(s), w(w), problems(ks.begin(), ks.end()), telling(telling), extra(extra), out(out) {}
    bool stop() const override { return at + 1 == int(problems.size()); }
    void nextProblem() override { ++at; }
    std::size_t getExpectedNumberOfProblems() const override { return problems.size(); }
    const HarmonicProblem<D>& currentProblem() const override {
        mc::require(at >= 0 && at < int(problems.size()), "the solver asks for problem ", at, " of ", problems.size());
        return problems[at];
    }
    bool hasChanged(HPC c) const override {
        if (telling == EVERYTHING || at == 0) return true;
        if (telling == MORE && (unsigned(c) & (1u << extra))) return true;
        Kind a = problems[at - 1].k, b = problems[at].k;
        unsigned changes = (a.omega != b.omega ? unsigned(HPC::OMEGA) : 0) | (a.source != b.source ? unsigned(HPC::CURRENT_SOURCE) : 0) |
                           (a.type != b.type ? unsigned(HPC::BOUNDARY_CONDITION_TYPE) : 0) | (a.value != b.value ? unsigned(HPC::BOUNDARY_CONDITION_VALUE) : 0);
        return changes & unsigned(c);
    }
    void handleResult(DGMax::AbstractHarmonicResult<D>& r) override {
        mc::require(handled == std::size_t(at), "result ", handled, " is handed over while problem ", at, " is the current one");
        ++handled;
        mc::require(&r.solvedProblem() == &problems[at], "the result is said to belong to another problem");
        mc::require(&r.getMesh() == w.mesh.get(), "the result is said to be on another mesh");
        put(out, see<D>(s.m, *w.mesh, *w.d, problems[at].omega(), &r));
    }
};
template <std::size_t D>
std::string history(const Setting& s, const std::vector<Kind>& ks, int cut, int telling, int extra) {
    World<D> w(s);
    DGMax::HarmonicSolver<D> solver(w.d);
    for (auto& p : w.pmls) solver.addDispersive(p);
    dist::Blob out;
    // one or two calls of the solver for the sequence
    for (int part = 0; part < (cut ? 2 : 1); ++part) {
        std::vector<Kind> now(part ? ks.begin() + cut : ks.begin(), part || !cut ? ks.end() : ks.begin() + cut);
        Driver<D> driver(s, w, now, telling, extra, out);
        solver.solve(*w.mesh, driver);
        mc::require(driver.handled == now.size(), driver.handled, " results for ", now.size(), " problems");
    }
    return out.s;
}
static std::string both(const Setting& s, const std::vector<Kind>& ks, int cut, int telling, int extra) {
    return s.m.dim == 2 ? history<2>(s, ks, cut, telling, extra) : history<3>(s, ks, cut, telling, extra);
}
static std::vector<Seen> unpack(const std::string& text, std::size_t problems) {
    dist::Blob p(text);
    std::vector<Seen> r;
    for (std::size_t k = 0; k < problems; ++k) {
        r.emplace_back();
        std::size_t n = p.gi();
        for (std::size_t i = 0; i < n; ++i) {
            int e = p.gi();
            std::size_t l = p.gi();
            auto& v = r.back()[e];
            for (std::size_t j = 0; j < l; ++j) {
                double a = p.gd(), b = p.gd();
                v.push_back(Z(a, b));
            }
        }
    }
    return r;
}

// the solution of every single problem, once per setting
static const Seen& reference(const Setting& s, const std::string& name, Kind k) {
    static std::map<std::string, Seen> known;
    std::string key = mc::str(name, "/", s.div, s.order, s.layer, "/", k.code());
    auto it = known.find(key);
    if (it != known.end()) return it->second;
    Setting one = s;
    one.fn = "r" + s.fn;
    s.m.write(one.fn, std::vector<int>(s.m.elems.size(), 0), 1);
    Seen r;
    mcmpi::explore(
        1, mcmpi::Options(),
        [&](int) {
            dist::Blob b;
            put(b, s.m.dim == 2 ? alone<2>(one, k) : alone<3>(one, k));
            return b.s;
        },
        [&](const std::vector<std::string>& res) { r = unpack(res[0], 1)[0]; });
    unlink(one.fn.c_str());
    mc::require(r.size() == s.m.elems.size(), "harness: reference with ", r.size(), " elements");
    return known[key] = r;
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 6;
    std::vector<mg::Mesh> cat;
    cat.push_back(mg::grid(2, mg::pt(1, 1, 1), "t"));
    cat.push_back(mg::grid(2, mg::pt(2, 1, 1), "t", mg::pt(0, 0), 1));
    cat.push_back(mg::grid(3, mg::pt(1, 1, 1), "t", mg::pt(0, 0, 0), 1));
    for (auto& m : cat) m.zones = zoneNames;
    std::string fn = mc::str("h", getpid(), ".hpgem");
    int rc = mc::run([&] {
        Setting s;
        int im = mc::choose(cat.size(), "mesh");
        s.m = cat[im];
        mc::note(s.m.name);
        s.fn = fn;
        s.div = mc::choose(2, "discretisation");
        s.layer = mc::choose(2, "layer");
        s.order = 1 + (mc::thorough() ? mc::choose(2, "order-1") : (im == 0));
        if (s.m.dim == 3 && s.order > 1) throw mc::Prune();
        std::size_t n = s.m.elems.size();
        for (std::size_t e = 0; e < n; ++e) s.m.elems[e].zone = e % 2;
        int P = 1 + mc::choose(mc::tier(2, 3), "P-1");
        if (P > int(n)) throw mc::Prune();
        std::vector<int> ps = mg::chooseParts(n, P);
        int telling = mc::choose(3, "telling"), extra = telling == MORE ? mc::choose(4, "extra") : 0;
        // the long histories on the small mesh
        int length = 1 + mc::choose(P == 1 && im == 0 && (!s.div || mc::thorough()) ? 3 : 2, "length-1");
        if (!mc::thorough()) {
            if (length == 1 ? telling != EXACT : length == 3 ? telling != EXACT : false) throw mc::Prune();
            if (telling != EXACT && (P > 1 || im > 0)) throw mc::Prune();
            if (telling == MORE && s.div) throw mc::Prune();
            if (length > 1 && im == 2 && (P > 1 || !s.layer)) throw mc::Prune();
            if (length > 1 && im == 1 && P > 1 && ps[0] == ps[2] && ps[1] == ps[3]) throw mc::Prune();
        }
        std::vector<Kind> ks;
        for (int i = 0; i < length; ++i) ks.emplace_back(mc::choose(16, "problem"));
        int cut = length == 2 && P == 1 && telling != MORE ? mc::choose(2, "calls-1") : 0;
        s.m.write(fn, ps, P);
        mcmpi::Options o;
        o.mode = ks[0].code() % 2;
        mcmpi::explore(
            P, o, [&](int) { return both(s, ks, cut, telling, extra); },
            [&](const std::vector<std::string>& res) {
                std::vector<Seen> all(ks.size());
                for (auto& r : res) {
                    auto part = unpack(r, ks.size());
                    for (std::size_t k = 0; k < ks.size(); ++k)
                        for (auto& e : part[k]) mc::require(all[k].insert(e).second, "two processes own element ", e.first);
                }
                for (std::size_t k = 0; k < ks.size(); ++k) {
                    auto& want = reference(s, cat[im].name, ks[k]);
                    double scale = 0;
                    for (auto& e : want)
                        for (Z z : e.second) scale = std::max(scale, std::abs(z));
                    mc::require(all[k].size() == want.size(), "solution ", k, " has ", all[k].size(), " elements");
                    for (auto& e : want) {
                        auto& got = all[k][e.first];
                        mc::require(got.size() == e.second.size(), "element ", e.first, " of solution ", k, " has ", got.size(), " values instead of ", e.second.size());
                        for (std::size_t i = 0; i < got.size(); ++i) {
                            mc::step();
                            mc::require(std::abs(got[i] - e.second[i]) < 1e-7 * scale, "problem ", k, " of ", ks.size(), " (", ks[k].code(), "): value ", i, " of element ", e.first,
                                        " is ", got[i], " instead of ", e.second[i]);
                        }
                    }
                    mc::outcome(mc::str(ks[k].code(), "/", int(scale * 1e3)));
                }
                mc::state(mc::joinChoices());
            });
    });
    unlink(fn.c_str());
    return rc;
}
