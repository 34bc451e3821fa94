// C34: the analytic Maxwell solutions against the equations, boundary conditions and lattices they are given for.
#include "hp.h"
#include "meshgen.h"
#include "Base/MeshManipulator.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/PhysicalFace.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "ProblemTypes/Harmonic/ExactFieldHarmonicProblem.h"
#include "ProblemTypes/Harmonic/ConstantField.h"
#include "ProblemTypes/Harmonic/InterfaceReflectionField.h"
#include "ProblemTypes/Harmonic/SampleHarmonicProblems.h"
#include "ProblemTypes/Harmonic/ScatteringProblem.h"
#include "ProblemTypes/Harmonic/TrenchReflectionProblem.h"
#include "ProblemTypes/Time/SampleTestProblems.h"
#include "Utils/BraggStackBandstructure.h"
#include "Utils/HomogeneousBandStructure.h"
#include "Utils/KSpacePath.h"
#include "Utils/PlaneWave.h"
#include <complex>
#include <memory>
#include <unistd.h>
using namespace hpgem;
typedef std::complex<double> Z;
typedef std::array<double, 3> R3;
typedef std::array<Z, 3> C3;
typedef DGMax::BoundaryConditionType BCT;
static const Z I(0, 1);
static C3 cross(const C3& a, const C3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static C3 lin(Z a, const C3& x, Z b, const C3& y) {
    C3 r;
    for (int d = 0; d < 3; ++d) r[d] = a * x[d] + b * y[d];
    return r;
}
static C3 scale(const C3& t, const C3& v) { return {{t[0] * v[0], t[1] * v[1], t[2] * v[2]}}; }
static double size(const C3& a) { return std::sqrt(std::norm(a[0]) + std::norm(a[1]) + std::norm(a[2])); }
// a field is stored in its D components, a curl or cross product in 2D in the first one
template <std::size_t D, class V>
C3 planar(const V& v) {
    C3 r{};
    for (std::size_t d = 0; d < D; ++d) r[d] = v[d];
    return r;
}
template <std::size_t D, class V>
C3 vertical(const V& v) {
    if (D == 3) return planar<D>(v);
    return {{0, 0, v[0]}};
}
template <std::size_t D>
Geometry::PointPhysical<D> point(const R3& x) {
    Geometry::PointPhysical<D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = x[d];
    return p;
}
template <std::size_t D>
R3 three(const Geometry::PointPhysical<D>& p) {
    R3 x{};
    for (std::size_t d = 0; d < D; ++d) x[d] = p[d];
    return x;
}
static void same(const C3& got, const C3& want, double scale, const std::string& what, double tol = 1e-8) {
    mc::step();
    C3 d = lin(1, got, -1, want);
    mc::require(size(d) <= tol * std::max(1., scale), what, ": ", got[0], " ", got[1], " ", got[2], " instead of ", want[0], " ", want[1], " ", want[2]);
}
typedef std::function<C3(const R3&)> Field;
// sixth order central differences; 's' is the derivative of a stretched coordinate
static C3 derivative(const Field& f, R3 x, int d, Z s = 1) {
    const double h = 2e-3;
    static const double c[3] = {3. / 4, -3. / 20, 1. / 60};
    C3 r{};
    for (int k = 1; k <= 3; ++k) {
        R3 a = x, b = x;
        a[d] += k * h, b[d] -= k * h;
        r = lin(1, r, c[k - 1] / h / s, lin(1, f(a), -1, f(b)));
    }
    return r;
}
static C3 curl(const Field& f, const R3& x, int dim, Z sy = 1) {
    C3 d[3]{};
    for (int i = 0; i < dim; ++i) d[i] = derivative(f, x, i, i == 1 ? sy : Z(1));
    return {{d[1][2] - d[2][1], d[2][0] - d[0][2], d[0][1] - d[1][0]}};
}
// ---------------------------------------------------------------------------------------------- materials
struct Constants {
    C3 eps, imu;  // permittivity, inverse permeability
};
template <std::size_t D>
struct TensorInfos : ElementInfos {
    Constants c;
    TensorInfos(double eps, double mu, const Constants& c) : ElementInfos(eps, mu), c(c) {}
    static DGMax::MaterialTensor diag(const C3& t) {
        LinearAlgebra::SmallVectorC<3> v;
        for (int d = 0; d < 3; ++d) v[d] = t[d];
        return DGMax::MaterialTensor(v);
    }
    DGMax::MaterialTensor getMaterialConstantDiv(const PointPhysicalBase&) const override { return diag(c.eps); }
    DGMax::MaterialTensor getMaterialConstantCurl(const PointPhysicalBase&) const override { return diag({{1. / c.imu[0], 1. / c.imu[1], 1. / c.imu[2]}}); }
};
static Constants scalar(double eps, double mu) { return {{{eps, eps, eps}}, {{1 / mu, 1 / mu, 1 / mu}}}; }
static const double epsOf[4] = {1, 2.25, 1, 3.2}, muOf[4] = {1, 1, 1.7, 0.6};
static Constants tensor() { return {{{Z(1.5, 0.3), Z(2, -0.2), Z(0.7, 0.1)}}, {{Z(0.6, 0.2), Z(1.3, -0.4), Z(0.9, 0.5)}}}; }
// ---------------------------------------------------------------------------------------------- field patterns
template <std::size_t D>
LinearAlgebra::SmallVector<D> real(const R3& v) {
    LinearAlgebra::SmallVector<D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = v[d];
    return r;
}
template <std::size_t D>
LinearAlgebra::SmallVectorC<D> cplx(const C3& v) {
    LinearAlgebra::SmallVectorC<D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = v[d];
    return r;
}
static R3 direction(std::size_t D, int k) {
    static const R3 two[] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0.6, 0.8, 0}}, {{-0.28, 0.96, 0}}, {{-1, 0, 0}}};
    static const R3 all[] = {{{1, 0, 0}}, {{0, 0, -1}}, {{2. / 3, 1. / 3, 2. / 3}}, {{-2. / 7, 6. / 7, 3. / 7}}, {{0, 1, 0}}};
    return D == 2 ? two[k] : all[k];
}
static C3 polarisation(std::size_t D, const R3& k, int which) {  // orthogonal to k
    C3 a;
    if (D == 2)
        a = {{-k[1], k[0], 0}};
    else {
        int m = 0;
        for (int d = 1; d < 3; ++d)
            if (std::abs(k[d]) < std::abs(k[m])) m = d;
        C3 e{};
        e[m] = 1;
        a = cross({{k[0], k[1], k[2]}}, e);
        if (which) a = lin(1, a, Z(0.4, which == 2 ? 1. : -0.3), cross({{k[0], k[1], k[2]}}, a));
    }
    static const Z f[3] = {1, Z(0.5, 0.7), Z(-0.2, 1.1)};
    return lin(f[which], a, 0, a);
}
template <std::size_t D>
Field field(const DGMax::FieldPattern<D>& f) {
    return [&f](const R3& x) { return planar<D>(f.field(point<D>(x))); };
}
template <std::size_t D>
Field curlOf(const DGMax::FieldPattern<D>& f) {
    return [&f](const R3& x) { return vertical<D>(f.fieldCurl(point<D>(x))); };
}
static const R3 places[] = {{{0, 0, 0}}, {{0.31, -0.24, 0.57}}, {{-1.2, 0.8, 0.4}}, {{2.1, 1.7, -0.9}}};
// a field, its curl and its double curl belong together
template <std::size_t D>
void derivatives(const DGMax::FieldPattern<D>& f, const R3& x, const std::string& what) {
    auto p = point<D>(x);
    Field e = field<D>(f), c = curlOf<D>(f);
    C3 got = c(x);
    same(got, curl(e, x, D), size(got), what + ": curl");
    C3 flat = planar<D>(f.fieldCurl(p));
    if (D == 2) mc::require(flat[1] == 0., what, ": the curl has a second component in 2D");
    Constants t = tensor();
    std::vector<std::pair<DGMax::MaterialTensor, C3>> ms{{DGMax::MaterialTensor(Z(1 / 0.8)), {{0.8, 0.8, 0.8}}},
                                                         {DGMax::MaterialTensor(1. / Z(0.8, 0.3)), {{Z(0.8, 0.3), Z(0.8, 0.3), Z(0.8, 0.3)}}},
                                                         {TensorInfos<D>::diag({{1. / t.imu[0], 1. / t.imu[1], 1. / t.imu[2]}}), t.imu}};
    for (auto& m : ms) {
        Field b = [&](const R3& y) { return scale(m.second, c(y)); };
        C3 want = curl(b, x, D);
        same(planar<D>(f.fieldDoubleCurl(p, m.first)), want, size(want), what + ": curl of the scaled curl");
        C3 h = b(x), E = e(x), s;
        for (auto& z : h) z = std::conj(z);
        s = cross(E, h);
        const double w = 1.7;
        auto flux = f.localFlux(p, m.first, w);
        for (std::size_t d = 0; d < D; ++d) mc::requireClose(flux[d], s[d].imag() / w, 1e-10 * std::max(1., size(s)), mc::str(what, ": energy flux in direction ", d));
    }
}
template <std::size_t D>
void planeWave() {
    R3 dir = direction(D, mc::choose(5, "direction"));
    int pol = mc::choose(3, "polarisation");
    double phase = mc::pick<double>({0, 0.7, -2}, "phase"), omega = mc::pick<double>({0.9, 3.1}, "frequency");
    int m = mc::choose(4, "material");
    C3 E0 = polarisation(D, dir, pol);
    bool dispersion = mc::choose(2, "given by frequency and material");
    double n = std::sqrt(epsOf[m] * muOf[m]);
    R3 k = dir;
    for (auto& c : k) c *= omega * n;
    R3 rough = dir;
    for (auto& c : rough) c *= 2.5;
    DGMax::Material mat(epsOf[m], muOf[m]);
    auto w = dispersion ? DGMax::PlaneWave<D>::onDispersion(omega, real<D>(rough), cplx<D>(E0), mat, phase) : DGMax::PlaneWave<D>(real<D>(k), cplx<D>(E0), phase);
    for (auto& x : places) {
        double a = phase;
        for (std::size_t d = 0; d < D; ++d) a += k[d] * x[d];
        same(planar<D>(w.field(point<D>(x))), lin(std::exp(I * a), E0, 0, E0), 1, "plane wave");
        derivatives<D>(w, x, "plane wave");
        auto dc = planar<D>(w.fieldDoubleCurl(point<D>(x), DGMax::MaterialTensor(Z(muOf[m]))));
        same(dc, lin(omega * omega * epsOf[m], planar<D>(w.field(point<D>(x))), 0, E0), omega * omega * 4, "plane wave in the material it is made for");
    }
    for (std::size_t d = 0; d < D; ++d) mc::requireClose(w.waveVector()[d], k[d], 1e-12, "wave vector");
}
template <std::size_t D>
std::shared_ptr<DGMax::FieldPattern<D>> interfaceField(double omega, int m1, int m2, R3& normal, double position, int pol, double phase, bool legacy) {
    DGMax::Material a(epsOf[m1], muOf[m1]), b(epsOf[m2], muOf[m2]);
    if (legacy) {
        normal = {{0, 1, 0}};
        return std::make_shared<DGMax::InterfaceReflectionField<D>>(omega, phase, a, b, position);
    }
    auto in = DGMax::PlaneWave<D>::onDispersion(omega, real<D>(normal), cplx<D>(polarisation(D, normal, pol)), a, phase);
    return std::make_shared<DGMax::InterfaceReflectionField<D>>(in, a, b, real<D>(normal), position);
}
template <std::size_t D>
void interface() {
    double omega = mc::pick<double>({0.9, 3.1}, "frequency");
    int m1 = mc::choose(4, "material in front"), m2 = mc::choose(4, "material behind");
    double pos = mc::pick<double>({0, 0.45, -1.3}, "position"), phase = mc::pick<double>({0, 0.7}, "phase");
    int dir = mc::choose(6, "direction");  // the last one is the shorter constructor
    bool legacy = dir == 5;
    R3 n = direction(D, legacy ? 0 : dir);
    int pol = legacy ? 0 : mc::choose(3, "polarisation");
    auto f = interfaceField<D>(omega, m1, m2, n, pos, pol, phase, legacy);
    Field e = field<D>(*f), c = curlOf<D>(*f);
    // the incident wave
    C3 E0 = legacy ? C3{{1, 0, 0}} : polarisation(D, n, pol);
    double k1 = omega * std::sqrt(epsOf[m1] * muOf[m1]);
    for (auto& q : places) {
        double along = 0;
        for (std::size_t d = 0; d < D; ++d) along += q[d] * n[d];
        for (int side = -1; side <= 1; side += 2)
            for (double depth : {0.05, 0.8, 2.3}) {
                int m = side < 0 ? m1 : m2;
                R3 x = q;
                for (std::size_t d = 0; d < D; ++d) x[d] += (pos + side * depth - along) * n[d];
                std::string what = side < 0 ? "reflection at an interface, in front" : "reflection at an interface, behind";
                derivatives<D>(*f, x, what);
                C3 want = lin(omega * omega * epsOf[m], e(x), 0, E0);
                same(planar<D>(f->fieldDoubleCurl(point<D>(x), DGMax::MaterialTensor(Z(muOf[m])))), want, 10 * omega * omega, what + ": equation");
                // behind the interface only a wave that travels away: d E / d n = i k2 E
                double k2 = omega * std::sqrt(epsOf[m2] * muOf[m2]);
                C3 dn{};
                for (std::size_t d = 0; d < D; ++d) dn = lin(1, dn, n[d], derivative(e, x, d));
                if (side > 0) same(dn, lin(I * k2, e(x), 0, dn), k2, what + ": the wave does not travel away");
                // in front the forward part is the given wave: (E + (dE/dn) / (i k1)) / 2
                double a = phase + k1 * (pos + side * depth);
                if (side < 0) same(lin(0.5, e(x), 0.5 / (I * k1), dn), lin(std::exp(I * a), E0, 0, E0), 1, what + ": incident part");
            }
        R3 on = q, before, after;
        for (std::size_t d = 0; d < D; ++d) on[d] += (pos - along) * n[d];
        before = after = on;
        for (std::size_t d = 0; d < D; ++d) before[d] -= 1e-9 * n[d], after[d] += 1e-9 * n[d];
        C3 N{{n[0], n[1], n[2]}};
        same(cross(N, e(before)), cross(N, e(after)), 10, "tangential field at an interface", 1e-8);
        same(cross(N, lin(1 / muOf[m1], c(before), 0, N)), cross(N, lin(1 / muOf[m2], c(after), 0, N)), 50, "tangential magnetic field at an interface", 1e-8);
    }
}
// ---------------------------------------------------------------------------------------------- meshes
template <std::size_t D>
struct World {
    Base::ConfigurationData config;
    Base::MeshManipulator<D> mesh;
    std::vector<std::unique_ptr<ElementInfos>> owned;
    std::map<const Base::Element*, Constants> constants;
    std::vector<Base::Element*> elements;
    std::vector<Base::Face*> faces;
    R3 length;
    World(const R3& length, const std::string& how) : config(1, 1), mesh(&config, 0, 0, 0, 0), length(length) {
        mg::L n = D == 2 ? mg::pt(2, 2, 1) : how == "5" ? mg::pt(1, 1, 1) : mg::pt(2, 1, 1);
        mg::Mesh m = mg::grid(D, n, how);
        R3 L = length;
        m.phi = [L, n](const mg::L& p) {
            mg::X r{};
            for (std::size_t d = 0; d < D; ++d) r[d] = p[d] * L[d] / (2 * n[d]);
            return r;
        };
        m.derive();
        std::string fn = mc::str("/tmp/c34-", getpid(), ".hpgem");
        m.write(fn, std::vector<int>(m.elems.size(), 0), 1);
        mesh.readMesh(fn);
        std::remove(fn.c_str());
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) elements.push_back(e);
        for (auto* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) faces.push_back(f);
    }
    // 0..3 a dielectric everywhere, 4 all of them in turn, 5 tensors in between
    void set(int kind) {
        int i = 0;
        for (auto* e : elements) {
            int m = kind < 4 ? kind : i % 4;
            if (kind == 5 && i % 2) {
                constants[e] = tensor();
                owned.emplace_back(new TensorInfos<D>(epsOf[m], muOf[m], tensor()));
            } else {
                constants[e] = scalar(epsOf[m], muOf[m]);
                owned.emplace_back(new ElementInfos(epsOf[m], muOf[m]));
            }
            e->setUserData(owned.back().get());
            ++i;
        }
    }
    template <class F>
    void eachFace(F f) {
        for (auto* face : faces) {
            if (face->isInternal()) continue;
            for (int k = 0; k < 2; ++k) {
                Base::PhysicalFace<D> pf(false);
                pf.setFace(face);
                auto q = face->getReferenceGeometry()->getCenter().template castDimension<D - 1>();
                for (std::size_t d = 0; d + 1 < D; ++d) q[d] += k ? 0.11 - 0.19 * d : 0;
                pf.setPointReference(q);
                f(face, pf, outward(face));
            }
        }
    }
    // normal of a side of the box
    C3 outward(const Base::Face* f) const {
        auto q = f->getReferenceGeometry()->getCenter().template castDimension<D - 1>();
        auto x = three<D>(f->referenceToPhysical(q));
        C3 n{};
        int found = 0;
        for (std::size_t d = 0; d < D; ++d) {
            if (std::abs(x[d]) < 1e-9) n[d] = -1, ++found;
            if (std::abs(x[d] - length[d]) < 1e-9) n[d] = 1, ++found;
        }
        mc::require(found == 1, "a boundary face of the mesh is not on the boundary");
        return n;
    }
};
static const char* splits(std::size_t D, int k) {
    static const char *two[] = {"b", "t", "tb"}, *all[] = {"b", "5", "p"};
    return D == 2 ? two[k] : all[k];
}
// what a boundary value has to be for a field with this curl
template <std::size_t D>
C3 boundaryValue(BCT t, const C3& n, const C3& E, const C3& c, const Constants& m, double omega, double Zi) {
    if (t == BCT::DIRICHLET) return cross(n, E);
    C3 b = scale(m.imu, c);
    if (t == BCT::SILVER_MULLER) b = lin(1, b, I * omega * Zi, cross(E, n));
    return b;
}
template <std::size_t D>
void exactProblem() {
    int what = mc::choose(D == 3 ? 5 : 4, "plane wave, reflection, scattering, constant, sines");
    int kind = mc::choose(6, "materials");
    double omega = mc::pick<double>({0.9, 3.1}, "frequency");
    if (what == 4 && kind != 0) throw mc::Prune();
    World<D> w({{1.3, 0.9, 0.7}}, splits(D, mc::choose(3, "elements")));
    w.set(kind);
    R3 n = direction(D, mc::choose(5, "direction"));
    std::shared_ptr<DGMax::FieldPattern<D>> f;
    C3 constant{{Z(0.3, 1), -2, Z(0, 0.4)}};
    if (what == 1)
        f = interfaceField<D>(omega, 1, 2, n, 0.4321, 1, 0.3, false);
    else if (what == 3)
        f = std::make_shared<DGMax::ConstantField<D>>(cplx<D>(constant));
    else
        f = std::make_shared<DGMax::PlaneWave<D>>(DGMax::PlaneWave<D>::onDispersion(omega, real<D>(n), cplx<D>(polarisation(D, n, 1)), DGMax::Material(2.25, 1), 0.3));
    std::unique_ptr<HarmonicProblem<D>> problem;
    ExactHarmonicProblem<D>* exact = nullptr;
    int rotate = mc::choose(4, "boundary conditions");  // 3: those that nobody chose
    std::map<const Base::Face*, BCT> bct;
    {
        int i = rotate;
        static const BCT all[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER};
        for (auto* face : w.faces) bct[face] = rotate == 3 ? BCT::DIRICHLET : all[i++ % 3];
    }
    Field e, c;
    if constexpr (D == 3)
        if (what == 4) {
            auto* p = new DGMax::SarmanyHarmonicProblem(omega);
            problem.reset(p);
            exact = p;
            if (rotate < 3) p->setBoundaryConditionIndicator([&](const Base::Face& face) { return bct.at(&face); });
            e = [](const R3& x) {
                double s[3];
                for (int d = 0; d < 3; ++d) s[d] = std::sin(M_PI * x[d]);
                return C3{{s[1] * s[2], s[2] * s[0], s[0] * s[1]}};
            };
            c = [p](const R3& x) { return vertical<D>(p->exactSolutionCurl(point<D>(x))); };
        }
    if (what == 2) {
        if (rotate != 3) throw mc::Prune();
        problem.reset(new DGMax::ScatteringProblem<D>(omega, f));
    } else if (what < 4) {
        auto* p = new DGMax::ExactFieldHarmonicProblem<D>(omega, f);
        problem.reset(p);
        exact = p;
        if (rotate < 3) p->setBoundaryConditionIndicator([&](const Base::Face& face) { return bct.at(&face); });
    }
    if (what < 4) e = field<D>(*f), c = curlOf<D>(*f);
    mc::requireClose(problem->omega(), omega, 0, "frequency");
    mc::require(problem->isScatterFieldProblem() == (what == 2), "scattered field or not");
    for (auto* el : w.elements) {
        auto& m = w.constants[el];
        for (int k = 0; k < 3; ++k) {
            auto q = el->getReferenceGeometry()->getCenter().template castDimension<D>();
            for (std::size_t d = 0; d < D; ++d) q[d] += 0.07 * (int(k + d) % 3 - 1);
            auto p = el->referenceToPhysical(q);
            R3 x = three<D>(p);
            double front = 0;
            for (std::size_t d = 0; d < D; ++d) front += n[d] * x[d];
            if (what == 1 && std::abs(front - 0.4321) < 0.01) continue;
            Field b = [&](const R3& y) { return scale(m.imu, c(y)); };
            C3 E = e(x), want = lin(1, curl(b, x, D), -omega * omega, scale(m.eps, E));
            if (what == 2) want = lin(-1, want, 0, want);
            same(planar<D>(problem->sourceTerm(*el, p)), want, 20 + size(want), "source term");
            if (exact) {
                same(planar<D>(exact->exactSolution(p)), E, size(E), "solution");
                C3 C = curl(e, x, D);
                same(vertical<D>(exact->exactSolutionCurl(p)), C, size(C), "curl of the solution");
                same(planar<D>(problem->incidentField(p)), C3{}, 1, "incident field of a problem for the total field");
                same(planar<D>(problem->incidentFieldCurl(p)), C3{}, 1, "curl of the incident field of a problem for the total field");
            } else {
                same(planar<D>(problem->incidentField(p)), E, size(E), "incident field");
                same(vertical<D>(problem->incidentFieldCurl(p)), c(x), size(c(x)), "curl of the incident field");
            }
        }
    }
    if (what == 2) {  // the layer only takes up the scattered field
        auto* el = w.elements[0];
        LinearAlgebra::SmallVector<D> off, dir, depth;
        for (std::size_t d = 0; d < D; ++d) off[d] = 0.1, dir[d] = d == 0, depth[d] = 0.5;
        PMLElementInfos<D> layer(DGMax::Material(2.0, 1.1), off, dir, depth, 3.0);
        auto* old = el->getUserData();
        el->setUserData(&layer);
        auto p = el->referenceToPhysical(el->getReferenceGeometry()->getCenter().template castDimension<D>());
        same(planar<D>(problem->sourceTerm(*el, p)), C3{}, 1, "source term of a scattered field in an absorbing layer");
        el->setUserData(static_cast<ElementInfos*>(old));
    }
    w.eachFace([&](Base::Face* face, Base::PhysicalFace<D>& pf, const C3& normal) {
        BCT t = problem->getBoundaryConditionType(*face);
        mc::require(t == bct[face], "type of boundary condition ", int(t), " instead of ", int(bct[face]));
        auto got = problem->boundaryCondition(pf);
        R3 x = three<D>(pf.getPointPhysical());
        auto* el = face->getPtrElementLeft();
        auto& inf = ElementInfos::get(*el);
        C3 want{};
        if (what != 2) want = boundaryValue<D>(t, normal, e(x), c(x), w.constants[el], omega, std::sqrt(inf.getPermittivity() / inf.getPermeability()));
        same(vertical<D>(got), want, size(want), mc::str("boundary value of type ", int(t)));
    });
}
// ---------------------------------------------------------------------------------------------- the trench
template <std::size_t D>
void trench() {
    double omega = mc::pick<double>({3.7, 6.4}, "frequency"), width = mc::pick<double>({1.3, 2.0}, "width"), length = mc::pick<double>({0.9, 1.7}, "length");
    int m = mc::choose(4, "material"), far = mc::choose(4, "far end");  // 3: nobody chose
    std::size_t waves = 1 + mc::choose(2, "half waves");
    int layer = mc::choose(3, "absorbing layer");
    double kx = waves * M_PI / width, k2 = omega * omega * epsOf[m] * muOf[m];
    if (k2 - kx * kx < 0.1) throw mc::Prune();
    double ky = std::sqrt(k2 - kx * kx);
    World<D> w({{width, length, 0.6}}, splits(D, mc::choose(3, "elements")));
    w.set(m);
    DGMax::TrenchReflectionProblem<D> problem(omega, width, waves, length, DGMax::Material(epsOf[m], muOf[m]));
    static const BCT all[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER};
    BCT end = far == 3 ? BCT::SILVER_MULLER : all[far];
    if (far < 3) problem.setFarEndBoundaryCondition(end);
    double start = 0.55 * length, strength = layer == 2 ? 2.9 : 1.1, depth = length - start;
    if (layer) problem.setPML(start, strength, depth);
    double a = strength / (depth * depth * depth);
    auto stretch = [&](double y) { return layer && y > start ? 1. + I * a * (y - start) * (y - start) / omega : Z(1); };
    Field e = [&](const R3& x) { return planar<D>(problem.exactSolution(point<D>(x))); };
    Field c = [&](const R3& x) { return vertical<D>(problem.exactSolutionCurl(point<D>(x))); };
    mc::requireClose(problem.omega(), omega, 0, "frequency");
    for (double fx : {0.13, 0.5, 0.87})
        for (double fy : {0.08, 0.3, 0.7, 0.95}) {
            R3 x{{fx * width, fy * length, 0.2}};
            C3 E = e(x), C = c(x), want = curl(e, x, D, stretch(x[1]));
            same(C, want, size(want) + size(E), "trench: curl");
            same(curl(c, x, D, stretch(x[1])), lin(k2, E, 0, E), k2 * size(E), "trench: equation");
            mc::require(size(E) > 1e-3, "trench: no field");
            C3 s = planar<D>(problem.sourceTerm(*w.elements[0], point<D>(x)));
            same(s, C3{}, 1, "trench: source");
        }
    w.eachFace([&](Base::Face* face, Base::PhysicalFace<D>& pf, const C3& n) {
        R3 x = three<D>(pf.getPointPhysical());
        BCT want = n[0] != 0. ? BCT::DIRICHLET : n[1] == 1. ? end : n[1] == -1. ? BCT::SILVER_MULLER : BCT::NEUMANN;
        BCT got = problem.getBoundaryConditionType(*face);
        mc::require(got == want, "trench: boundary condition of type ", int(got), " instead of ", int(want), " on the side with normal ", n[0].real(), " ", n[1].real(), " ", n[2].real());
        C3 E = e(x), C = c(x);
        C3 v = vertical<D>(problem.boundaryCondition(pf));
        C3 op = boundaryValue<D>(want, n, E, C, w.constants[face->getPtrElementLeft()], omega, std::sqrt(epsOf[m] / muOf[m]));
        double s = size(E) * (1 + omega * 4) + size(C) * 4;
        if (want == BCT::DIRICHLET)
            same(op, v, s, "trench: field on a mirror");
        else
            same(cross(n, op), cross(n, v), s, mc::str("trench: condition of type ", int(want)));
        if (n[1] == -1.) {  // what comes in: two plane waves
            C3 in = lin(std::exp(I * kx * x[0]), {{1, -kx / ky, 0}}, std::exp(-I * kx * x[0]), {{1, kx / ky, 0}});
            C3 K1{{I * kx, I * ky, 0}}, K2{{-I * kx, I * ky, 0}};
            C3 cin = lin(std::exp(I * kx * x[0]), cross(K1, {{1, -kx / ky, 0}}), std::exp(-I * kx * x[0]), cross(K2, {{1, kx / ky, 0}}));
            C3 g = boundaryValue<D>(BCT::SILVER_MULLER, n, in, cin, scalar(epsOf[m], muOf[m]), omega, std::sqrt(epsOf[m] / muOf[m]));
            same(cross(n, v), cross(n, g), size(g), "trench: incident wave");
        }
    });
    // square root of the integral of |E|^2 over the far side, per unit of height; the integrand is periodic
    double sum = 0;
    const int N = 64;
    for (int i = 0; i < N; ++i) sum += std::pow(size(e({{width * (i + 0.5) / N, length, 0.1}})), 2) * width / N;
    mc::requireClose(problem.farSideL2FieldIntegral(), std::sqrt(sum), 1e-9 * std::max(1., sum), "trench: integral over the far side");
}
// ---------------------------------------------------------------------------------------------- in time
template <std::size_t D>
void inTime() {
    typedef SampleTestProblems<D> T;
    static const typename T::Problem all[] = {T::CONSTANT, T::LINEAR, T::SINSIN, T::SARMANY2013};
    int k = mc::choose(D == 3 ? 4 : 3, "problem");
    T problem(all[k]);
    double t = mc::pick<double>({0, 0.3, 0.5, 1, 2.2, 7}, "time");
    World<D> w({{1.3, 0.9, 0.7}}, splits(D, mc::choose(3, "elements")));
    auto value = [&](const R3& x, double s) { return planar<D>(problem.exactSolution(point<D>(x), s)); };
    for (auto& x : places) {
        auto p = point<D>(x);
        Field e = [&](const R3& y) { return value(y, t); };
        Field c = [&](const R3& y) { return vertical<D>(problem.exactSolutionCurl(point<D>(y), t)); };
        same(c(x), curl(e, x, D), 10, "curl in time");
        // second derivative in time
        Field rate = [&](const R3& s) { return derivative([&](const R3& r) { return value(x, r[0]); }, s, 0); };
        C3 tt = derivative(rate, {{t, 0, 0}}, 0);
        C3 want = lin(1, tt, 1, curl(c, x, D));
        same(planar<D>(problem.sourceTerm(p, t)), want, 50, "source in time", 1e-7);
        same(planar<D>(problem.initialCondition(p)), value(x, 0), 1, "initial field");
        same(planar<D>(problem.initialConditionDerivative(p)), rate({{0, 0, 0}}), 10, "derivative of the initial field");
        // the value that the name of the problem promises
        C3 named{};
        for (std::size_t d = 0; d < D; ++d) {
            if (k == 0) named[d] = 1;
            if (k == 1) named[d] = t;
            if (k == 2) named[d] = std::pow(std::sin(M_PI * x[d]), 2) * std::sin(M_PI * t);
            if (k == 3) named[d] = std::sin(M_PI * x[(d + 1) % 3]) * std::sin(M_PI * x[(d + 2) % 3]) * (std::cos(t) + std::cos(t / 2) + std::cos(t / 3));
        }
        same(value(x, t), named, 3, "solution in time");
    }
    mc::requireClose(problem.conductivity(), 0, 0, "conductivity");
    w.eachFace([&](Base::Face*, Base::PhysicalFace<D>& pf, const C3& n) {
        R3 x = three<D>(pf.getPointPhysical());
        TimeIntegrationProblem<D>& p = problem;
        SeparableTimeIntegrationProblem<D>& s = problem;
        same(vertical<D>(p.boundaryCondition(t, pf)), cross(n, value(x, t)), 3, "boundary value in time");
        same(vertical<D>(s.boundaryConditionRef(pf) * s.timeScalingBoundary(t)), cross(n, value(x, t)), 3, "separated boundary value in time");
    });
}
// ---------------------------------------------------------------------------------------------- bands
template <std::size_t D>
void bands() {
    // reduced bases of reciprocal lattices
    static const std::array<R3, 3> two[] = {{{{{2, 0, 0}}, {{0, 2, 0}}, {{0, 0, 0}}}},
                                            {{{{2, 0, 0}}, {{0, 3, 0}}, {{0, 0, 0}}}},
                                            {{{{2, 0, 0}}, {{1, std::sqrt(3.), 0}}, {{0, 0, 0}}}},
                                            {{{{2, 0, 0}}, {{-1, std::sqrt(3.), 0}}, {{0, 0, 0}}}},
                                            {{{{2, 0.3, 0}}, {{0.4, 2.5, 0}}, {{0, 0, 0}}}}};
    static const std::array<R3, 3> all[] = {{{{{2, 0, 0}}, {{0, 2, 0}}, {{0, 0, 2}}}},
                                            {{{{2, 0, 0}}, {{0, 2.4, 0}}, {{0, 0, 3.1}}}},
                                            {{{{-1, 1, 1}}, {{1, -1, 1}}, {{1, 1, -1}}}},
                                            {{{{0, 1.5, 1.5}}, {{1.5, 0, 1.5}}, {{1.5, 1.5, 0}}}},
                                            {{{{2, 0.3, 0}}, {{0.4, 2.5, 0}}, {{0, 0.2, 2.2}}}}};
    int lattice = mc::choose(5, "lattice");
    auto& b = D == 2 ? two[lattice] : all[lattice];
    double eps = mc::pick<double>({1, 2.25}, "permittivity"), fmax = mc::pick<double>({0.37, 1.61, 2.93}, "highest frequency");
    std::array<LinearAlgebra::SmallVector<D>, D> basis;
    for (std::size_t d = 0; d < D; ++d) basis[d] = real<D>(b[d]);
    HomogeneousBandStructure<D> structure(basis, eps);
    // k-points of the first Brillouin zone: coordinates in the basis
    static const R3 ks[] = {{{0, 0, 0}}, {{0.5, 0, 0}}, {{0.1, 0.2, 0.15}}, {{0, 0.5, 0}}, {{-0.21, 0.09, 0.3}}, {{0.25, 0.25, 0.25}}};
    auto at = [&](const R3& c) {
        R3 r{};
        for (std::size_t d = 0; d < D; ++d)
            for (std::size_t i = 0; i < D; ++i) r[i] += c[d] * b[d][i];
        return r;
    };
    auto length = [](const R3& x) { return std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
    auto frequencies = [&](const R3& k) {
        std::vector<double> r;
        const int n = 6;
        for (int i = -n; i <= n; ++i)
            for (int j = -n; j <= n; ++j)
                for (int l = (D == 3 ? -n : 0); l <= (D == 3 ? n : 0); ++l) {
                    R3 g = at({{double(i), double(j), double(l)}});
                    for (int d = 0; d < 3; ++d) g[d] -= k[d];
                    double f = length(g) / std::sqrt(eps);
                    if (f < fmax) r.push_back(f);
                }
        std::sort(r.begin(), r.end());
        return r;
    };
    int k1 = mc::choose(6, "point");
    bool line = mc::choose(2, "line");
    R3 a = at(ks[k1]);
    if (!line) {
        std::vector<double> want;
        for (double f : frequencies(a)) {
            mc::require(std::abs(f - fmax) > 1e-6, "the highest frequency of the bound is a mode");
            for (int i = 0; i < (D == 3 ? 2 : 1) + (f < 1e-12 ? 1 : 0); ++i) want.push_back(f);
        }
        auto got = structure.computeLinearSpectrum(real<D>(a), fmax);
        mc::require(got.size() == want.size(), "spectrum: ", got.size(), " modes instead of ", want.size());
        for (std::size_t i = 0; i < got.size(); ++i) mc::requireClose(got[i], want[i], 1e-9, mc::str("spectrum: mode ", i));
        auto grouped = structure.computeSpectrum(real<D>(a), fmax);
        std::size_t i = 0;
        for (auto& g : grouped) {
            mc::require(g.second > 0, "spectrum: frequency without a mode");
            for (std::size_t j = 0; j < g.second; ++j, ++i) {
                mc::require(i < want.size(), "spectrum: too many modes in the groups");
                mc::requireClose(g.first, want[i], 1e-4, mc::str("spectrum: grouped mode ", i));
            }
            mc::require(i == want.size() || want[i] - want[i - 1] > 1e-6, "spectrum: equal modes in different groups");
        }
        mc::require(i == want.size(), "spectrum: ", i, " grouped modes instead of ", want.size());
        return;
    }
    int k2 = mc::choose(6, "second point");
    if (k1 == k2) throw mc::Prune();
    R3 c = at(ks[k2]);
    auto lines = structure.computeLines(real<D>(a), real<D>(c), fmax);
    for (double s : {0., 0.25, 0.6, 1.}) {
        R3 k;
        for (int d = 0; d < 3; ++d) k[d] = a[d] + s * (c[d] - a[d]);
        std::vector<double> got;
        for (std::size_t i = 0; i < lines->numberOfLines(); ++i) {
            double f = lines->frequency(i, s);
            for (std::size_t j = 0; j < lines->multiplicity(i); ++j)
                if (f < fmax) got.push_back(f);
        }
        std::sort(got.begin(), got.end());
        auto want = frequencies(k);
        mc::require(got.size() == want.size(), "lines: ", got.size(), " modes instead of ", want.size(), " at ", s);
        for (std::size_t i = 0; i < got.size(); ++i) mc::requireClose(got[i], want[i], 1e-4, mc::str("lines: mode ", i, " at ", s));
    }
}
// modes of a stack of two layers with wave vector k: half the trace of the transfer matrix is cos(kx)
static std::vector<double> stackModes(double e1, double e2, double f, const R3& k, bool tm, double top) {
    double kt2 = k[1] * k[1] + k[2] * k[2];
    auto value = [&](double w) {
        Z m[2][2] = {{1, 0}, {0, 1}};
        for (int layer = 0; layer < 2; ++layer) {
            double eps = layer ? e2 : e1, d = layer ? 1 - f : f, p = tm ? eps : 1;
            Z q = std::sqrt(Z(eps * w * w - kt2)), c = std::cos(q * d), s = std::abs(q) < 1e-7 ? Z(d) : std::sin(q * d) / q;
            Z l[2][2] = {{c, s * p}, {-q * q * s / p, c}}, r[2][2];
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) r[i][j] = l[i][0] * m[0][j] + l[i][1] * m[1][j];
            std::copy(&r[0][0], &r[0][0] + 4, &m[0][0]);
        }
        return (0.5 * (m[0][0] + m[1][1])).real() - std::cos(k[0]);
    };
    std::vector<double> r;
    const int n = 3000;
    double before = value(1e-9);
    for (int i = 1; i <= n; ++i) {
        double a = top * (i - 1) / n + (i == 1 ? 1e-9 : 0), b = top * i / n, after = value(b);
        if ((before < 0) != (after < 0)) {
            double left = before;
            for (int j = 0; j < 50; ++j) {
                double c = (a + b) / 2, v = value(c);
                ((v < 0) == (left < 0) ? a : b) = c;
            }
            r.push_back((a + b) / 2);
        }
        before = after;
    }
    return r;
}
static std::vector<double> stackSpectrum(double e1, double e2, double f, const R3& k, double top) {
    std::vector<double> all;
    for (int i = -2; i <= 2; ++i)
        for (int j = -2; j <= 2; ++j)
            for (bool tm : {false, true}) {
                auto r = stackModes(e1, e2, f, {{k[0], k[1] + 2 * M_PI * i, k[2] + 2 * M_PI * j}}, tm, top);
                for (std::size_t a = 1; a < r.size(); ++a)
                    if (r[a] - r[a - 1] < 0.02 * top) throw mc::Prune();  // the search of the library assumes that modes are apart
                all.insert(all.end(), r.begin(), r.end());
            }
    std::sort(all.begin(), all.end());
    return all;
}
static void stack() {
    double e1 = mc::pick<double>({1, 2.25, 13}, "first permittivity"), e2 = mc::pick<double>({1, 4}, "second permittivity"), f = mc::pick<double>({0.5, 0.3}, "fraction");
    // away from the edges of the zone, where bands touch
    static const R3 ks[] = {{{0.7, 0, 0}}, {{2, 0.4, 0}}, {{-1.3, 0.9, -0.5}}, {{1.1, -2, 2.9}}};
    R3 k = ks[mc::choose(4, "point")];
    double top = mc::pick<double>({1.93, 3.71}, "highest frequency");
    BraggStackBandstructure structure(e1, e2, f);
    auto want = stackSpectrum(e1, e2, f, k, top);
    bool lines = mc::choose(2, "lines");
    if (!lines) {
        auto got = structure.computeLinearSpectrum(real<3>(k), top);
        mc::require(got.size() == want.size(), "stack: ", got.size(), " modes instead of ", want.size());
        for (std::size_t i = 0; i < got.size(); ++i) mc::requireClose(got[i], want[i], 1e-6, mc::str("stack: mode ", i));
        std::size_t n = 0;
        for (auto& g : structure.computeSpectrum(real<3>(k), top))
            for (std::size_t j = 0; j < g.second; ++j, ++n) {
                mc::require(n < want.size(), "stack: too many modes in the groups");
                mc::requireClose(g.first, want[n], 1e-3, mc::str("stack: grouped mode ", n));
            }
        mc::require(n == want.size(), "stack: ", n, " grouped modes instead of ", want.size());
        return;
    }
    R3 k2 = ks[mc::choose(4, "second point")];
    if (k2 == k) throw mc::Prune();
    auto set = structure.computeLines(real<3>(k), real<3>(k2), top);
    for (int end = 0; end < 2; ++end) {
        std::vector<double> got;
        for (std::size_t i = 0; i < set->numberOfLines(); ++i) {
            double v = set->frequency(i, end);
            for (std::size_t j = 0; j < set->multiplicity(i); ++j)
                if (v < top) got.push_back(v);
        }
        std::sort(got.begin(), got.end());
        auto modes = end ? stackSpectrum(e1, e2, f, k2, top) : want;
        mc::require(got.size() == modes.size(), "stack: ", got.size(), " modes on the lines instead of ", modes.size(), " at end ", end);
        for (std::size_t i = 0; i < got.size(); ++i) mc::requireClose(got[i], modes[i], 1e-4, mc::str("stack: mode ", i, " on the lines at end ", end));
    }
}
// walks through the points of a path in k-space
template <std::size_t D>
void path() {
    std::size_t steps = 1 + mc::choose(4, "steps");
    int kind = mc::choose(3, "cube, cube and back, free");
    std::vector<R3> corner{{{0, 0, 0}}};
    std::unique_ptr<KSpacePath<D>> p;
    if (kind < 2) {
        corner.push_back({{M_PI, 0, 0}});
        corner.push_back({{M_PI, M_PI, 0}});
        if (D == 3) corner.push_back({{M_PI, M_PI, M_PI}});
        if (kind) corner.push_back(corner[0]);
        p.reset(new KSpacePath<D>(KSpacePath<D>::cubePath(steps, kind)));
    } else {
        std::size_t n = 1 + mc::choose(4, "corners");
        corner.clear();
        for (std::size_t i = 0; i < n; ++i) corner.push_back({{0.3 + i, 1. - 0.4 * i * i, 0.2 * i}});
        std::vector<LinearAlgebra::SmallVector<D>> c;
        for (auto& x : corner) c.push_back(real<D>(x));
        p.reset(new KSpacePath<D>(c, steps));
    }
    std::size_t total = 1 + (corner.size() - 1) * steps;
    mc::require(p->totalNumberOfSteps() == total, "path: ", p->totalNumberOfSteps(), " points instead of ", total);
    mc::require(p->numberOfCornerPoints() == corner.size(), "path: ", p->numberOfCornerPoints(), " corners instead of ", corner.size());
    for (std::size_t i = 0; i < corner.size(); ++i)
        for (std::size_t d = 0; d < D; ++d) mc::requireClose(p->kcorner(i)[d], corner[i][d], 1e-14, mc::str("path: corner ", i));
    for (std::size_t i = 0; i < total; ++i) {
        std::size_t a = i / steps, b = std::min(a + 1, corner.size() - 1);
        double t = double(i % steps) / steps;
        for (std::size_t d = 0; d < D; ++d) {
            mc::requireClose(p->k(i)[d], corner[a][d] * (1 - t) + corner[b][d] * t, 1e-13, mc::str("path: point ", i));
            mc::requireClose(p->dk(i)[d], i ? p->k(i)[d] - p->k(i - 1)[d] : p->k(0)[d], 1e-13, mc::str("path: step ", i));
        }
        mc::require(p->dkDidChange(i) == (i == 0 || (i - 1) % steps == 0), "path: turn at ", i);
    }
}
template <std::size_t D>
void part(int which) {
    switch (which) {
        case 0: return planeWave<D>();
        case 1: return interface<D>();
        case 2: return exactProblem<D>();
        case 3: return trench<D>();
        case 4: return inTime<D>();
        case 5: return bands<D>();
        case 6:
            if (D == 2) throw mc::Prune();
            return stack();
        default: return path<D>();
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    return mc::run([&] {
        int which = mc::choose(8, "plane wave, interface, problem, trench, in time, bands, stack, path");
        if (mc::choose(2, "dimension-2"))
            part<3>(which);
        else
            part<2>(which);
        mc::state(mc::joinChoices());
    });
}
