// C30: materials, absorbing layers, fluxes and transmissions follow the zones of the whole mesh, on every process.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "DGMaxProgramUtils.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Utils/FluxFacets.h"
#include "Utils/PMLTransmission.h"
#include <unistd.h>
using namespace hpgem;
typedef std::complex<double> Z;
// ---------------------------------------------------------------- texts
static std::string word(const std::string& alphabet, int maxLength, const char* label) {
    std::string s;
    int n = mc::choose(maxLength + 1, label);
    for (int i = 0; i < n; ++i) s += alphabet[mc::choose(alphabet.size(), "character")];
    return s;
}
static void splitCase() {
    std::string s = word("a,;", mc::tier(6, 8), "length");
    for (char sep : {',', ';'}) {
        auto parts = DGMax::stringSplit(s, sep);
        std::vector<std::string> want;
        if (!s.empty()) want.emplace_back();
        for (char c : s)
            if (c == sep)
                want.emplace_back();
            else
                want.back() += c;
        mc::step();
        mc::require(parts == want, "'", s, "' split at '", sep, "' gives ", parts.size(), " parts");
    }
    mc::state(s);
}
template <class F>
bool refused(F f) {
    try {
        f();
    } catch (mc::Fatal&) {
        return true;
    } catch (std::exception&) {
        return true;
    }
    return false;
}
template <std::size_t DIM>
void describeCase() {
    static const char* names[] = {"PML", "a b", "", "x-1"};
    std::string name = names[mc::choose(4, "name")];
    std::string dirs = word("+-0x", DIM + 1, "directions");
    int fields = DIM - 1 + mc::choose(3, "fields");
    static const std::vector<std::pair<const char*, double>> nums = {{"1e-2", 1e-2}, {"1", 1}, {"0.5", 0.5}, {"0", 0}, {"2", 2}, {"-1", -1}, {".1x", NAN}, {"", NAN}};
    std::string text = name + "," + dirs;
    bool ok = !name.empty() && dirs.size() == DIM && fields == int(DIM);
    std::vector<double> want;
    int code = mc::choose(nums.size() * nums.size(), "numbers");
    for (int i = 0; i < fields; ++i) {
        auto& x = nums[i == 0 ? code % nums.size() : i == 1 ? code / nums.size() : (code * 3 + 1) % 3];
        text += mc::str(",", x.first);
        want.push_back(x.second);
        if (ok) {
            if (dirs[i] == 'x' || std::isnan(x.second)) ok = false;
            if (dirs[i] != '0' && !(x.second > 0 && x.second <= 1)) ok = false;
        }
    }
    mc::note(text);
    DGMax::PMLZoneDescription<DIM> d;
    bool no = refused([&] { d = DGMax::parsePMLZoneDescription<DIM>(text); });
    mc::step();
    mc::require(no == !ok, "the description '", text, "' of an absorbing layer is ", no ? "refused" : "accepted");
    mc::state(text);
    if (no) return;
    mc::require(d.zoneName_ == name, "name '", d.zoneName_, "'");
    for (std::size_t i = 0; i < DIM; ++i) {
        mc::require(d.direction_[i] == (dirs[i] == '+' ? 1 : dirs[i] == '-' ? -1 : 0), "direction ", i, " of '", text, "' is ", d.direction_[i]);
        mc::require(d.attenuation_[i] == want[i], "attenuation ", i, " of '", text, "' is ", d.attenuation_[i]);
    }
}
// ---------------------------------------------------------------- distributed meshes
static const std::vector<std::string> zoneNames = {"Main", "pml A", "pml B"};
struct Rule {
    const char* pattern;
    std::function<bool(const std::string&)> matches;
    const char* value;
    double epsilon;
};
static const std::vector<Rule> rules = {
    {"pml.*", [](const std::string& s) { return s.substr(0, 3) == "pml"; }, "4", 4},
    {"Main", [](const std::string& s) { return s == "Main"; }, "2.5e0", 2.5},
    {".*", [](const std::string&) { return true; }, "1", 1},
    {"pml [A,Q]", [](const std::string& s) { return s == "pml A"; }, "12.1", 12.1},
    {"ain", [](const std::string& s) { return s == "ain"; }, "7", 7},
};
static double epsilonOf(const std::vector<int>& rs, const std::string& zone) {
    for (int r : rs)
        if (rules[r].matches(zone)) return rules[r].epsilon;
    return -1;
}
template <std::size_t DIM>
int indexOf(const mg::Mesh& m, const Base::Element* e) {
    std::vector<mg::X> x;
    auto* g = e->getPhysicalGeometry();
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
        x.emplace_back();
        for (std::size_t d = 0; d < 3; ++d) x.back()[d] = d < DIM ? p[d < DIM ? d : 0] : 0;
    }
    int r = dist::findElement(m, x);
    mc::require(r >= 0, "element ", e->getID(), " is not in the mesh file");
    return r;
}
// the value that the pretended solution has on a face, seen from element e
static double value(int e, int local, int other, int component, double wavenumber, bool background) {
    return (5 * e + 11 * (other + 1) + 3 * local + 7 * component + int(wavenumber * 4) + 2 * background) % 23 - 9;
}
static double squared(int e, int local) { return 1 + (7 * e + 3 * local) % 19; }
template <std::size_t DIM>
struct Background : DGMax::FieldPattern<DIM> {
    typedef DGMax::FieldPattern<DIM> F;
    typename F::VecC field(const typename F::PPhys&) const override { return {}; }
    typename F::VecC fieldCurl(const typename F::PPhys&) const override { return {}; }
    typename F::VecC fieldDoubleCurl(const typename F::PPhys&, const DGMax::MaterialTensor&) const override { return {}; }
};
template <std::size_t DIM>
struct Pretended : DGMax::AbstractHarmonicResult<DIM> {
    const mg::Mesh& m;
    Base::MeshManipulator<DIM>& mesh;
    Pretended(const mg::Mesh& m, Base::MeshManipulator<DIM>& mesh) : m(m), mesh(mesh) {}
    const HarmonicProblem<DIM>& solvedProblem() override { throw mc::Violation{"harness: solvedProblem"}; }
    Base::MeshManipulator<DIM>& getMesh() override { return mesh; }
    void writeVTK(Output::VTKSpecificTimeWriter<DIM>&) override {}
    LinearAlgebra::SmallVectorC<DIM> computeField(const Base::Element*, const Geometry::PointReference<DIM>&) override { return {}; }
    LinearAlgebra::SmallVectorC<DIM> computeFieldCurl(const Base::Element*, const Geometry::PointReference<DIM>&) override { return {}; }
    double computeL2Error(const ExactHarmonicProblem<DIM>&) override { return 0; }
    LinearAlgebra::SmallVector<4> computeEnergyFlux(Base::Face& f, Base::Side s, double wavenumber, const DGMax::FieldPattern<DIM>* b) override {
        const Base::Element *e = f.getPtrElementLeft(), *o = f.getPtrElementRight();
        int local = f.localFaceNumberLeft();
        if (s == Base::Side::RIGHT) {
            mc::require(f.isInternal(), "flux from the right side of a boundary face");
            std::swap(e, o);
            local = f.localFaceNumberRight();
        }
        LinearAlgebra::SmallVector<4> r;
        for (int i = 0; i < 4; ++i) r[i] = value(indexOf<DIM>(m, e), local, o ? indexOf<DIM>(m, o) : -1, i, wavenumber, b);
        return r;
    }
    double computeFieldL2Integral(Base::Face& f, Base::Side s) override {
        mc::require(s == Base::Side::LEFT, "squared field from the right side of a boundary face");
        return squared(indexOf<DIM>(m, f.getPtrElementLeft()), f.localFaceNumberLeft());
    }
};
// size and outward unit normal of a flat face
static double faceSize(const mg::Mesh& m, int e, int local, double n[3]) {
    auto x = m.coordsOf(e);
    auto& v = mg::table(m.elems[e].shape).faces[local];
    double c[3] = {0, 0, 0}, fc[3] = {0, 0, 0};
    for (auto& p : x)
        for (int d = 0; d < 3; ++d) c[d] += p[d] / x.size();
    for (int i : v)
        for (int d = 0; d < 3; ++d) fc[d] += x[i][d] / v.size();
    double a[3], b[3] = {0, 0, 1};
    for (int d = 0; d < 3; ++d) a[d] = x[v[1]][d] - x[v[0]][d];
    if (m.dim == 3)
        for (int d = 0; d < 3; ++d) b[d] = x[v[2]][d] - x[v[0]][d];
    for (int d = 0; d < 3; ++d) n[d] = a[(d + 1) % 3] * b[(d + 2) % 3] - a[(d + 2) % 3] * b[(d + 1) % 3];
    double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), out = 0;
    for (int d = 0; d < 3; ++d) out += n[d] * (fc[d] - c[d]);
    for (int d = 0; d < 3; ++d) n[d] /= out > 0 ? l : -l;
    return m.dim == 3 && v.size() == 3 ? l / 2 : l;  // a quadrilateral is a parallelogram here
}
struct Layer {
    int zone;
    const char* directions;
    double attenuation[3];
};
static const std::vector<std::vector<Layer>> layers = {
    {{1, "+-0", {1e-2, 0.25, 1}}},
    {{2, "-00", {0.5, 3, 0}}, {1, "0++", {7, 1e-3, 0.125}}},
    {{1, "---", {0.1, 0.2, 0.3}}, {0, "+0+", {1, 0, 0.5}}, {2, "000", {0, 0, 0}}},
    {},
};
template <std::size_t DIM>
std::string observe(const mg::Mesh& m, const std::string& fn, const std::vector<int>& rs, const std::string& description, const std::vector<Layer>& ls) {
    Base::ConfigurationData config(2, 1);
    auto structure = DGMax::determineStructureDescription(description, DIM);
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh = DGMax::readMesh<DIM>(fn, &config, *structure, 2);
    const auto I = Base::IteratorType::GLOBAL;
    std::vector<std::unique_ptr<Base::UserData>> own;
    for (Base::Element* e : mesh->getElementsList(I)) {
        int i = indexOf<DIM>(m, e);
        auto* info = ElementInfos::get(e);
        own.emplace_back(info);
        mc::require(info->getPermittivity() == epsilonOf(rs, zoneNames[m.elems[i].zone]), "element ", i, " in zone '", zoneNames[m.elems[i].zone],
                    "' has permittivity ", info->getPermittivity());
        mc::require(info->getPermeability() == 1, "element ", i, " has permeability ", info->getPermeability());
    }
    // bounding boxes
    std::vector<std::array<double, 6>> box(zoneNames.size());
    std::vector<bool> used(zoneNames.size(), false);
    for (auto& b : box)
        for (int d = 0; d < 3; ++d) {
            b[d] = 1e9;
            b[3 + d] = -1e9;
        }
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        used[m.elems[e].zone] = true;
        for (auto& x : m.coordsOf(e))
            for (int d = 0; d < 3; ++d) {
                auto& b = box[m.elems[e].zone];
                b[d] = std::min(b[d], x[d]);
                b[3 + d] = std::max(b[3 + d], x[d]);
            }
    }
    auto boxes = DGMax::computeZoneBoundingBoxes(*mesh);
    mc::require(boxes.size() == zoneNames.size(), boxes.size(), " bounding boxes");
    for (std::size_t z = 0; z < box.size(); ++z)
        if (used[z])
            for (std::size_t d = 0; d < DIM; ++d)
                mc::require(boxes[z].first[d] == box[z][d] && boxes[z].second[d] == box[z][3 + d], "zone ", z, " is said to reach from ", boxes[z].first[d], " to ",
                            boxes[z].second[d], " in direction ", d);
    // absorbing layers
    std::vector<DGMax::PMLZoneDescription<DIM>> ds;
    for (auto& l : ls) {
        DGMax::PMLZoneDescription<DIM> d;
        d.zoneName_ = zoneNames[l.zone];
        for (std::size_t i = 0; i < DIM; ++i) {
            d.direction_[i] = l.directions[i] == '+' ? 1 : l.directions[i] == '-' ? -1 : 0;
            d.attenuation_[i] = l.attenuation[i];
        }
        ds.push_back(d);
    }
    auto infos = DGMax::applyPMLs(*mesh, ds);
    for (double omega : {0.75, 3.}) {
        for (auto& i : infos) i->setDispersionWavenumber(omega);
        for (Base::Element* e : mesh->getElementsList(I)) {
            int i = indexOf<DIM>(m, e);
            const Layer* l = nullptr;
            for (auto& x : ls)
                if (x.zone == m.elems[i].zone) l = &x;
            auto& info = ElementInfos::get(*e);
            mc::require(info.isDispersive() == bool(l), "element ", i, l ? " in" : " outside", " an absorbing layer has the material of one that is ",
                        info.isDispersive() ? "inside" : "outside");
            double eps = epsilonOf(rs, zoneNames[m.elems[i].zone]);
            mc::require(info.getPermittivity() == eps, "element ", i, " has permittivity ", info.getPermittivity(), " with absorbing layers");
            auto x = m.coordsOf(i);
            x.push_back(x[0]);
            for (int d = 0; d < 3; ++d) x.back()[d] = (x[0][d] + 3 * x[1][d]) / 4;
            for (auto& p : x) {
                Geometry::PointPhysical<DIM> q;
                Z s[3] = {1, 1, 1};
                for (std::size_t d = 0; d < DIM; ++d) {
                    q[d] = p[d];
                    if (!l || l->directions[d] == '0') continue;
                    auto& b = box[l->zone];
                    double depth = b[3 + d] - b[d], xi = (l->directions[d] == '+' ? p[d] - b[d] : b[3 + d] - p[d]) / depth;
                    // exp(2 i k int s) over the depth has the size of the attenuation, s - 1 is quadratic
                    double total = -std::log(l->attenuation[d]) / (2 * std::sqrt(eps) * omega);
                    s[d] += Z(0, 3 * xi * xi * total / depth);
                }
                Z one[3] = {s[1] * s[2] / s[0], s[0] * s[2] / s[1], s[0] * s[1] / s[2]};
                LinearAlgebra::SmallVectorC<3> ones{1., 1., 1.};
                auto div = info.getMaterialConstantDiv(q).applyDiv(ones), curl = info.getMaterialConstantCurl(q).applyCurl(ones),
                     field = info.getFieldRescaling(q).applyDiv(ones), fieldCurl = info.getCurlFieldRescaling(q).applyCurl(ones);
                for (int d = 0; d < 3; ++d) {
                    auto same = [&](Z a, Z b, const char* what) {
                        mc::step();
                        mc::require(std::abs(a - b) < 1e-10 * (1 + std::abs(b)), what, " of element ", i, ", component ", d, " is ", a, " instead of ", b);
                    };
                    same(div[d], eps * one[d], "permittivity");
                    same(curl[d], 1. / one[d], "inverse permeability");
                    same(field[d], 1. / s[d], "rescaling of the field");
                    same(fieldCurl[d], 1. / (s[(d + 1) % 3] * s[(d + 2) % 3]), "rescaling of the curl");
                }
            }
        }
    }
    // fluxes
    Pretended<DIM> result(m, *mesh);
    Background<DIM> background;
    DGMax::FluxFacets facets(*mesh);
    dist::Blob b;
    auto names = facets.getFacetNames();
    std::map<std::string, std::pair<int, int>> want;
    for (auto& f : m.faces) {
        int a = m.elems[f[0].first].zone, c = f.size() > 1 ? m.elems[f[1].first].zone : -1;
        if (a == c) continue;
        if (c >= 0 && a > c) std::swap(a, c);
        want["flux-" + zoneNames[a] + (c < 0 ? "" : "--" + zoneNames[c])] = {a, c};
    }
    mc::require(names.size() == want.size(), names.size(), " facets instead of ", want.size());
    for (auto& n : names) {
        mc::require(want.count(n), "facet '", n, "' does not exist");
        b.str(n);
    }
    mc::require(std::set<std::string>(names.begin(), names.end()).size() == names.size(), "a facet occurs twice");
    for (double wavenumber : {0.75, 3.}) {
        const DGMax::FieldPattern<DIM>* bg = wavenumber > 1 ? &background : nullptr;
        auto fluxes = facets.computeFluxes(result, wavenumber, bg);
        mc::require(fluxes.size() == names.size(), fluxes.size(), " fluxes for ", names.size(), " facets");
        for (std::size_t k = 0; k < names.size(); ++k)
            for (int i = 0; i < 4; ++i) {
                double total = 0;
                auto z = want[names[k]];
                for (auto& f : m.faces) {
                    for (std::size_t side = 0; side < f.size(); ++side) {
                        int e = f[side].first, o = f.size() > 1 ? f[1 - side].first : -1;
                        if (m.elems[e].zone == z.first && (o < 0 ? -1 : m.elems[o].zone) == z.second) total += value(e, f[side].second, o, i, wavenumber, bg);
                    }
                }
                mc::step();
                mc::require(fluxes[k][i] == total, "component ", i, " of '", names[k], "' is ", fluxes[k][i], " instead of ", total);
            }
    }
    // transmissions
    DGMax::PMLTransmission<DIM> transmission(*mesh);
    std::map<std::string, std::pair<double, double>> sums;
    for (auto& f : m.faces) {
        if (f.size() > 1) continue;
        int e = f[0].first;
        for (auto& l : ls) {
            if (l.zone != m.elems[e].zone) continue;
            double n[3], in = 0, size = faceSize(m, e, f[0].second, n);
            for (std::size_t d = 0; d < DIM; ++d) in += n[d] * (l.directions[d] == '+' ? 1 : l.directions[d] == '-' ? -1 : 0);
            if (in < 1e-3) continue;
            auto& s = sums[zoneNames[l.zone]];
            s.first += squared(e, f[0].second);
            s.second += size;
        }
    }
    auto tn = transmission.getFacetNames();
    mc::require(tn.size() == sums.size(), tn.size(), " zones with transmission instead of ", sums.size());
    auto values = transmission.pmlTransmission(result);
    mc::require(values.size() == tn.size(), values.size(), " transmissions for ", tn.size(), " zones");
    for (std::size_t k = 0; k < tn.size(); ++k) {
        mc::require(sums.count(tn[k]), "transmission of '", tn[k], "'");
        b.str(tn[k]);
        auto s = sums[tn[k]];
        mc::step();
        mc::requireClose(values[k], std::sqrt(s.first / s.second), 1e-12, "transmission of '", tn[k], "'");
    }
    for (Base::Element* e : mesh->getElementsList(I)) e->setUserData(nullptr);
    return b.s;
}
// ---------------------------------------------------------------- error norms
static double volume(const mg::Mesh& m, int e) {  // of a simplex
    auto x = m.coordsOf(e);
    double a[3][3] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int i = 0; i < m.dim; ++i)
        for (int d = 0; d < 3; ++d) a[i][d] = x[i + 1][d] - x[0][d];
    if (m.dim == 2) a[2][0] = a[2][1] = 0, a[2][2] = 1;
    double det = 0;
    for (int d = 0; d < 3; ++d) det += a[0][d] * (a[1][(d + 1) % 3] * a[2][(d + 2) % 3] - a[1][(d + 2) % 3] * a[2][(d + 1) % 3]);
    return std::abs(det) / (m.dim == 2 ? 2 : 6);
}
template <std::size_t DIM>
std::string errors(const mg::Mesh& m, const std::string& fn, int order, bool div) {
    Base::ConfigurationData config(div ? 2 : 1, 1);
    auto structure = DGMax::determineStructureDescription(".*,2", DIM);
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh = DGMax::readMesh<DIM>(fn, &config, *structure, 2);
    std::shared_ptr<DGMax::AbstractDiscretization<DIM>> d;
    std::vector<std::unique_ptr<Base::UserData>> own;
    for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) own.emplace_back(e->getUserData());
    if (div) {
        typename DivDGMaxDiscretization<DIM>::Stab s;
        s.stab1 = 5;
        s.stab2 = 0.1;
        s.stab3 = 5;
        s.setAllFluxeTypes(DivDGMaxDiscretization<DIM>::FluxType::IP);
        d = std::make_shared<DivDGMaxDiscretization<DIM>>(order, s);
    } else
        d = std::make_shared<DGMaxDiscretization<DIM>>(order, 5);
    d->initializeBasisFunctions(*mesh);
    for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) {
        LinearAlgebra::MiddleSizeVector v(e->getNumberOfBasisFunctions(0) + (div ? e->getNumberOfBasisFunctions(1) : 0));
        e->setTimeIntegrationVector(0, v);
    }
    // the error of the zero solution is the norm of a field that is constant on every element
    auto field = [&](int shift) {
        return [&m, shift](const Base::Element& e, const Geometry::PointPhysical<DIM>&) {
            LinearAlgebra::SmallVectorC<DIM> r;
            r[0] = Z(1 + indexOf<DIM>(m, &e), shift);
            return r;
        };
    };
    double l2 = 0, curl = 0;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        l2 += ((1 + e) * (1 + e) + 1) * volume(m, e);
        curl += ((1 + e) * (1 + e) + 9) * volume(m, e);
    }
    mc::step();
    double got = d->computeL2Error(*mesh, 0, field(1));
    mc::requireClose(got, std::sqrt(l2), 1e-11, "L2 error");
    if (!div) {
        typedef DGMaxDiscretization<DIM> D;
        auto all = static_cast<D&>(*d).computeError(*mesh, 0, field(1), field(3), {D::NormType::L2, D::NormType::HCurl});
        mc::requireClose(all.at(D::NormType::L2), std::sqrt(l2), 1e-11, "L2 error with other norms");
        mc::requireClose(all.at(D::NormType::HCurl), std::sqrt(l2 + curl), 1e-11, "error in the norm with curl");
        all = static_cast<D&>(*d).computeError(*mesh, 0, field(1), field(3), {D::NormType::HCurl});
        mc::require(all.size() == 1, all.size(), " norms instead of one");
        mc::requireClose(all.at(D::NormType::HCurl), std::sqrt(l2 + curl), 1e-11, "error in the norm with curl, alone");
    }
    for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) e->setUserData(nullptr);
    return mc::str(got);
}
static void errorCase(const std::vector<mg::Mesh>& cat, const std::string& fn) {
    const mg::Mesh& m = mc::pick(cat, "mesh");
    mc::note(m.name);
    int P = 1 + mc::choose(mc::tier(3, 4), "P-1"), div = mc::choose(2, "discretisation"), order = 1 + mc::choose(2, "order-1");
    std::size_t n = m.elems.size();
    if (P > int(n) || (P > 2 && n > (mc::thorough() ? 6 : 4))) throw mc::Prune();
    std::vector<int> ps = mg::chooseParts(n, P);
    m.write(fn, ps, P);
    mcmpi::Options o;
    o.mode = div;
    mcmpi::explore(
        P, o, [&](int) { return m.dim == 2 ? errors<2>(m, fn, order, div) : errors<3>(m, fn, order, div); },
        [&](const std::vector<std::string>& res) {
            mc::state(mc::joinChoices());
            mc::outcome(res[0]);
        });
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    std::vector<mg::Mesh> cat;
    cat.push_back(mg::grid(2, mg::pt(2, 1, 1), "t"));
    cat.push_back(mg::grid(2, mg::pt(2, 2, 1), "b", mg::pt(0, 0), 1));
    cat.push_back(mg::hybrid2());
    cat.push_back(mg::grid(3, mg::pt(2, 1, 1), "b"));
    cat.push_back(mg::grid(3, mg::pt(3, 1, 1), "b", mg::pt(1, 0, 0)));
    cat.push_back(mg::hybrid3(1));
    cat.push_back(mg::grid(3, mg::pt(1, 1, 1), "t", mg::pt(0, 0, 0), 1));
    if (mc::thorough()) {
        cat.push_back(mg::grid(2, mg::pt(3, 2, 1), "tb"));
        cat.push_back(mg::grid(2, mg::pt(3, 1, 1), "t", mg::pt(1, 0), 1));
        cat.push_back(mg::grid(3, mg::pt(2, 2, 1), "b"));
    }
    // some meshes at negative coordinates, some around the origin
    for (std::size_t i = 0; i < cat.size(); ++i) {
        const double shift = i % 3 == 0 ? -6 : i % 3 == 2 ? -0.75 : 0;
        auto phi = cat[i].phi;
        const int dim = cat[i].dim;
        cat[i].phi = [=](const mg::L& l) {
            mg::X x = phi(l);
            for (int d = 0; d < dim; ++d) x[d] += shift;
            return x;
        };
        cat[i].derive();
    }
    for (auto& m : cat) m.zones = zoneNames;
    std::vector<mg::Mesh> simplices{mg::grid(2, mg::pt(2, 1, 1), "t", mg::pt(0, 0), 1), mg::grid(3, mg::pt(1, 1, 1), "t", mg::pt(0, 0, 0), 1)};
    std::string fn = mc::str("m", getpid(), ".hpgem"), zn = mc::str("z", getpid(), ".csv");
    int rc = mc::run([&] {
        int part = mc::choose(4, "part");
        if (part == 3) return errorCase(simplices, fn);
        if (part == 0) return splitCase();
        if (part == 1) return mc::choose(2, "dimension") ? describeCase<3>() : describeCase<2>();
        mg::Mesh m = mc::pick(cat, "mesh");
        mc::note(m.name);
        std::size_t n = m.elems.size();
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        if (P > int(n) || (P > 2 && n > (mc::thorough() ? 5 : 4))) throw mc::Prune();
        // zones: every map from elements to zones of the small meshes, otherwise those that cut the list twice
        if (n <= 4)
            for (auto& e : m.elems) e.zone = mc::choose(3, "zone");
        else {
            std::size_t a = mc::choose(n + 1, "cut"), c = mc::choose(n + 1, "cut");
            if (c < a) throw mc::Prune();
            for (std::size_t e = 0; e < n; ++e) m.elems[e].zone = (e < a ? 1 : e < c ? 0 : 2);
        }
        int il = mc::choose(layers.size(), "layers");
        if (!mc::thorough() && P == 3 && il != 1) throw mc::Prune();
        std::vector<int> ps = mg::chooseParts(n, P);
        // structure: an ordered selection of rules that cover the zones
        static const std::vector<std::vector<int>> structures = {{0, 1}, {3, 1, 0}, {4, 2}, {2, 0}, {0, 2, 3}};
        int is = P == 1 ? mc::choose(structures.size(), "structure") : (n + il) % structures.size();
        int how = P == 1 ? mc::choose(3, "description") : il % 3;
        std::string text;
        for (std::size_t i = 0; i < structures[is].size(); ++i) {
            auto& r = rules[structures[is][i]];
            if (i || how == 1) text += how < 2 ? ";" : "\n";
            text += mc::str(r.pattern, ",", r.value);
        }
        if (how == 2) {
            std::ofstream(zn) << "\n" << text << "\n\n";
            text = zn;
        }
        m.write(fn, ps, P);
        mcmpi::Options o;
        o.mode = il % 2;
        mcmpi::explore(
            P, o,
            [&](int) {
                return m.dim == 2 ? observe<2>(m, fn, structures[is], text, layers[il]) : observe<3>(m, fn, structures[is], text, layers[il]);
            },
            [&](const std::vector<std::string>& res) {
                for (auto& r : res) {
                    mc::state(mc::str(mc::joinChoices(), r));
                    mc::require(r == res[0], "the processes list the facets in different orders");
                }
                mc::outcome(res[0]);
            });
    });
    unlink(fn.c_str());
    unlink(zn.c_str());
    return rc;
}
