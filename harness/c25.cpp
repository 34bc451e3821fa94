// C25: wave-vector paths and Bloch phase shifts of the Maxwell solver.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "petsc.h"
#include "Utilities/GlobalIndexing.h"
#include "Utils/KSpacePath.h"
#include "Utils/FaceKPhaseShiftBuilder.h"
#include "Utils/CGDGMatrixKPhaseShiftBuilder.h"
#include "DGMaxProgramUtils.h"
using namespace hpgem;
typedef std::complex<double> Z;
// ---------------------------------------------------------------- paths
template <std::size_t DIM>
void pathCase() {
    std::size_t n = 1 + mc::choose(mc::tier(4, 5), "points-1");
    std::size_t steps = 1 + mc::choose(mc::tier(5, 7), "steps-1");
    typedef LinearAlgebra::SmallVector<DIM> V;
    std::vector<V> pts(n);
    static const double vals[] = {0, 1, -0.5, 3.141592653589793};
    for (std::size_t i = 0; i < n; ++i) {
        int code = mc::choose(mc::thorough() ? 6 : 4, "point");
        for (std::size_t d = 0; d < DIM; ++d) pts[i][d] = vals[(code + d * (code > 1)) % 4] * (1 + 0.1 * (code / 4));
    }
    KSpacePath<DIM> path(pts, steps);
    mc::require(path.numberOfCornerPoints() == n, "number of corners ", path.numberOfCornerPoints());
    mc::require(path.totalNumberOfSteps() == 1 + (n - 1) * steps, path.totalNumberOfSteps(), " points on the path");
    for (std::size_t c = 0; c < n; ++c)
        for (std::size_t d = 0; d < DIM; ++d) mc::require(path.kcorner(c)[d] == pts[c][d], "corner ", c);
    V last;
    for (std::size_t i = 0; i < path.totalNumberOfSteps(); ++i) {
        std::size_t seg = i / steps, off = i % steps;
        V k = path.k(i), want = pts[seg];
        if (off)
            for (std::size_t d = 0; d < DIM; ++d) want[d] += (pts[seg + 1][d] - pts[seg][d]) * off / double(steps);
        for (std::size_t d = 0; d < DIM; ++d) mc::requireClose(k[d], want[d], 1e-13, "k(", i, "), component ", d);
        if (off == 0)
            for (std::size_t d = 0; d < DIM; ++d) mc::require(k[d] == pts[seg][d], "corner ", seg, " is not visited exactly");
        V dk = path.dk(i);
        for (std::size_t d = 0; d < DIM; ++d) mc::requireClose(dk[d], i ? k[d] - last[d] : k[d], 1e-13, "dk(", i, "), component ", d);
        bool changed = path.dkDidChange(i);
        if (i == 0) mc::require(changed, "dk at the first point is not marked as changed");
        if (!changed) {
            V before = path.dk(i - 1);
            for (std::size_t d = 0; d < DIM; ++d) mc::requireClose(dk[d], before[d], 1e-13, "dk(", i, ") is not marked as changed, but did");
        }
        if (i > 1 && off != 1 % steps) mc::require(!changed, "dk(", i, ") is marked as changed in the middle of a segment");
        last = k;
        mc::step();
    }
    auto single = KSpacePath<DIM>::singleStepPath(pts[0]);
    mc::require(single.totalNumberOfSteps() == 1, "a single point takes ", single.totalNumberOfSteps(), " steps");
    for (std::size_t d = 0; d < DIM; ++d) mc::require(single.k(0)[d] == pts[0][d], "single point");
    for (bool back : {false, true}) {
        auto cube = KSpacePath<DIM>::cubePath(steps, back);
        mc::require(cube.numberOfCornerPoints() == DIM + 1 + back, "corners of the cube path");
        for (std::size_t c = 0; c < cube.numberOfCornerPoints(); ++c)
            for (std::size_t d = 0; d < DIM; ++d)
                mc::requireClose(cube.k(c * steps)[d], c <= DIM && d < c ? M_PI : 0., 1e-13, "corner ", c, " of the cube path, component ", d);
    }
    mc::state(mc::str("path", DIM, n, steps, mc::joinChoices()));
}
// path = (steps '@')? point (':' point)*
template <std::size_t DIM>
void parseCase() {
    static const std::vector<std::pair<const char*, double>> nums = {{"1", 1}, {"-0.5", -0.5}, {"2e-1", 0.2}, {"0", 0}};
    int s = mc::choose(4, "steps");
    std::size_t n = 1 + mc::choose(3, "points-1");
    static const char* seps[] = {":", " ", " : "};
    const char* sep = n > 1 ? seps[mc::choose(3, "separator")] : "";
    std::string text;
    if (s) text = mc::str(s == 3 ? 20 : s, "@");
    std::vector<std::vector<double>> want;
    for (std::size_t i = 0; i < n; ++i) {
        if (i) text += sep;
        int code = mc::choose(mc::thorough() ? 4 : 3, "coordinates");
        want.emplace_back();
        for (std::size_t d = 0; d < DIM; ++d) {
            auto& x = nums[(code + d) % nums.size()];
            if (d) text += ",";
            text += x.first;
            want.back().push_back(x.second);
        }
    }
    mc::note(text);
    DGMax::PointPath<DIM> p = DGMax::parsePath<DIM>(text);
    mc::require(p.steps_ == (s == 0 ? -1 : s == 3 ? 20 : s), "number of steps ", p.steps_);
    mc::require(p.points_.size() == n, p.points_.size(), " points");
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < DIM; ++d) mc::require(p.points_[i][d] == want[i][d], "coordinate ", d, " of point ", i, " is ", p.points_[i][d]);
    mc::state(text);
}
// ---------------------------------------------------------------- phase shifts
static const double waves[][3] = {{0.3, -0.7, 0.45}, {0, 0, 0}, {1.1, 0.2, -0.9}};
inline double entry(double a, double b, std::size_t i, std::size_t j, int kind) {
    return 1 + 0.013 * std::sin(7 * a) + 0.011 * std::cos(3 * b) + 0.1 * i + 0.01 * j + kind;
}
template <std::size_t DIM>
double tag(const Base::Element* e) {  // identifies an element of the mesh
    auto* g = e->getPhysicalGeometry();
    double r = 0;
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
        const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
        for (std::size_t d = 0; d < DIM; ++d) r += p[d] * (1 + 0.37 * d);
    }
    return r;
}
static double tag(const mg::Mesh& m, int e) {
    double r = 0;
    for (auto& p : m.coordsOf(e))
        for (int d = 0; d < m.dim; ++d) r += p[d] * (1 + 0.37 * d);
    return r;
}
template <std::size_t DIM>
LinearAlgebra::SmallVector<DIM> gauge(const Base::Element* e) {
    LinearAlgebra::SmallVector<DIM> r;
    for (std::size_t d = 0; d < DIM; ++d) r[d] = 0.21 * tag<DIM>(e) + d;
    return r;
}
template <std::size_t DIM>
std::string shifts(const std::string& fn, int dgOrder, int cgOrder, bool extra) {
    Base::ConfigurationData config(2, 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    mesh.useDefaultDGBasisFunctions(dgOrder);
    mesh.useDefaultConformingBasisFunctions(cgOrder, 1);
    dist::Blob b;
    dist::capture(mesh, b);
    std::vector<std::size_t> dgs{0}, cgs{1};
    Utilities::GlobalIndexing dg(&mesh, Utilities::GlobalIndexing::BLOCKED_PROCESSOR, &dgs), cg(&mesh, Utilities::GlobalIndexing::BLOCKED_PROCESSOR, &cgs);
    // numbering
    for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        b.i(e->getID());
        b.i(e->getLocalNumberOfBasisFunctions(0));
        b.i(dg.getGlobalIndex(e, 0));
        auto ent = [&](auto* x) {
            b.i(x->getLocalNumberOfBasisFunctions(1));
            b.i(cg.getGlobalIndex(x, 1));
            b.i(e->getBasisFunctionOffset(x, 1));
        };
        for (auto* f : e->getFacesList()) ent(f);
        for (auto* f : e->getEdgesList()) ent(f);
        for (auto* f : e->getNodesList()) ent(f);
    }
    DGMax::FaceMatrixKPhaseShiftBuilder<DIM> fb;
    fb.setMatrixExtractor([&](const Base::Face* f) {
        const Base::Element *l = f->getPtrElementLeft(), *r = f->getPtrElementRight();
        std::size_t n = l->getLocalNumberOfBasisFunctions(0), k = r->getLocalNumberOfBasisFunctions(0);
        LinearAlgebra::MiddleSizeMatrix a(n, k), c(k, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < k; ++j) {
                a(i, j) = entry(tag<DIM>(l), tag<DIM>(r), i, j, 0);
                c(j, i) = entry(tag<DIM>(r), tag<DIM>(l), j, i, 0);
            }
        return std::make_pair(a, c);
    });
    DGMax::CGDGMatrixKPhaseShiftBuilder<DIM> cb;
    cb.setMatrixExtractor([&](const Base::Element* e) {
        std::size_t n = e->getNumberOfBasisFunctions(1), k = e->getNumberOfBasisFunctions(0);
        LinearAlgebra::MiddleSizeMatrix a(n, k);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < k; ++j) a(i, j) = entry(tag<DIM>(e), 0, i, j, 1);
        return a;
    });
    if (extra) {
        fb.setExtraShift([&](const Base::Face* f) { return gauge<DIM>(f->getPtrElementLeft()) - gauge<DIM>(f->getPtrElementRight()); });
        cb.setExtraShift([&](const Base::Element* e) { return gauge<DIM>(e); });
    }
    DGMax::KPhaseShifts<DIM> fs = fb.build(dg), cs = cb.build(cg, dg);
    for (auto& w : waves) {
        LinearAlgebra::SmallVector<DIM> k;
        for (std::size_t d = 0; d < DIM; ++d) k[d] = w[d];
        for (auto* s : {&fs, &cs}) {
            FakeMat m;
            s->apply(k, &m);
            mc::require(!m.open && m.assemblies == 1, "the matrix is not assembled after the shifts");
            mc::require(m.rowOriented, "the matrix is left with column orientation");
            b.i(m.entries.size());
            for (auto& e : m.entries) {
                b.i(e.first.first);
                b.i(e.first.second);
                b.d(e.second.value.real());
                b.d(e.second.value.imag());
                b.i(e.second.writes);
            }
        }
    }
    return b.s;
}
struct Num {
    long n, first, offset;
};
struct Written {
    Z value;
    int writer, writes;
};
typedef std::map<std::pair<int, int>, Written> Entries;
static void check(const mg::Mesh& m, int P, bool extra, const std::vector<std::string>& res) {
    std::vector<dist::Blob> bs;
    std::vector<dist::View> vs;
    for (auto& r : res) {
        bs.emplace_back(r);
        vs.push_back(dist::parse(bs.back()));
    }
    std::size_t N = m.elems.size();
    std::vector<Num> dg(N);
    std::vector<std::vector<std::vector<Num>>> ent(N, std::vector<std::vector<Num>>(3));
    for (int p = 0; p < P; ++p) {
        for (auto& e : vs[p].elems) e.mesh = dist::findElement(m, e.x);
        for (std::size_t k = 0; k < vs[p].elems.size(); ++k) {
            auto& e = vs[p].elems[vs[p].byId.at(bs[p].gi())];
            dg[e.mesh].n = bs[p].gi();
            dg[e.mesh].first = bs[p].gi();
            std::size_t counts[3] = {e.faces.size(), e.edges.size(), e.nodes.size()};
            for (int c = 0; c < 3; ++c) {
                ent[e.mesh][c].resize(counts[c]);
                for (auto& x : ent[e.mesh][c]) {
                    x.n = bs[p].gi();
                    x.first = bs[p].gi();
                    x.offset = bs[p].gi();
                }
            }
        }
    }
    auto gaugeOf = [&](int e, int d) { return 0.21 * tag(m, e) + d; };
    auto dot = [&](const double* w, const std::vector<double>& x) {
        double r = 0;
        for (int d = 0; d < m.dim; ++d) r += w[d] * x[d];
        return r;
    };
    auto centre = [&](int e, std::vector<int> locals) {
        std::vector<double> r(m.dim, 0.);
        auto c = m.coordsOf(e);
        for (int l : locals)
            for (int d = 0; d < m.dim; ++d) r[d] += c[l][d] / locals.size();
        return r;
    };
    for (auto& w : waves)
        for (int which = 0; which < 2; ++which) {
            Entries got;
            for (int p = 0; p < P; ++p) {
                long n = bs[p].gi();
                for (long i = 0; i < n; ++i) {
                    int r = bs[p].gi(), c = bs[p].gi();
                    double re = bs[p].gd(), im = bs[p].gd();
                    int writes = bs[p].gi();
                    Written x{Z(re, im), p, writes};
                    auto it = got.emplace(std::make_pair(r, c), x);
                    mc::require(it.second || std::abs(it.first->second.value - x.value) < 1e-12, "processes ", it.first->second.writer, " and ", p,
                                " insert different values at (", r, ",", c, ")");
                }
            }
            std::set<std::pair<int, int>> explained;
            auto expect = [&](int r, int c, Z v, const std::string& what) {
                auto it = got.find({r, c});
                mc::require(it != got.end(), what, ": entry (", r, ",", c, ") is not shifted");
                mc::require(std::abs(it->second.value - v) < 1e-11, what, ": entry (", r, ",", c, ") is ", it->second.value, " instead of ", v);
                explained.insert({r, c});
                mc::step();
            };
            if (which == 0) {
                for (std::size_t f = 0; f < m.faces.size(); ++f) {
                    if (m.faces[f].size() != 2 || !m.periodicFace(f)) continue;
                    for (int side = 0; side < 2; ++side) {
                        int a = m.faces[f][side].first, c = m.faces[f][1 - side].first;
                        auto xa = centre(a, mg::table(m.elems[a].shape).faces[m.faces[f][side].second]),
                             xc = centre(c, mg::table(m.elems[c].shape).faces[m.faces[f][1 - side].second]);
                        std::vector<double> dx(m.dim);
                        for (int d = 0; d < m.dim; ++d) dx[d] = xa[d] - xc[d] + (extra ? gaugeOf(a, d) - gaugeOf(c, d) : 0);
                        Z ph = std::exp(Z(0, dot(w, dx)));
                        for (long i = 0; i < dg[a].n; ++i)
                            for (long j = 0; j < dg[c].n; ++j)
                                expect(dg[a].first + i, dg[c].first + j, ph * entry(tag(m, a), tag(m, c), i, j, 0), mc::str("elements ", a, " and ", c));
                    }
                }
            } else {
                // group the (entity, element) pairs by entity
                struct At {
                    int elem;
                    Num num;
                    std::vector<double> x;
                };
                std::map<std::pair<int, int>, std::vector<At>> groups;
                for (std::size_t e = 0; e < N; ++e) {
                    auto& sh = mg::table(m.elems[e].shape);
                    for (std::size_t i = 0; i < ent[e][0].size(); ++i) groups[{0, m.elemFaces[e][i]}].push_back({(int)e, ent[e][0][i], centre(e, sh.faces[i])});
                    for (std::size_t i = 0; i < ent[e][1].size(); ++i)
                        groups[{1, m.elemEdges[e][i]}].push_back({(int)e, ent[e][1][i], centre(e, {sh.edges[i][0], sh.edges[i][1]})});
                    for (std::size_t i = 0; i < ent[e][2].size(); ++i) groups[{2, m.elemNodes[e][i].first}].push_back({(int)e, ent[e][2][i], centre(e, {(int)i})});
                }
                for (auto& g : groups) {
                    if (g.second[0].num.n == 0) continue;
                    std::string what = mc::str(g.first.first == 0 ? "face " : g.first.first == 1 ? "edge " : "node ", g.first.second);
                    // some element is the reference of the entity: all others carry the phase of their distance to it
                    auto differ = [&](const std::vector<double>& a, const std::vector<double>& b) {
                        for (int d = 0; d < m.dim; ++d)
                            if (std::abs(a[d] - b[d]) > 1e-9) return true;
                        return false;
                    };
                    std::vector<double> ref;
                    for (auto& t : g.second)
                        if (!got.count({int(t.num.first), int(dg[t.elem].first)})) {
                            mc::require(ref.empty() || !differ(ref, t.x), what, ": two elements on different sides of the periodic boundary are both not shifted");
                            ref = t.x;
                        }
                    mc::require(!ref.empty(), what, ": all elements are shifted");
                    for (auto& t : g.second) {
                        if (!got.count({int(t.num.first), int(dg[t.elem].first)})) continue;
                        std::vector<double> dx(m.dim);
                        mc::require(differ(ref, t.x), what, ": element ", t.elem, " is shifted although it does not cross the boundary");
                        for (int d = 0; d < m.dim; ++d) dx[d] = ref[d] - t.x[d] - (extra ? gaugeOf(t.elem, d) : 0);
                        Z ph = std::exp(Z(0, dot(w, dx)));
                        for (long i = 0; i < t.num.n; ++i)
                            for (long j = 0; j < dg[t.elem].n; ++j)
                                expect(t.num.first + i, dg[t.elem].first + j, ph * entry(tag(m, t.elem), 0, i + t.num.offset, j, 1), what + mc::str(" on element ", t.elem));
                    }
                }
            }
            for (auto& e : got)
                mc::require(explained.count(e.first), which ? "conforming" : "face", " coupling (", e.first.first, ",", e.first.second,
                            ") is changed although it does not cross a periodic boundary");
        }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    std::vector<mg::Mesh> cat;
    cat.push_back(mg::grid(2, mg::pt(3, 1, 1), "b", mg::pt(1, 0)));
    cat.push_back(mg::grid(2, mg::pt(3, 1, 1), "t", mg::pt(1, 0), 1));
    cat.push_back(mg::grid(2, mg::pt(4, 1, 1), "b", mg::pt(1, 0), 1));
    cat.push_back(mg::grid(2, mg::pt(3, 3, 1), "b", mg::pt(1, 1)));
    cat.push_back(mg::grid(2, mg::pt(3, 2, 1), "b", mg::pt(1, 0)));
    // edge coordinates are available on tetrahedra only: half of a row of cubes, all three tetrahedra of each
    auto wedges = [](mg::L n, mg::L per, int fam) {
        mg::Mesh m = mg::grid(3, n, "t", per, fam);
        std::vector<decltype(m.elems)::value_type> keep;
        for (auto& e : m.elems) {
            long y = 0, z = 0;
            for (auto& v : e.v) y += v[1], z += v[2];
            if (y > z) keep.push_back(e);
        }
        m.elems = keep;
        m.name += " half";
        m.derive();
        return m;
    };
    cat.push_back(wedges(mg::pt(3, 1, 1), mg::pt(1, 0, 0), 0));
    cat.push_back(mg::grid(3, mg::pt(3, 1, 1), "t", mg::pt(1, 0, 0)));
    cat.push_back(mg::grid(3, mg::pt(3, 3, 3), "t", mg::pt(1, 1, 1)));
    if (mc::thorough()) {
        cat.push_back(wedges(mg::pt(4, 1, 1), mg::pt(1, 0, 0), 1));
        cat.push_back(mg::grid(2, mg::pt(3, 3, 1), "t", mg::pt(1, 1)));
    }
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int part = mc::choose(3, "part");
        if (part == 0) {
            mc::choose(2, "dimension") ? pathCase<3>() : pathCase<2>();
            return;
        }
        if (part == 1) {
            int d = mc::choose(3, "dimension");
            d == 0 ? parseCase<1>() : d == 1 ? parseCase<2>() : parseCase<3>();
            return;
        }
        const mg::Mesh& m = mc::pick(cat, "mesh");
        mc::note(m.name);
        std::size_t n = m.elems.size();
        int P = 1 + mc::choose(3, "P-1");
        if (P == 3 && n > (mc::thorough() ? 9 : 5)) throw mc::Prune();
        bool family = P == 2 && n > (mc::thorough() ? 12 : 9);
        if (family && n > (mc::thorough() ? 200 : 20)) throw mc::Prune();
        static const std::vector<std::pair<int, int>> orders = {{0, 1}, {1, 2}, {0, 3}, {1, 4}};
        int io = mc::choose(orders.size(), "orders");
        bool extra = mc::choose(2, "extra shift");
        bool prism = false;
        for (auto& e : m.elems) prism = prism || e.shape == mg::PRISM;
        if (prism && orders[io].second > 3) throw mc::Prune();
        if (!mc::thorough() && (P > 1 && n > 4) && (extra != (io == 2) || io == 3 || (n > 6 && io != 1))) throw mc::Prune();
        std::vector<int> part2;
        if (family) {  // one element alone, or a cut through the list
            int which = mc::choose(2 * n, "family");
            for (int i = 0; i < int(n); ++i) part2.push_back(which < int(n) ? i == which : i > which - int(n));
        } else
            part2 = mg::chooseParts(n, P);
        m.write(fn, part2, P);
        mcmpi::Options o;
        o.mode = (io + extra) % 2;
        mcmpi::explore(
            P, o, [&](int) { return m.dim == 2 ? shifts<2>(fn, orders[io].first, orders[io].second, extra) : shifts<3>(fn, orders[io].first, orders[io].second, extra); },
            [&](const std::vector<std::string>& res) {
                std::string all;
                for (auto& x : res) {
                    all += x;
                    mc::state(x);
                }
                mc::outcome(all);
                check(m, P, extra, res);
            });
    });
    unlink(fn.c_str());
    return rc;
}
