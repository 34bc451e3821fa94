// C08: a written partitioned mesh file describes one mesh with complete ghost layers.
#include "pre.h"
#include "prefile.h"
#include "preread.h"
#include "catalog.h"
#include "MergePlan.h"
#include "output.h"
using namespace hpgem;

template <std::size_t D>
void write(Preprocessor::Mesh<D>& mesh, const std::vector<int>& part, int P, const std::string& out) {
    outputFileName.getValue() = out;
    Preprocessor::MeshData<std::size_t, D, D> partition(&mesh);
    for (std::size_t e = 0; e < part.size(); ++e) partition[e] = part[e];
    Preprocessor::outputMesh<std::size_t, D>(mesh, partition, P);
}
// connects the periodic sides one direction after the other
template <std::size_t D>
void connect(const mg::Mesh& m, Preprocessor::Mesh<D>& mesh, const std::vector<mg::L>& pts, bool backwards) {
    for (std::size_t k = 0; k < D; ++k) {
        std::size_t d = backwards ? D - 1 - k : k;
        if (!m.period[d]) continue;
        std::map<pre::CoordId, pre::CoordId> p;
        for (std::size_t i = 0; i < pts.size(); ++i)
            for (std::size_t j = 0; j < pts.size(); ++j) {
                mg::L x = pts[i];
                x[d] += m.period[d];
                if (x == pts[j]) {
                    if (backwards)
                        p[pre::CoordId(j)] = pre::CoordId(i);
                    else
                        p[pre::CoordId(i)] = pre::CoordId(j);
                }
            }
        auto plan = Preprocessor::MergePlan<D>::computeMergePlan(&mesh, p);
        plan.executeMerge();
    }
    mesh.removeUnusedEntities();
}
template <std::size_t D>
void all(const mg::Mesh& m, int P, bool solver) {
    // how the preprocessor got the mesh: complete from the start, or connected later, or a copy
    int how = mc::choose(m.period == mg::L{{0, 0, 0}} ? 2 : 4, "construction");
    auto part = mg::chooseParts(m.elems.size(), P);
    std::string out = mc::str("w", getpid(), ".hpgem");
    Preprocessor::Mesh<D> mesh;
    bool selfTouching = false;
    for (std::size_t d = 0; d < D; ++d)
        if (m.period[d] && m.period[d] < 6) selfTouching = true;
    if (how < 2 && selfTouching) throw mc::Prune();  // see the findings of C07: only connecting afterwards can build these
    if (how >= 2)
        connect<D>(m, mesh, pre::flat<D>(m, mesh), how == 3);
    else
        pre::folded<D>(m, mesh);
    if (how == 1) {
        Preprocessor::Mesh<D> copy(mesh);
        write<D>(copy, part, P, out);
    } else
        write<D>(mesh, part, P, out);
    auto f = pf::parse(out);
    pf::check(f, m, part, P);
    if (solver && !selfTouching) preread::check(m, out, part, P);
    unlink(out.c_str());
    std::string s = m.name;
    for (int p : part) s += char('0' + p);
    mc::state(s);
}
static void coordinates() {
    static const std::vector<double> nasty = {0.1, 1. / 3, -0.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-17, 123456789.123456789, 1 + 2.220446049250313e-16, 1e100, -3.14159265358979312, 4.9e-310};
    int i = mc::choose(nasty.size(), "first"), j = mc::choose(nasty.size(), "second"), D = 1 + mc::choose(3, "dimension-1");
    if (i == j || nasty[i] == nasty[j]) throw mc::Prune();
    mg::Mesh m = mg::grid(D, mg::pt(1, 1, 1), "b");
    auto base = m.phi;
    double a = nasty[i], b = nasty[j];
    m.phi = [=](const mg::L& l) {
        mg::X x = base(l);
        for (int d = 0; d < D; ++d) x[d] = (l[d] ? b : a);
        if (D > 1) x[D - 1] = l[D - 1] ? a * (a == 0 ? 1 : 0.5) + 1 : -b / 3;
        return x;
    };
    m.derive();
    std::string out = mc::str("w", getpid(), ".hpgem");
    std::vector<int> part(1, 0);
    if (D == 1) {
        Preprocessor::Mesh<1> mesh;
        pre::folded<1>(m, mesh);
        write<1>(mesh, part, 1, out);
    } else if (D == 2) {
        Preprocessor::Mesh<2> mesh;
        pre::folded<2>(m, mesh);
        write<2>(mesh, part, 1, out);
    } else {
        Preprocessor::Mesh<3> mesh;
        pre::folded<3>(m, mesh);
        write<3>(mesh, part, 1, out);
    }
    pf::check(pf::parse(out), m, part, 1);
    // what the solver reads, bit for bit
    mcmpi::Options o;
    mcmpi::explore(1, o, [&](int) { return D == 1 ? preread::body<1>(out) : D == 2 ? preread::body<2>(out) : preread::body<3>(out); },
                   [&](const std::vector<std::string>& res) {
                       dist::Blob blob(res[0]);
                       auto v = dist::parse(blob);
                       mc::require(v.elems.size() == 1, "wrong number of elements");
                       auto want = m.coordsOf(0);
                       mc::require(v.elems[0].x.size() == want.size(), "wrong number of vertices");
                       for (std::size_t k = 0; k < want.size(); ++k)
                           for (int d = 0; d < D; ++d)
                               if (std::memcmp(&v.elems[0].x[k][d], &want[k][d], sizeof(double))) mc::fail("coordinate ", want[k][d], " is read as ", v.elems[0].x[k][d]);
                   });
    unlink(out.c_str());
    mc::state(mc::str("coordinates ", i, " ", j, " ", D));
}
// the space reserved for the counts must fit whatever the number of nodes is
static void sizes() {
    static const std::vector<int> n = {1, 7, 8, 9, 10, 98, 99, 100, 998, 999, 1000};
    int k = mc::pick(n, "elements"), P = mc::pick(std::vector<int>{1, 2, 3, 11}, "partitions"), how = mc::choose(3, "distribution");
    mg::Mesh m = mg::grid(1, mg::pt(k, 1, 1), "b");
    mg::zonesByParity(m);
    std::vector<int> part(k);
    for (int e = 0; e < k; ++e) part[e] = how == 0 ? 0 : how == 1 ? e % P : P - 1;
    std::string out = mc::str("w", getpid(), ".hpgem");
    Preprocessor::Mesh<1> mesh;
    pre::folded<1>(m, mesh);
    write<1>(mesh, part, P, out);
    pf::check(pf::parse(out), m, part, P);
    unlink(out.c_str());
    mc::state(mc::str("sizes ", k, " ", P, " ", how));
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    auto cat = mg::catalog(mc::thorough());
    // periodic meshes whose elements are neighbours of themselves or twice of each other
    auto extra = [&](mg::Mesh m) {
        mg::zonesByParity(m);
        cat.push_back(m);
    };
    using mg::pt;
    extra(mg::grid(1, pt(1, 1, 1), "b", pt(1), 1));
    extra(mg::grid(1, pt(2, 1, 1), "b", pt(1), 0));
    extra(mg::grid(2, pt(1, 1, 1), "t", pt(1, 1), 1));
    extra(mg::grid(2, pt(2, 1, 1), "b", pt(1, 1), 0));
    extra(mg::grid(2, pt(2, 2, 1), "b", pt(0, 1), 1));
    extra(mg::grid(3, pt(1, 1, 1), "b", pt(1, 1, 1), 1));
    extra(mg::grid(3, pt(2, 1, 1), "b", pt(1, 0, 1), 0));
    extra(mg::grid(3, pt(1, 1, 1), "t", pt(1, 1, 1), 0));
    extra(mg::grid(3, pt(1, 1, 1), "p", pt(0, 0, 1), 1));
    extra(mg::grid(3, pt(1, 1, 1), "y", pt(0, 0, 0), 1));
    // large enough for elements whose neighbours are not all neighbours of each other
    extra(mg::grid(1, pt(7, 1, 1), "b"));
    extra(mg::grid(2, pt(4, 2, 1), "b", pt(0), 1));
    extra(mg::grid(2, pt(5, 1, 1), "t", pt(0), 0));
    extra(mg::grid(2, pt(6, 1, 1), "b", pt(1), 1));
    extra(mg::grid(3, pt(2, 3, 1), "b", pt(0), 1));
    extra(mg::grid(3, pt(1, 2, 3), "b", pt(0), 0));
    extra(mg::grid(3, pt(3, 1, 1), "p", pt(0), 1));
    extra(mg::grid(3, pt(2, 1, 1), "t", pt(0), 1));
    return mc::run([&] {
        switch (mc::choose(3, "part")) {
            case 1: return coordinates();
            case 2: return sizes();
        }
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        const mg::Mesh& m = mc::pick(cat, "mesh");
        std::size_t n = m.elems.size();
        if ((P == 2 && n > std::size_t(mc::tier(10, 12))) || (P == 3 && n > std::size_t(mc::tier(6, 8))) || (P == 4 && n > 6)) throw mc::Prune();
        mc::note(m.name);
        bool solver = mc::thorough() ? n <= 6 : P <= 2 && n <= 5;
        m.dim == 1 ? all<1>(m, P, solver) : m.dim == 2 ? all<2>(m, P, solver) : all<3>(m, P, solver);
    });
}
