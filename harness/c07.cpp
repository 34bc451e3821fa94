// C07: generated structured meshes are valid and tile the requested box.
#include "pre.h"
#include "prefile.h"
#include "preread.h"
#include "hpgem.h"
#include "MeshFactory.h"
#include "output.h"
using namespace hpgem;

struct Request {
    int dim;
    mg::L n{{1, 1, 1}};
    bool tri, per[3] = {false, false, false};
    double lo[3], hi[3];
};
static double coordinate(const Request& r, int d, int i) { return r.lo[d] + i * (r.hi[d] - r.lo[d]) / r.n[d]; }

// sample points strictly inside the simplices of a cell: a point of the cell in general position lies in exactly one
static int covers(const std::vector<mg::L>& v, const double* x, int dim) {
    // barycentric coordinates
    std::vector<mg::X> c;
    for (int i = 1; i <= dim; ++i) c.push_back(mg::X{{double(v[i][0] - v[0][0]), double(v[i][1] - v[0][1]), double(v[i][2] - v[0][2])}});
    double all = mg::det(c, dim), sum = 0;
    bool in = true;
    for (int i = 0; i < dim; ++i) {
        auto q = c;
        q[i] = mg::X{{x[0] - v[0][0], x[1] - v[0][1], x[2] - v[0][2]}};
        double b = mg::det(q, dim) / all;
        sum += b;
        if (b < 0) in = false;
    }
    return in && sum <= 1;
}

template <std::size_t D>
void generate(const Request& r) {
    std::string in = mc::str("s", getpid(), ".txt"), out = mc::str("s", getpid(), ".hpgem");
    {
        std::ofstream f(in);
        f.precision(17);
        f << "structured 1 " << D << "\n";
        for (std::size_t d = 0; d < D; ++d) f << r.n[d] << " ";
        f << "\n";
        for (std::size_t d = 0; d < D; ++d) f << r.lo[d] << " ";
        f << "\n";
        for (std::size_t d = 0; d < D; ++d) f << r.hi[d] << " ";
        f << "\n" << (r.tri ? "triangular" : "rectangular") << "\n";
        for (std::size_t d = 0; d < D; ++d) f << (r.per[d] ? "true " : "false ");
        f << "\n";
    }
    Preprocessor::HpgemReader reader(in);
    unlink(in.c_str());
    if (reader.getDimension() != D) mc::fail("wrong dimension");
    Preprocessor::Mesh<D> mesh = Preprocessor::readFile<D>(reader);
    // vertices on the lattice
    mg::Mesh m;
    m.dim = D;
    m.zones = {"Main"};
    std::map<mg::L, mg::X> position;
    for (std::size_t e = 0; e < mesh.getNumberOfElements(); ++e) {
        const auto& el = mesh.getElement(pre::EntityGId(e));
        std::size_t k = el.getNumberOfNodes();
        mg::Elem x;
        x.shape = D == 1 ? mg::LINE : D == 2 ? (k == 3 ? mg::TRI : mg::SQUARE) : (k == 4 ? mg::TET : mg::CUBE);
        if (k != (r.tri ? D + 1 : std::size_t(1) << D)) mc::fail("element ", e, " has ", k, " vertices");
        for (std::size_t i = 0; i < k; ++i) {
            mg::L l{{0, 0, 0}};
            mg::X p{{0, 0, 0}};
            auto c = el.getCoordinate(pre::EntityLId(i));
            for (std::size_t d = 0; d < D; ++d) {
                double h = (r.hi[d] - r.lo[d]) / r.n[d], s = (c[d] - r.lo[d]) / h;
                l[d] = (int)std::lround(s);
                if (std::abs(s - l[d]) > 1e-9 || l[d] < 0 || l[d] > r.n[d]) mc::fail("a vertex of element ", e, " is not a grid point: ", c[d]);
                p[d] = c[d];
            }
            auto it = position.emplace(l, p);
            if (it.first->second != p) mc::fail("elements disagree about the position of a vertex");
            x.v.push_back(l);
        }
        m.elems.push_back(x);
    }
    m.phi = [position](const mg::L& l) { return position.at(l); };
    for (std::size_t d = 0; d < D; ++d)
        if (r.per[d]) m.period[d] = r.n[d];
    m.derive();
    // every cell is filled exactly once by elements with a valid vertex order
    std::map<mg::L, std::vector<int>> cell;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        mg::L lo = m.elems[e].v[0], hi = lo;
        for (auto& v : m.elems[e].v)
            for (int d = 0; d < 3; ++d) {
                lo[d] = std::min(lo[d], v[d]);
                hi[d] = std::max(hi[d], v[d]);
            }
        for (std::size_t d = 0; d < D; ++d)
            if (hi[d] != lo[d] + 1) mc::fail("element ", e, " does not span one cell");
        cell[lo].push_back(e);
        // orientation of the corner frames of the vertex ordering: no degenerate or twisted element
        const auto& t = mg::table(m.elems[e].shape);
        int sign = 0;
        auto frame = [&](int a, const std::vector<int>& to) {
            std::vector<mg::X> c, q;
            for (int b : to) {
                mg::X y{{0, 0, 0}}, z{{0, 0, 0}};
                for (std::size_t d = 0; d < D; ++d) {
                    y[d] = m.elems[e].v[b][d] - m.elems[e].v[a][d];
                    z[d] = t.ref[b][d] - t.ref[a][d];
                }
                c.push_back(y);
                q.push_back(z);
            }
            double v = mg::det(c, D), w = mg::det(q, D);
            if (v == 0) mc::fail("element ", e, " is degenerate");
            int s = (v > 0) == (w > 0) ? 1 : -1;
            if (sign && s != sign) mc::fail("element ", e, " is twisted");
            sign = s;
        };
        if (r.tri || D == 1) {
            std::vector<int> to;
            for (std::size_t d = 1; d <= D; ++d) to.push_back(d);
            frame(0, to);
        } else
            for (int a = 0; a < (1 << D); ++a) {
                std::vector<int> to;
                for (std::size_t d = 0; d < D; ++d) to.push_back(a ^ (1 << d));
                frame(a, to);
            }
        mc::step();
    }
    std::size_t cells = 1;
    for (std::size_t d = 0; d < D; ++d) cells *= r.n[d];
    if (cell.size() != cells) mc::fail(cell.size(), " of ", cells, " cells are filled");
    for (auto& c : cell) {
        if (!r.tri) {
            if (c.second.size() != 1) mc::fail("a cell is filled ", c.second.size(), " times");
            if (std::set<mg::L>(m.elems[c.second[0]].v.begin(), m.elems[c.second[0]].v.end()).size() != (std::size_t(1) << D)) mc::fail("an element is degenerate");
            continue;
        }
        double volume = 0;
        for (int e : c.second) {
            std::vector<mg::X> q;
            auto& v = m.elems[e].v;
            for (std::size_t i = 1; i <= D; ++i) q.push_back(mg::X{{double(v[i][0] - v[0][0]), double(v[i][1] - v[0][1]), double(v[i][2] - v[0][2])}});
            volume += std::abs(mg::det(q, D)) / (D == 2 ? 2 : 6);
        }
        if (std::abs(volume - 1) > 1e-12) mc::fail("the elements of a cell have volume ", volume, " times that of the cell");
        for (int s = 0; s < 64; ++s) {  // a lattice in general position
            double x[3] = {c.first[0] + (s % 4 + 0.37) / 4.1, c.first[1] + (s / 4 % 4 + 0.41) / 4.23, D == 3 ? c.first[2] + (s / 16 + 0.29) / 4.07 : 0};
            int k = 0;
            for (int e : c.second) k += covers(m.elems[e].v, x, D);
            if (k != 1) mc::fail("a point of a cell lies in ", k, " elements");
            mc::step();
        }
    }
    for (auto& p : position)
        for (std::size_t d = 0; d < D; ++d)
            if (!mc::close(p.second[d], coordinate(r, d, p.first[d]), 1e-13)) mc::fail("grid point ", p.first[d], " of direction ", d, " is at ", p.second[d]);
    // faces: interior ones shared by two elements, the others on the outer boundary
    for (std::size_t k = 0; k < m.faces.size(); ++k) {
        if (m.faces[k].size() > 2) mc::fail("a face is shared by more than two elements");
        auto s = m.faces[k][0];
        bool outer = false;
        for (std::size_t d = 0; d < D; ++d) {
            bool low = true, high = true;
            for (int i : mg::table(m.elems[s.first].shape).faces[s.second]) {
                low = low && m.elems[s.first].v[i][d] == 0;
                high = high && m.elems[s.first].v[i][d] == r.n[d];
            }
            if ((low || high) && !r.per[d]) outer = true;
        }
        if (outer != (m.faces[k].size() == 1)) mc::fail(outer ? "a face on the outer boundary has two elements" : "the elements do not fit together: an inner face has one element");
    }
    // the topology that the preprocessor derived
    pre::Partition nodes, faces, edges;
    for (auto& x : m.nodes) nodes.insert(pre::Block(x.at.begin(), x.at.end()));
    for (auto& x : m.faces) faces.insert(pre::Block(x.begin(), x.end()));
    for (auto& x : m.edges) edges.insert(pre::Block(x.begin(), x.end()));
    pre::expect<D, 0>(mesh, nodes, "in the generated mesh");
    if (D > 1) pre::expect<D, (int)D - 1>(mesh, faces, "in the generated mesh");
    if (D > 2) pre::expect<D, 1>(mesh, edges, "in the generated mesh");
    // written and read by the solver
    int P = mc::choose(2, "processes-1") + 1;
    std::vector<int> part(m.elems.size(), 0);
    if (P == 2)
        for (std::size_t e = 0; e < part.size(); ++e) part[e] = e * 5 / 3 % 2;
    outputFileName.getValue() = out;
    Preprocessor::MeshData<std::size_t, D, D> partition(&mesh);
    for (std::size_t e = 0; e < part.size(); ++e) partition[e] = part[e];
    Preprocessor::outputMesh<std::size_t, D>(mesh, partition, P);
    pf::check(pf::parse(out), m, part, P);
    preread::check(m, out, part, P);
    unlink(out.c_str());
    mc::state(mc::str(D, " ", r.n[0], r.n[1], r.n[2], r.tri, r.per[0], r.per[1], r.per[2], r.lo[0], P));
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    mc::S().keyDetail = true;
    return mc::run([&] {
        Request r;
        r.dim = 1 + mc::choose(3, "dimension-1");
        int most[3] = {mc::tier(8, 12), mc::tier(5, 8), mc::tier(4, 6)};
        for (int d = 0; d < r.dim; ++d) r.n[d] = 1 + mc::choose(most[r.dim - 1], "elements-1");
        if (!mc::thorough() && r.dim == 3 && r.n[0] * r.n[1] * r.n[2] > 48) throw mc::Prune();
        r.tri = r.dim > 1 && mc::choose(2, "triangular");
        int fewest = 9;
        for (int d = 0; d < r.dim; ++d) {
            r.per[d] = mc::choose(2, "periodic");
            if (r.per[d] && r.tri && r.n[d] % 2) throw mc::Prune();  // documented: must be even
            if (r.per[d]) fewest = std::min(fewest, r.n[d]);
        }
        static const double boxes[4][2][3] = {{{0, 0, 0}, {1, 1, 1}}, {{0.1, -0.7, 1. / 3}, {0.8, 1e-3, 10}}, {{-1e6, 5, -2}, {-1e6 + 1, 5.0625, 1e5}}, {{1e-9, 0, -3}, {3e-9, 7, -2.9}}};
        int b = mc::choose(mc::tier(r.dim == 3 ? 2 : 4, 4), "box");
        for (int d = 0; d < 3; ++d) r.lo[d] = boxes[b][0][d], r.hi[d] = boxes[b][1][d];
        if (fewest < (r.dim > 1 ? 3 : 2)) mc::setKey(mc::str(r.dim, "D ", r.tri ? "triangular" : "rectangular", " mesh with ", fewest, " elements in a periodic direction"));
        mc::note(mc::str(r.dim, "D ", r.n[0], "x", r.n[1], "x", r.n[2], r.tri ? " triangular" : " rectangular", " periodic ", r.per[0], r.per[1], r.per[2], " box ", b));
        r.dim == 1 ? generate<1>(r) : r.dim == 2 ? generate<2>(r) : generate<3>(r);
    });
}
