// C13: conforming basis functions are continuous across faces, edges and nodes for every relative orientation.
#include "shapes.h"
#include "meshgen.h"
#include "pairs.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
using namespace hpgem;
using mg::pt;
typedef std::vector<double> V;
// who owns basis function i of an element: 0 element, 1 face, 2 edge, 3 node, with a global entity id and an index
struct Dof {
    int kind;
    std::size_t id, index;
    bool operator<(const Dof& o) const { return std::tie(kind, id, index) < std::tie(o.kind, o.id, o.index); }
};
template <std::size_t DIM>
static void run(const mg::Mesh& m, int order, int unknown, bool reversed) {
    std::string fn = "c13-" + std::to_string(getpid()) + ".hpgem";
    m.write(fn, std::vector<int>(m.elems.size(), 0), 1, reversed);
    Base::ConfigurationData config(unknown + 1, 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    std::remove(fn.c_str());
    if (unknown == 0)
        mesh.useDefaultConformingBasisFunctions(order);
    else {
        mesh.useDefaultDGBasisFunctions(1);
        mesh.useDefaultConformingBasisFunctions(order, unknown);
    }
    std::vector<Base::Element*> el(m.elems.size());
    for (auto* e : mesh.getElementsList())
        for (std::size_t k = 0; k < el.size(); ++k) {
            bool same = e->getNumberOfNodes() == m.elems[k].v.size();
            for (std::size_t j = 0; same && j < e->getNumberOfNodes(); ++j) {
                const auto& c = static_cast<const Geometry::PointPhysical<DIM>&>(e->getPhysicalGeometry()->getLocalNodeCoordinates(j));
                auto x = m.phi(m.elems[k].v[j]);
                for (std::size_t i = 0; i < DIM; ++i) same = same && c[i] == x[i];
            }
            if (same) el[k] = e;
        }
    for (auto* e : el) mc::require(e, "an element of the file is missing");
    auto table = [&](int e) -> const mg::Table& { return mg::table(m.elems[e].shape); };
    auto value = [&](int e, int i, const V& x) { return el[e]->basisFunction(i, sh::point<DIM>(x), (std::size_t)unknown); };
    std::vector<std::vector<Dof>> d;
    for (auto* e : el) {
        std::vector<Dof> r;
        auto add = [&](int kind, std::size_t id, std::size_t n) {
            for (std::size_t k = 0; k < n; ++k) r.push_back({kind, id, k});
        };
        std::size_t u = unknown;
        add(0, e->getID(), e->getLocalNumberOfBasisFunctions(u));
        for (auto* f : e->getFacesList()) add(1, f->getID(), f->getLocalNumberOfBasisFunctions(u));
        for (auto* f : e->getEdgesList()) add(2, f->getID(), f->getLocalNumberOfBasisFunctions(u));
        if (DIM > 1)
            for (auto* f : e->getNodesList()) add(3, f->getID(), f->getLocalNumberOfBasisFunctions(u));
        mc::require(r.size() == e->getNumberOfBasisFunctions(u), "element ", e->getID(), " has ", e->getNumberOfBasisFunctions(u), " functions but its entities own ", r.size());
        d.push_back(r);
    }
    // compare the traces on one sub-entity, given by matching local vertex lists of the elements that share it
    auto compare = [&](const std::vector<std::pair<int, std::vector<int>>>& sides, const std::string& what) {
        std::size_t nv = sides[0].second.size();
        std::vector<V> weights;
        int n = order + 2;
        if (nv == 1) weights = {{1}};
        if (nv == 2)
            for (int k = 0; k <= n; ++k) weights.push_back({1 - double(k) / n, double(k) / n});
        if (nv == 3)
            for (int k = 0; k <= n; ++k)
                for (int l = 0; k + l <= n; ++l) weights.push_back({1 - double(k + l) / n, double(k) / n, double(l) / n});
        if (nv == 4)
            for (int k = 0; k <= n; ++k)
                for (int l = 0; l <= n; ++l) {
                    double a = double(k) / n, b = double(l) / n;
                    weights.push_back({(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b});
                }
        for (auto& w : weights) {
            std::vector<std::map<Dof, double>> traces;
            for (auto& s : sides) {
                V x(DIM, 0.0);
                for (std::size_t k = 0; k < nv; ++k)
                    for (std::size_t c = 0; c < DIM; ++c) x[c] += w[k] * table(s.first).ref[s.second[k]][c];
                bool apex = m.elems[s.first].shape == mg::PYR && x[2] > 0.999;
                if (apex) x[2] = 1 - 1e-13, x[0] = x[1] = 0;
                std::map<Dof, double> t;
                for (std::size_t i = 0; i < d[s.first].size(); ++i) t[d[s.first][i]] += value(s.first, i, x);
                traces.push_back(t);
                mc::step(t.size());
            }
            std::set<Dof> all;
            for (auto& t : traces)
                for (auto& k : t) all.insert(k.first);
            for (auto& k : all)
                for (std::size_t s = 0; s < sides.size(); ++s) {
                    double v0 = traces[0].count(k) ? traces[0][k] : 0, v = traces[s].count(k) ? traces[s][k] : 0;
                    static const char* kinds[] = {"element", "face", "edge", "node"};
                    mc::require(std::abs(v - v0) < 1e-9, what, ": the ", kinds[k.kind], " function ", k.index, " of ", kinds[k.kind], " ", k.id, " has value ", v0,
                                " from element ", sides[0].first, " but ", v, " from element ", sides[s].first, ", at weights ", sh::str(w));
                }
        }
    };
    auto shared = [&](const std::vector<mg::Mesh::Inc>& list, bool edges, const char* kind) {
        for (std::size_t q = 0; q < list.size(); ++q) {
            std::vector<std::pair<int, std::vector<int>>> sides;
            const std::vector<int>* first = nullptr;
            for (auto& i : list[q]) {
                auto& loc = edges ? table(i.first).edges[i.second] : table(i.first).faces[i.second];
                std::vector<int> mine;
                if (!first) {
                    first = &loc;
                    mine = loc;
                } else
                    for (int a : *first)
                        for (int b : loc)
                            if (m.wrap(m.elems[list[q][0].first].v[a]) == m.wrap(m.elems[i.first].v[b])) mine.push_back(b);
                sides.push_back({i.first, mine});
            }
            if (sides.size() > 1) compare(sides, mc::str(kind, " ", q));
        }
    };
    shared(m.faces, false, "face");
    if (DIM == 3) shared(m.edges, true, "edge");
    for (auto& n : m.nodes) {
        std::vector<std::pair<int, std::vector<int>>> sides;
        for (auto& i : n.at) sides.push_back({i.first, {i.second}});
        if (sides.size() > 1) compare(sides, "node");
    }
    // functions vanish on the sub-entities they are not attached to
    for (std::size_t e = 0; e < el.size(); ++e) {
        const mg::Table& t = table(e);
        std::set<std::size_t> ids;
        for (std::size_t f = 0; f < t.faces.size(); ++f) {
            std::set<int> vs(t.faces[f].begin(), t.faces[f].end());
            std::set<Dof> on;
            auto mark = [&](int kind, std::size_t id) { ids.insert(kind * 100000 + id); };
            ids.clear();
            mark(1, el[e]->getFace(f)->getID());
            if (DIM == 3)
                for (std::size_t k = 0; k < t.edges.size(); ++k)
                    if (vs.count(t.edges[k][0]) && vs.count(t.edges[k][1])) mark(2, el[e]->getEdge(k)->getID());
            if (DIM > 1)
                for (int v : vs) mark(3, el[e]->getNode(v)->getID());
            V x(DIM, 0.0);
            for (int q = 0; q < 4; ++q) {
                std::fill(x.begin(), x.end(), 0.0);
                double total = 0;
                int k = 0;
                for (int v : t.faces[f]) {
                    double w = 1 + 0.37 * ((q * 5 + k * 3 + k * k) % 7);
                    if (t.faces[f].size() == 4) {
                        double a = 0.2 + 0.17 * q, b = 0.9 - 0.23 * q;
                        w = (k & 1 ? a : 1 - a) * (k & 2 ? b : 1 - b);
                    }
                    for (std::size_t c = 0; c < DIM; ++c) x[c] += w * t.ref[v][c];
                    total += w;
                    ++k;
                }
                for (auto& c : x) c /= total;
                for (std::size_t i = 0; i < d[e].size(); ++i)
                    if (!ids.count(d[e][i].kind * 100000 + d[e][i].id)) {
                        double v = value(e, i, x);
                        mc::require(std::abs(v) < 1e-10, "element ", e, ": function ", i, " (kind ", d[e][i].kind, ") is ", v, " on face ", f, " to which it is not attached");
                    }
            }
        }
        mc::step();
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 2;
    auto P = pairs();
    return mc::run([&] {
        const Pair& p = mc::pick(P, "pair");
        mg::Mesh m;
        m.dim = p.dim;
        m.elems = p.e;
        m.period = p.period;
        m.phi = mg::family(p.dim, 0);
        auto& s0 = mg::symmetries(p.e[0].shape);
        auto& s1 = mg::symmetries(p.e[1].shape);
        // one left labelling per left face suffices to meet every relative orientation; cubes are thinned to that in the
        // quick tier, everything else uses all labellings
        std::vector<int> lefts;
        std::set<std::vector<int>> seen;
        for (std::size_t k = 0; k < s0.size(); ++k) {
            if (p.e[0].shape == mg::CUBE && p.e[1].shape == mg::CUBE && !mc::thorough()) {
                std::vector<int> f;  // which local vertices carry the shared face x=2
                for (int j = 0; j < 8; ++j)
                    if (p.e[0].v[s0[k][j]][0] == 2) f.push_back(j);
                if (!seen.insert(f).second) continue;
            }
            lefts.push_back(k);
        }
        int a = mc::pick(lefts, "left labelling");
        int b = mc::choose(s1.size(), "right labelling");
        m.relabel(0, s0[a]);
        m.relabel(1, s1[b]);
        bool swap = mc::choose(2, "swapped");
        if (swap) std::swap(m.elems[0], m.elems[1]);
        m.derive();
        int order = 1 + mc::choose(mc::tier(p.hi, p.deep), "order");
        int unknown = order == 2 ? mc::choose(2, "unknown") : 0;
        mc::note(mc::str(p.name, " order ", order));
        std::string key = quarter(m);
        if (!key.empty()) mc::setKey(mc::str(key, " ", p.name, " order ", order));
        if (p.dim == 1) run<1>(m, order, unknown, swap);
        if (p.dim == 2) run<2>(m, order, unknown, swap);
        if (p.dim == 3) run<3>(m, order, unknown, swap);
        mc::state(mc::joinChoices());
    });
}
