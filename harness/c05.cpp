// C05: the sparsity estimate counts exactly the columns that assembly can touch, for every distribution, basis, selection and coupling rule.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/SparsityEstimator.h"
using namespace hpgem;
typedef Utilities::GlobalIndexing GI;
typedef Utilities::Table2D<bool> Table;
typedef std::vector<std::size_t> Sel;
struct Setup {
    std::vector<int> basis;  // per unknown: DG order o -> o, conforming order o -> 10+o
    const char* name;
};
static const std::vector<Setup> setups = {{{1}, "DG1"},
                                          {{12}, "conforming 2"},
                                          {{11, 0}, "conforming 1, DG0"},
                                          {{0, 14}, "DG0, conforming 4"},
                                          {{0, 1}, "DG0, DG1"},
                                          {{1, 11, 0}, "DG1, conforming 1, DG0"},
                                          {{13, 0, 11}, "conforming 3, DG0, conforming 1"}};
static const std::vector<std::vector<Sel>> subsets = {{}, {{0}}, {{0, 1}, {0}, {1}}, {{0, 1, 2}, {1}, {2}, {0, 2}, {1, 2}, {0}, {0, 1}}};
static const GI::Layout layouts[] = {GI::SEQUENTIAL, GI::BLOCKED_PROCESSOR, GI::BLOCKED_GLOBAL};
struct Round {
    int row, rowLayout, col, colLayout;  // col -1: the same index object
    std::vector<unsigned> tables;        // bit ri*cols+ci; whole(): use the simple interface as well
};
static std::vector<unsigned> tablesFor(std::size_t r, std::size_t c, bool all) {
    std::vector<unsigned> t;
    unsigned n = 1u << (r * c);
    if (n <= 16 || all)
        for (unsigned i = 0; i < n; ++i) t.push_back(i);
    else {  // every single pair, every complement of one, every row, every column, nothing and everything
        std::set<unsigned> s{0, n - 1};
        for (std::size_t i = 0; i < r * c; ++i) {
            s.insert(1u << i);
            s.insert((n - 1) ^ (1u << i));
        }
        for (std::size_t i = 0; i < r; ++i) s.insert(((1u << c) - 1) << (i * c));
        for (std::size_t j = 0; j < c; ++j) {
            unsigned m = 0;
            for (std::size_t i = 0; i < r; ++i) m |= 1u << (i * c + j);
            s.insert(m);
        }
        t.assign(s.begin(), s.end());
    }
    return t;
}
static std::vector<Round> roundsFor(const Setup& s, int start) {
    std::vector<Round> out;
    auto& sub = subsets[s.basis.size()];
    int k = start;
    for (int r = 0; r < int(sub.size()); ++r)
        for (int c = -1; c < int(sub.size()); ++c, ++k) {
            const Sel& cs = c < 0 ? sub[r] : sub[c];
            out.push_back({r, k % 3, c, (k / 3) % 3, tablesFor(sub[r].size(), cs.size(), mc::thorough() && sub[r].size() * cs.size() <= 6)});
        }
    return out;
}
template <std::size_t DIM>
std::string body(const std::string& fn, const Setup& s, const std::vector<Round>& rounds) {
    Base::ConfigurationData config(s.basis.size(), 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    for (std::size_t u = 0; u < s.basis.size(); ++u) {
        int o = s.basis[u];
        if (o >= 10)
            u ? mesh.useDefaultConformingBasisFunctions(o - 10, u) : mesh.useDefaultConformingBasisFunctions(o - 10);
        else
            u ? mesh.useDefaultDGBasisFunctions(o, u) : mesh.useDefaultDGBasisFunctions(o);
    }
    dist::Blob b;
    dist::capture(mesh, b);
    for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        b.i(e->getID());
        for (std::size_t u = 0; u < s.basis.size(); ++u) {
            b.i(e->getLocalNumberOfBasisFunctions(u));
            for (auto* f : e->getFacesList()) b.i(f->getLocalNumberOfBasisFunctions(u));
            for (auto* f : e->getEdgesList()) b.i(f->getLocalNumberOfBasisFunctions(u));
            if (DIM > 1)
                for (auto* f : e->getNodesList()) b.i(f->getLocalNumberOfBasisFunctions(u));
        }
    }
    auto& sub = subsets[s.basis.size()];
    for (auto& r : rounds) {
        GI rows(&mesh, layouts[r.rowLayout], &sub[r.row]), other;
        if (r.col >= 0) other.reset(&mesh, layouts[r.colLayout], &sub[r.col]);
        const GI& cols = r.col < 0 ? rows : other;
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            b.i(e->getID());
            for (auto u : sub[r.row]) {
                auto ent = [&](auto* x) { b.i(x->isOwnedByCurrentProcessor() ? rows.getProcessorLocalIndex(x, u) : -1); };
                ent(e);
                for (auto* f : e->getFacesList()) ent(f);
                for (auto* f : e->getEdgesList()) ent(f);
                if (DIM > 1)
                    for (auto* f : e->getNodesList()) ent(f);
            }
        }
        Utilities::SparsityEstimator both(rows, cols), same(rows);
        std::size_t nr = rows.getNumberOfIncludedUnknowns(), nc = cols.getNumberOfIncludedUnknowns();
        auto record = [&](const std::function<std::pair<std::vector<int>, std::vector<int>>()>& f) {
            try {
                auto x = f();
                b.i(1);
                for (auto* v : {&x.first, &x.second}) {
                    b.i(v->size());
                    for (int y : *v) b.i(y);
                }
            } catch (mc::Fatal&) {
                b.i(0);
            }
        };
        for (unsigned t : r.tables) {
            Table table(nr, nc);
            for (std::size_t i = 0; i < nr; ++i)
                for (std::size_t j = 0; j < nc; ++j) table(i, j) = t >> (i * nc + j) & 1;
            record([&] { return both.computeSparsityEstimate(table); });
        }
        for (int f = 0; f < 2; ++f) record([&] { return r.col < 0 ? same.computeSparsityEstimate(bool(f)) : both.computeSparsityEstimate(bool(f)); });
    }
    return b.s;
}
typedef std::array<int, 3> Key;  // kind, entity, unknown
static void check(const mg::Mesh& m, int P, const std::vector<Round>& rounds, const Setup& s, const std::vector<std::string>& res) {
    std::vector<dist::Blob> bs;
    std::vector<dist::View> vs;
    for (auto& r : res) {
        bs.emplace_back(r);
        vs.push_back(dist::parse(bs.back()));
    }
    std::size_t N = m.elems.size(), U = s.basis.size();
    std::map<Key, int> size, owner;
    std::vector<std::vector<std::pair<int, int>>> ents(N);  // kind, entity in the order of the record
    for (std::size_t e = 0; e < N; ++e) {
        ents[e].push_back({0, int(e)});
        for (int f : m.elemFaces[e]) ents[e].push_back({1, f});
        for (int f : m.elemEdges[e]) ents[e].push_back({2, f});
        if (m.dim > 1)
            for (auto& f : m.elemNodes[e]) ents[e].push_back({3, f.first});
    }
    for (int p = 0; p < P; ++p) {
        for (auto& e : vs[p].elems) e.mesh = dist::findElement(m, e.x);
        for (std::size_t k = 0; k < vs[p].elems.size(); ++k) {
            auto& e = vs[p].elems[vs[p].byId.at(bs[p].gi())];
            std::vector<bool> own{e.owned};
            for (auto& f : e.faces) own.push_back(f.owned);
            for (auto& f : e.edges) own.push_back(f.owned);
            if (m.dim > 1)
                for (auto& f : e.nodes) own.push_back(f.owned);
            for (std::size_t u = 0; u < U; ++u)
                for (std::size_t i = 0; i < ents[e.mesh].size(); ++i) {
                    Key key{{ents[e.mesh][i].first, ents[e.mesh][i].second, int(u)}};
                    size[key] = bs[p].gi();
                    if (own[i]) owner[key] = p;
                }
        }
    }
    auto& sub = subsets[U];
    std::vector<std::set<Key>> of(N);  // non-empty blocks of functions on each element
    for (std::size_t e = 0; e < N; ++e)
        for (auto& x : ents[e])
            for (std::size_t u = 0; u < U; ++u)
                if (size[Key{{x.first, x.second, int(u)}}]) of[e].insert(Key{{x.first, x.second, int(u)}});
    std::vector<std::set<Key>> atFace(m.faces.size());
    for (std::size_t f = 0; f < m.faces.size(); ++f)
        for (auto& i : m.faces[f]) atFace[f].insert(of[i.first].begin(), of[i.first].end());
    for (auto& r : rounds) {
        const Sel& rs = sub[r.row];
        const Sel& cs = r.col < 0 ? rs : sub[r.col];
        std::vector<std::map<Key, long>> at(P);
        for (int p = 0; p < P; ++p)
            for (std::size_t k = 0; k < vs[p].elems.size(); ++k) {
                auto& e = vs[p].elems[vs[p].byId.at(bs[p].gi())];
                for (auto u : rs)
                    for (auto& x : ents[e.mesh]) {
                        long l = bs[p].gi();
                        if (l >= 0) at[p][Key{{x.first, x.second, int(u)}}] = l;
                    }
            }
        std::vector<unsigned> tables = r.tables;
        unsigned every = (1u << (rs.size() * cs.size())) - 1;
        tables.push_back(0);
        tables.push_back(every);
        for (unsigned t : tables) {
            auto coupled = [&](std::size_t ru, std::size_t cu) {
                std::size_t i = std::find(rs.begin(), rs.end(), ru) - rs.begin(), j = std::find(cs.begin(), cs.end(), cu) - cs.begin();
                return t >> (i * cs.size() + j) & 1;
            };
            auto included = [&](std::size_t u) { return std::count(cs.begin(), cs.end(), u) > 0; };
            bool refusable = false;  // face coupling of functions that are not on elements is documented as impossible on distributed meshes
            for (auto ru : rs)
                for (auto cu : cs)
                    if (P > 1 && coupled(ru, cu) && s.basis[ru] >= 10) refusable = true;
            for (int p = 0; p < P; ++p) {
                auto& b = bs[p];
                if (!b.gi()) {
                    mc::require(refusable, "process ", p, ": no estimate is given for couplings ", t, " of unknowns in selection ", r.row);
                    mc::count("refused");
                    continue;
                }
                std::vector<long> v[2];
                for (auto& x : v) {
                    x.resize(b.gi());
                    for (auto& y : x) y = b.gi();
                }
                std::size_t rows = 0;
                for (auto& x : at[p])
                    if (owner[x.first] == p) rows += size[x.first];
                mc::require(v[0].size() == rows && v[1].size() == rows, "process ", p, ": estimates for ", v[0].size(), " and ", v[1].size(), " rows instead of ", rows);
                for (auto& x : at[p]) {
                    const Key& row = x.first;
                    if (!size[row] || owner[row] != p) continue;
                    std::set<Key> touched;
                    for (std::size_t e = 0; e < N; ++e)
                        if (of[e].count(row))
                            for (auto& c : of[e])
                                if (included(c[2])) touched.insert(c);
                    for (auto& f : atFace)
                        if (f.count(row))
                            for (auto& c : f)
                                if (included(c[2]) && coupled(row[2], c[2])) touched.insert(c);
                    long want[2] = {0, 0};
                    for (auto& c : touched) want[owner.at(c) != p] += size[c];
                    for (int i = 0; i < size[row]; ++i)
                        for (int k = 0; k < 2; ++k)
                            mc::require(v[k][x.second + i] == want[k], "process ", p, ", couplings ", t, ", selection ", r.row, "/", r.col, ": row ", x.second + i,
                                        " (kind ", row[0], ", entity ", row[1], ", unknown ", row[2], ") has ", v[k][x.second + i], " entries ",
                                        k ? "of other processes" : "of its own process", " instead of ", want[k]);
                    mc::step();
                }
            }
        }
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        const mg::Mesh& m = mc::pick(cat, "mesh");
        std::size_t n = m.elems.size();
        if (P > 1 && n > (P == 2 ? mc::tier(4, 6) : mc::tier(3, 4))) throw mc::Prune();
        mc::note(m.name);
        const Setup& s = mc::pick(setups, "setup");
        for (auto& e : m.elems)
            for (int o : s.basis) {
                if (e.shape == mg::PYR && o > 11) throw mc::Prune();
                if (e.shape == mg::PRISM && o > 13) throw mc::Prune();
            }
        if (!mc::thorough() && m.dim == 3 && n > 2 && s.basis.size() > 2 && P > 1) throw mc::Prune();
        mc::note(s.name);
        auto rounds = roundsFor(s, mc::choose(mc::thorough() ? 9 : 1, "layouts"));
        auto part = mg::chooseParts(n, P);
        m.write(fn, part, P);
        mcmpi::Options o;
        o.mode = (n + P) % 2;
        o.maxDeviations = 0;  // the orders of the messages of the numbering are explored for C02
        mcmpi::explore(
            P, o, [&](int) { return m.dim == 1 ? body<1>(fn, s, rounds) : m.dim == 2 ? body<2>(fn, s, rounds) : body<3>(fn, s, rounds); },
            [&](const std::vector<std::string>& res) {
                std::string all;
                for (auto& x : res) {
                    all += x;
                    mc::state(x);
                }
                mc::outcome(all);
                check(m, P, rounds, s, res);
            });
    });
    unlink(fn.c_str());
    return rc;
}
