// C02: global degree-of-freedom numbering is a consistent bijection, for every distribution and message order.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "Utilities/GlobalIndexing.h"
using namespace hpgem;
typedef Utilities::GlobalIndexing GI;
struct Setup {
    std::vector<int> basis;  // per unknown: DG order o -> o, conforming order o -> 10+o
    const char* name;
};
static const std::vector<Setup> setups = {{{1}, "DG1"},
                                          {{12}, "conforming 2"},
                                          {{11, 0}, "conforming 1, DG0"},
                                          {{13, 1, 11}, "conforming 3, DG1, conforming 1"},
                                          {{0, 14}, "DG0, conforming 4"}};
static const std::vector<std::vector<std::vector<std::size_t>>> subsets = {
    {}, {{}, {0}}, {{}, {0}, {1}, {1, 0}}, {{}, {1}, {0, 2}, {2, 0}, {2, 1}}};
struct Round {
    int layout;
    std::vector<std::size_t> unknowns;
};
static const GI::Layout layouts[] = {GI::SEQUENTIAL, GI::BLOCKED_PROCESSOR, GI::BLOCKED_GLOBAL};

template <std::size_t DIM>
std::string body(const std::string& fn, const Setup& s, const std::vector<Round>& rounds) {
    Base::ConfigurationData config(s.basis.size(), 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    for (std::size_t u = 0; u < s.basis.size(); ++u) {
        int o = s.basis[u];
        if (o >= 10) {
            if (u == 0)
                mesh.useDefaultConformingBasisFunctions(o - 10);
            else
                mesh.useDefaultConformingBasisFunctions(o - 10, u);
        } else {
            if (u == 0)
                mesh.useDefaultDGBasisFunctions(o);
            else
                mesh.useDefaultDGBasisFunctions(o, u);
        }
    }
    dist::Blob b;
    dist::capture(mesh, b);
    GI index;
    for (std::size_t k = 0; k < rounds.size(); ++k) {
        const Round& r = rounds[k];
        const std::vector<std::size_t>* sel = r.unknowns.empty() ? nullptr : &r.unknowns;
        index.reset(&mesh, layouts[r.layout], sel);
        index.verifyCompleteIndex();
        std::vector<std::size_t> inc = index.getIncludedUnknowns();
        b.i(index.getNumberOfLocalBasisFunctions());
        b.i(index.getTotalNumberOfUnknowns());
        b.i(inc.size());
        for (auto u : inc) b.i(u);
        auto ent = [&](auto* x, std::size_t u, bool owned) {
            b.i(x->getLocalNumberOfBasisFunctions(u));
            b.i(index.getGlobalIndex(x, u));
            b.i(owned ? index.getProcessorLocalIndex(x, u) : -1);
        };
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            b.i(e->getID());
            for (auto u : inc) {
                b.i(e->getNumberOfBasisFunctions(u));
                ent(e, u, e->isOwnedByCurrentProcessor());
                for (auto* f : e->getFacesList()) ent(f, u, f->isOwnedByCurrentProcessor());
                for (auto* f : e->getEdgesList()) ent(f, u, f->isOwnedByCurrentProcessor());
                if (DIM > 1)
                    for (auto* f : e->getNodesList()) ent(f, u, f->isOwnedByCurrentProcessor());
            }
            std::vector<int> g = index.getGlobalIndices(e), g2(3, -7);
            index.getGlobalIndices(e, g2);
            if (g != g2) throw mc::Violation{"the two forms of getGlobalIndices(element) differ"};
            b.i(g.size());
            for (int x : g) b.i(x);
        }
        std::vector<int> g(1, 5);
        std::size_t nf = 0;
        for (auto* f : mesh.getFacesList()) {
            (void)f;
            ++nf;
        }
        b.i(nf);
        for (auto* f : mesh.getFacesList()) {
            index.getGlobalIndices(f, g);
            b.i(f->getPtrElementLeft()->getID());
            b.i(f->isInternal() ? (long)f->getPtrElementRight()->getID() : -1);
            b.i(g.size());
            for (int x : g) b.i(x);
        }
        long N = 0;
        for (int x : g) (void)x;
        // conversion of every conceivable global number
        for (int x = 0; x < 4000; ++x) {
            int l = index.globalToProcessorLocalIndex(x);
            if (l >= 0) {
                b.i(x);
                b.i(l);
                ++N;
            }
        }
        b.i(-1);
    }
    return b.s;
}

struct Ent {
    long n, global, local;
};
void check(const mg::Mesh& m, const std::vector<int>& part, int P, const std::vector<Round>& rounds, const Setup& s,
           const std::vector<std::string>& res) {
    std::vector<dist::Blob> bs;
    std::vector<dist::View> vs;
    for (auto& r : res) {
        bs.emplace_back(r);
        vs.push_back(dist::parse(bs.back()));
    }
    for (int p = 0; p < P; ++p)
        for (auto& e : vs[p].elems) e.mesh = dist::findElement(m, e.x);
    for (auto& r : rounds) {
        std::vector<std::size_t> inc = r.unknowns;
        if (inc.empty())
            for (std::size_t u = 0; u < s.basis.size(); ++u) inc.push_back(u);
        std::sort(inc.begin(), inc.end());
        // (kind, entity, unknown) -> number of functions, first global number
        typedef std::array<long, 3> Key;
        std::map<Key, std::pair<long, long>> num;
        std::vector<long> localCount(P);
        std::vector<std::map<Key, long>> localIdx(P);
        std::vector<std::map<long, long>> conv(P);
        struct ElemIdx {
            int p, e;
            std::vector<long> g;
        };
        std::vector<std::map<long, std::vector<long>>> elemG(P);
        for (int p = 0; p < P; ++p) {
            auto& b = bs[p];
            auto& v = vs[p];
            localCount[p] = b.gi();
            mc::require(b.gi() == (long)s.basis.size(), "wrong total number of unknowns");
            mc::require(b.gi() == (long)inc.size(), "wrong number of included unknowns");
            for (auto u : inc) mc::require(b.gi() == (long)u, "wrong included unknowns");
            for (std::size_t k = 0; k < v.elems.size(); ++k) {
                long id = b.gi();
                auto& e = v.elems[v.byId.at(id)];
                std::vector<long> expectG;
                for (auto u : inc) {
                    long total = b.gi(), sum = 0;
                    auto take = [&](int kind, long ent, bool owned) {
                        long n = b.gi(), g = b.gi(), l = b.gi();
                        Key key{{kind, ent, (long)u}};
                        if (n) {
                            auto it = num.emplace(key, std::make_pair(n, g));
                            mc::require(it.first->second == std::make_pair(n, g), "process ", p, " numbers entity (kind ", kind, ", ", ent, ", unknown ", u,
                                        ") from ", g, " (", n, " functions), another process or element from ", it.first->second.second, " (",
                                        it.first->second.first, " functions)");
                            if (owned) localIdx[p][key] = l;
                        }
                        for (long i = 0; i < n; ++i) expectG.push_back(g + i);
                        sum += n;
                    };
                    take(0, e.mesh, e.owned);
                    for (std::size_t i = 0; i < e.faces.size(); ++i) take(1, m.elemFaces[e.mesh][i], e.faces[i].owned);
                    for (std::size_t i = 0; i < e.edges.size(); ++i) take(2, m.elemEdges[e.mesh][i], e.edges[i].owned);
                    if (m.dim > 1)
                        for (std::size_t i = 0; i < e.nodes.size(); ++i) take(3, m.elemNodes[e.mesh][i].first, e.nodes[i].owned);
                    mc::require(sum == total, "process ", p, ": element ", e.mesh, " has ", total, " basis functions but its entities carry ", sum);
                }
                std::vector<long> g(b.gi());
                for (auto& x : g) x = b.gi();
                mc::require(g == expectG, "process ", p, ": getGlobalIndices(element ", e.mesh, ") does not list the element's functions in the documented order");
                elemG[p][id] = g;
            }
            long nf = b.gi();
            for (long i = 0; i < nf; ++i) {
                long l = b.gi(), rgt = b.gi();
                std::vector<long> g(b.gi()), want = elemG[p].at(l);
                for (auto& x : g) x = b.gi();
                if (rgt >= 0) want.insert(want.end(), elemG[p].at(rgt).begin(), elemG[p].at(rgt).end());
                mc::require(g == want, "process ", p, ": getGlobalIndices(face) is not left element followed by right element");
            }
            for (long x = b.gi(); x >= 0; x = b.gi()) conv[p][x] = b.gi();
        }
        // bijection onto 0..N-1
        long N = 0;
        for (auto& x : num) N += x.second.first;
        mc::require(N < 4000, "harness: mesh too large");
        std::vector<int> used(N, 0);
        for (auto& x : num)
            for (long i = 0; i < x.second.first; ++i) {
                long g = x.second.second + i;
                mc::require(g >= 0 && g < N, "global number ", g, " is outside 0..", N - 1);
                mc::require(!used[g]++, "global number ", g, " is used twice");
            }
        // the documented order
        long next = 0;
        std::vector<long> nextLocal(P, 0);
        std::vector<std::vector<Key>> order(P);  // owned entities of each process in documented order, for one unknown slot (-1)
        for (int p = 0; p < P; ++p) {
            auto& v = vs[p];
            std::map<int, int> firstOfEdge, firstOfNode;
            for (auto& x : v.edges)
                for (auto& e : v.elems)
                    for (std::size_t i = 0; i < e.edges.size(); ++i)
                        if (e.edges[i].id == x.id) firstOfEdge[m.elemEdges[e.mesh][i]] = v.elems[v.byId.at(x.at[0].first)].mesh;
            for (auto& x : v.nodes)
                for (auto& e : v.elems)
                    for (std::size_t i = 0; i < e.nodes.size(); ++i)
                        if (e.nodes[i].id == x.id) firstOfNode[m.elemNodes[e.mesh][i].first] = v.elems[v.byId.at(x.at[0].first)].mesh;
            for (long id : v.localElems) {
                auto& e = v.elems[v.byId.at(id)];
                order[p].push_back({{0, e.mesh, 0}});
                std::set<int> done;
                for (std::size_t i = 0; i < e.faces.size(); ++i)
                    if (e.faces[i].left) order[p].push_back({{1, m.elemFaces[e.mesh][i], 0}});
                for (std::size_t i = 0; i < e.edges.size(); ++i)
                    if (firstOfEdge[m.elemEdges[e.mesh][i]] == e.mesh) order[p].push_back({{2, m.elemEdges[e.mesh][i], 0}});
                if (m.dim > 1)
                    for (std::size_t i = 0; i < e.nodes.size(); ++i)
                        if (firstOfNode[m.elemNodes[e.mesh][i].first] == e.mesh) order[p].push_back({{3, m.elemNodes[e.mesh][i].first, 0}});
            }
        }
        auto expect = [&](int p, Key k) {
            auto it = num.find(k);
            if (it == num.end()) return;
            mc::require(it->second.second == next, "layout ", r.layout, ": entity (kind ", k[0], ", ", k[1], ", unknown ", k[2], ") is numbered from ",
                        it->second.second, ", documented position is ", next);
            mc::require(localIdx[p].count(k), "entity is not owned by the process whose block contains it");
            next += it->second.first;
        };
        auto withU = [](Key k, std::size_t u) {
            k[2] = u;
            return k;
        };
        if (r.layout == 0)
            for (int p = 0; p < P; ++p)
                for (auto& k : order[p])
                    for (auto u : inc) expect(p, withU(k, u));
        else if (r.layout == 1)
            for (int p = 0; p < P; ++p)
                for (auto u : inc)
                    for (auto& k : order[p]) expect(p, withU(k, u));
        else
            for (auto u : inc)
                for (int p = 0; p < P; ++p)
                    for (auto& k : order[p]) expect(p, withU(k, u));
        mc::require(next == N, "some functions are not attached to any owned entity");
        // process-local numbers: order preserving bijection onto 0..Nl-1, conversion agrees
        for (int p = 0; p < P; ++p) {
            std::map<long, long> g2l;
            for (auto& x : localIdx[p])
                for (long i = 0; i < num[x.first].first; ++i) g2l[num[x.first].second + i] = x.second + i;
            long l = 0;
            for (auto& x : g2l) mc::require(x.second == l++, "process ", p, ": local number of global number ", x.first, " is ", x.second, " instead of ", l - 1);
            mc::require(localCount[p] == l, "process ", p, " reports ", localCount[p], " local functions but owns ", l);
            mc::require(conv[p] == g2l, "process ", p, ": globalToProcessorLocalIndex disagrees with the numbering");
        }
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        const mg::Mesh& m = mc::pick(cat, "mesh");
        std::size_t n = m.elems.size();
        if (P == 2 && n > (mc::thorough() ? 6 : 5)) throw mc::Prune();
        if (P == 3 && (n > (mc::thorough() ? 4 : 4) || n < 2)) throw mc::Prune();
        if (P == 4 && n > 4) throw mc::Prune();
        mc::note(m.name);
        const Setup& s = mc::pick(setups, "setup");
        // conforming functions exist up to order 1 on pyramids and (for lack of quadrature rules) order 3 on prisms
        for (auto& e : m.elems)
            if (e.shape == mg::PYR || e.shape == mg::PRISM)
                for (int o : s.basis)
                    if (o > (e.shape == mg::PYR ? 11 : 13)) throw mc::Prune();
        for (auto& e : m.elems)
            if (e.shape == mg::PRISM || e.shape == mg::PYR || e.shape == mg::CUBE)
                if (s.basis[0] == 13 || s.basis.back() == 14) {
                    if (P > 1 && !mc::thorough()) throw mc::Prune();
                }
        mc::note(s.name);
        int mode = mc::choose(P == 1 ? 1 : 2, "mode");
        std::vector<Round> rounds;
        bool deepen = mc::thorough();
        if (P <= 2) {
            // every layout and every selection one after the other on one index object, from each starting point
            auto& sub = subsets[s.basis.size()];
            int shift = mc::choose(deepen ? 3 * sub.size() : 2, "start") * (deepen ? 1 : (int)sub.size() + 1);
            for (std::size_t i = 0; i < 3 * sub.size(); ++i) {
                std::size_t j = (i + shift) % (3 * sub.size());
                rounds.push_back({(int)(j % 3), sub[j / 3]});
            }
        } else {
            auto& sub = subsets[s.basis.size()];
            if (!deepen) {
                if (&s != &setups[1] && &s != &setups[2]) throw mc::Prune();
                int l = mc::choose(3, "layout");
                rounds.push_back({l, sub[l % sub.size()]});
            } else {
                rounds.push_back({mc::choose(3, "layout"), sub[mc::choose(sub.size(), "subset")]});
            }
        }
        auto part = mg::chooseParts(n, P);
        if (P == 3 && !deepen) {  // one empty process is enough variety here; two are covered with P=2
            std::set<int> used(part.begin(), part.end());
            if (used.size() < 2) throw mc::Prune();
        }
        m.write(fn, part, P);
        mcmpi::Options o;
        o.mode = mode;
        if (P == 3 && !deepen) o.maxDeviations = mode ? 1 : 2;
        if (P == 4) o.maxDeviations = 1;
        mcmpi::explore(
            P, o, [&](int) { return m.dim == 1 ? body<1>(fn, s, rounds) : m.dim == 2 ? body<2>(fn, s, rounds) : body<3>(fn, s, rounds); },
            [&](const std::vector<std::string>& res) {
                std::string all;
                for (auto& x : res) {
                    all += x;
                    mc::state(x);
                }
                mc::outcome(all);
                check(m, part, P, rounds, s, res);
            });
    });
    unlink(fn.c_str());
    return rc;
}
