// C10: union-find and the merging of mesh entities are closed under chains of requests.
#include "pre.h"
#include "MergePlan.h"
#include "TransformationConnector.h"
#include "utils/SparseUnionFind.h"
using namespace hpgem;
using Preprocessor::MergePlan;
typedef std::map<std::size_t, std::size_t> Pairing;

struct Closure {  // equivalence relation as explicit classes, closed naively after every request
    std::map<std::size_t, std::size_t> cls;
    std::size_t of(std::size_t a) {
        auto it = cls.find(a);
        return it == cls.end() ? a : it->second;
    }
    void join(std::size_t a, std::size_t b) {
        std::size_t ca = of(a), cb = of(b);
        cls[a] = ca, cls[b] = cb;
        for (auto& c : cls)
            if (c.second == ca) c.second = cb;
    }
};

static void unionFind() {
    static const std::vector<std::size_t> ids = {0, 7, 3, std::size_t(-1), 12, 1, 5, 100};
    int n = mc::tier(4, 5), depth = mc::tier(5, 6), shape = mc::choose(3, "shape");
    if (shape == 1) n = 6, depth = mc::tier(4, 5);
    Preprocessor::SparseUnionFind u;
    Closure ref;
    std::string h;
    auto check = [&]() {
        std::set<std::size_t> grouped;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                bool same = ref.of(ids[i]) == ref.of(ids[j]);
                if (same && i != j) grouped.insert(ids[i]);
                auto c = u;  // queries may compress paths: ask a copy
                if (c.inSameSet(ids[i], ids[j]) != same) mc::fail("'same set' is wrong for ", i, " and ", j, " after", h);
                auto d = u;
                if ((d.findSet(ids[i]) == d.findSet(ids[j])) != same) mc::fail("representatives are wrong for ", i, " and ", j, " after", h);
                if (same && ref.of(d.findSet(ids[i])) != ref.of(ids[i])) mc::fail("the representative is not in the set", h);
                mc::step();
            }
        std::vector<std::size_t> listed;
        for (auto it = u.begin(); it != u.end(); ++it) listed.push_back(*it);
        if (listed != std::vector<std::size_t>(grouped.begin(), grouped.end())) mc::fail("the list of members of non-trivial sets is wrong after", h);
    };
    if (shape == 2) {
        // large sets, up to the names of the items: new items are taken in order. Unions of different sets, and finds
        int seen = 0, finds = mc::choose(2, "finds");
        n = finds ? 6 : mc::tier(7, 8);
        for (int unions = 0; unions < n - 1; ++unions) {
            for (; finds && mc::choose(2, "find now"); --finds) {
                int a = mc::choose(std::max(seen, 1), "find");
                u.findSet(ids[a]);
                h += mc::str(" find ", a);
            }
            int a = mc::choose(std::min(seen + 1, n), "first");
            seen = std::max(seen, a + 1);
            int b = mc::choose(std::min(seen + 1, n), "second");
            seen = std::max(seen, b + 1);
            if (ref.of(ids[a]) == ref.of(ids[b])) throw mc::Prune();
            u.unionSets(ids[a], ids[b]);
            ref.join(ids[a], ids[b]);
            h += mc::str(" union ", a, ",", b);
        }
        check();
        mc::state(h);
        return;
    }
    for (int k = 0; k < depth; ++k) {
        // up to renaming the first operand is one of those seen before or one new one; ids differ in order, so no renaming
        int op = mc::choose(k == 0 ? n * n : n * n + n + 1, "op");
        if (op == n * n + n) break;
        if (op < n * n) {
            u.unionSets(ids[op / n], ids[op % n]);
            if (op / n != op % n) ref.join(ids[op / n], ids[op % n]);
            h += mc::str(" union ", op / n, ",", op % n);
        } else {
            u.findSet(ids[op - n * n]);
            h += mc::str(" find ", op - n * n);
        }
        if (k + 1 < depth) continue;
    }
    check();
    mc::state(h);
}

template <int d>
struct Dim {};
template <std::size_t D>
struct World {
    mg::Mesh src;
    Preprocessor::Mesh<D> mesh;
    std::vector<mg::L> pts;
    std::vector<std::vector<std::size_t>> coords;                // of every element
    std::vector<std::vector<std::vector<std::vector<int>>>> sub;  // [dimension][element][number] -> local nodes
    std::map<int, Closure> same;                                  // per dimension: classes of slots (element * 64 + number)
    Closure node;
    explicit World(const mg::Mesh& m) : src(m) {
        pts = pre::flat<D>(m, mesh);
        std::map<mg::L, std::size_t> id;
        for (std::size_t i = 0; i < pts.size(); ++i) id[pts[i]] = i;
        sub.resize(D);
        for (std::size_t d = 1; d < D; ++d) {
            sub[d].resize(m.elems.size());
            for (std::size_t e = 0; e < m.elems.size(); ++e) {
                const auto& t = mg::table(m.elems[e].shape);
                sub[d][e] = d + 1 == D ? t.faces : t.edges;
            }
        }
        for (auto& e : m.elems) {
            coords.emplace_back();
            for (auto& v : e.v) coords.back().push_back(id[v]);
        }
        for (std::size_t d = 1; d < D; ++d) {
            std::map<std::set<std::size_t>, std::size_t> seen;
            forAll(d, [&](std::size_t slot, const std::set<std::size_t>& c) {
                same[d].join(slot, slot);
                if (seen.count(c)) same[d].join(seen[c], slot);
                seen[c] = slot;
            });
        }
    }
    template <class F>
    void forAll(std::size_t d, F f) {
        for (std::size_t e = 0; e < coords.size(); ++e)
            for (std::size_t i = 0; i < sub[d][e].size(); ++i) {
                std::set<std::size_t> c;
                for (int k : sub[d][e][i]) c.insert(coords[e][k]);
                f(e * 64 + i, c);
            }
    }
    // the reference; returns false if the request collapses an entity
    bool request(const Pairing& p) {
        for (auto& x : p) node.join(x.first, x.second);
        for (std::size_t d = 1; d < D; ++d) {
            std::vector<std::pair<std::size_t, std::set<std::size_t>>> left, all;
            bool ok = true;
            forAll(d, [&](std::size_t slot, const std::set<std::size_t>& c) {
                all.push_back({slot, c});
                std::set<std::size_t> im;
                for (auto x : c) {
                    auto it = p.find(x);
                    if (it == p.end()) return;
                    im.insert(it->second);
                }
                if (im.size() != c.size())
                    ok = false;
                else
                    left.push_back({slot, im});
            });
            if (!ok) return false;
            for (auto& l : left)
                for (auto& r : all)
                    if (l.second == r.second) same[d].join(l.first, r.first);
        }
        return true;
    }
    pre::Partition wanted(std::size_t d) {
        std::map<std::size_t, pre::Block> b;
        if (d == 0)
            for (std::size_t e = 0; e < coords.size(); ++e)
                for (std::size_t i = 0; i < coords[e].size(); ++i) b[node.of(coords[e][i])].insert({(int)e, (int)i});
        else
            forAll(d, [&](std::size_t slot, const std::set<std::size_t>&) { b[same[d].of(slot)].insert({int(slot / 64), int(slot % 64)}); });
        pre::Partition r;
        for (auto& x : b) r.insert(x.second);
        return r;
    }
    template <int d>
    void levels(const std::string& when, Dim<d>) {
        pre::expect<D, d>(mesh, wanted(d), when);
        levels(when, Dim<d - 1>());
    }
    void levels(const std::string&, Dim<-1>) {}
    void check(const std::string& when) {
        levels(when, Dim<(int)D - 1>());
        auto& cs = mesh.getNodeCoordinates();
        if (cs.size() != pts.size()) mc::fail("the number of coordinates changed ", when);
        for (std::size_t i = 0; i < pts.size(); ++i) {
            for (std::size_t d = 0; d < D; ++d)
                if (cs[i].coordinate[d] != src.phi(pts[i])[d]) mc::fail("a coordinate moved ", when);
            for (std::size_t j = 0; j < i; ++j)
                if ((cs[i].nodeIndex == cs[j].nodeIndex) != (node.of(i) == node.of(j))) mc::fail("coordinates ", j, " and ", i, " belong to the wrong nodes ", when);
        }
        if (mesh.getNumberOfElements() != coords.size()) mc::fail("the number of elements changed ", when);
        for (std::size_t e = 0; e < coords.size(); ++e) {
            const auto& el = mesh.getElement(pre::EntityGId(e));
            for (std::size_t i = 0; i < coords[e].size(); ++i) {
                if (el.getCoordinateIndex(pre::EntityLId(i)).id != coords[e][i]) mc::fail("element ", e, " has different or reordered vertices ", when);
                if (el.template getIncidentEntityIndex<0>(pre::EntityLId(i)) != cs[coords[e][i]].nodeIndex) mc::fail("a vertex of element ", e, " has the wrong node ", when);
            }
        }
        mc::step();
    }
    template <int d>
    void counts(Dim<d>) {
        if (mesh.template getEntities<d>().size() != wanted(d).size()) mc::fail("wrong number of entities of dimension ", d, " after removing the unused ones: ", mesh.template getEntities<d>().size(), " instead of ", wanted(d).size());
        if (mesh.getNumberOfEntities(d) != wanted(d).size()) mc::fail("reported number of entities of dimension ", d, " is wrong");
        counts(Dim<d - 1>());
    }
    void counts(Dim<-1>) {}
    void finish() {
        mesh.removeUnusedEntities();
        check("after removing the unused entities");
        counts(Dim<(int)D - 1>());
        Preprocessor::Mesh<D> copy(mesh);
        mesh = Preprocessor::Mesh<D>();
        if (copy.getNumberOfElements() != coords.size()) mc::fail("a copy lost elements");
        mesh = std::move(copy);
        check("in a copy");
    }
    // the plan must name exactly the classes that grow
    template <int d>
    void plan(const MergePlan<D>& p, Dim<d>) {
        Closure mine;
        for (auto& g : p.getMerges()[d])
            for (auto& x : g) mine.join(g[0].id, x.id);
        std::map<std::size_t, std::size_t> entity;  // entity number -> reference class
        auto t = pre::topology<D, d>(mesh);
        for (std::size_t e = 0; e < coords.size(); ++e) {
            const auto& el = mesh.getElement(pre::EntityGId(e));
            for (std::size_t i = 0; i < el.template getNumberOfIncidentEntities<d>(); ++i)
                entity[el.template getIncidentEntityIndex<d>(pre::EntityLId(i)).id] = d == 0 ? node.of(coords[e][i]) : same[d].of(e * 64 + i);
        }
        for (auto& a : entity)
            for (auto& b : entity)
                if ((mine.of(a.first) == mine.of(b.first)) != (a.second == b.second)) mc::fail("the merge plan for dimension ", d, a.second == b.second ? " misses entities " : " wrongly merges entities ", a.first, " and ", b.first);
        plan(p, Dim<d - 1>());
    }
    void plan(const MergePlan<D>&, Dim<-1>) {}
    void apply(const Pairing& p, const std::string& when) {
        std::map<pre::CoordId, pre::CoordId> q;
        std::string t;
        for (auto& x : p) {
            q[pre::CoordId(x.first)] = pre::CoordId(x.second);
            t += mc::str(" ", x.first, "->", x.second);
        }
        mc::note("merge" + t);
        auto before = *this;
        bool fine = request(p);
        bool refused = false;
        MergePlan<D> mp;
        try {
            mp = MergePlan<D>::computeMergePlan(&mesh, q);
        } catch (mc::Fatal& f) {
            refused = true;
            if (fine) mc::fail("a request was refused: ", f.msg);
        }
        if (!fine) {
            if (!refused) mc::fail("a request that merges two vertices of one entity was accepted");
            *this = before;
            check("after a refused request");
            throw mc::Prune();
        }
        plan(mp, Dim<(int)D - 1>());
        mp.executeMerge();
        check(when);
    }
};

template <std::size_t D>
void pairings(const mg::Mesh& m, const std::vector<std::size_t>& from, const std::vector<std::size_t>& to, int rounds, int maxPairs) {
    World<D> w(m);
    mc::note(m.name);
    w.check("before any request");
    for (int r = 0; r < rounds; ++r) {
        Pairing p;
        for (std::size_t f : from) {
            if ((int)p.size() >= maxPairs) break;
            int c = mc::choose(to.size() + 1, nullptr);
            if (c) p[f] = to[c - 1];
        }
        if (p.empty()) {
            if (r) break;
        }
        w.apply(p, "after a request");
    }
    w.finish();
    std::string s = m.name;
    for (std::size_t d = 0; d < D; ++d) s += pre::show(w.wanted(d));
    mc::state(s);
}
static std::vector<std::size_t> upto(std::size_t a, std::size_t b) {
    std::vector<std::size_t> r;
    for (; a < b; ++a) r.push_back(a);
    return r;
}
static mg::Mesh separate(int dim, const std::vector<mg::Elem>& parts, const std::string& name) {
    mg::Mesh m;
    m.dim = dim;
    int k = 0;
    for (auto e : parts) {
        for (auto& v : e.v) v[0] += 4 * k;
        ++k;
        m.elems.push_back(e);
    }
    m.phi = mg::family(dim, 0);
    m.name = name;
    m.derive();
    return m;
}
static void allPairings() {
    using mg::pt;
    mg::Elem tri = mg::mk(mg::TRI, {pt(0, 0), pt(2, 0), pt(0, 2)}), sq = mg::box(2, pt(0, 0), pt(2, 2));
    mg::Elem tet = mg::mk(mg::TET, {pt(0, 0, 0), pt(2, 0, 0), pt(0, 2, 0), pt(0, 0, 2)});
    mg::Elem prism = mg::mk(mg::PRISM, {pt(0, 0, 0), pt(2, 0, 0), pt(0, 2, 0), pt(0, 0, 2), pt(2, 0, 2), pt(0, 2, 2)});
    bool deep = mc::thorough();
    switch (mc::choose(11, "setting")) {
        case 0: return pairings<1>(mg::grid(1, pt(3), "b"), upto(0, 4), upto(0, 4), deep ? 2 : 1, 9);
        case 1: return pairings<1>(mg::grid(1, pt(4), "b"), upto(0, 5), upto(0, 5), deep ? 3 : 2, deep ? 2 : 2);
        case 2: return pairings<2>(separate(2, {tri, tri}, "two triangles"), upto(0, deep ? 6 : 3), upto(0, 6), deep ? 1 : 1, 9);
        case 3: return pairings<2>(separate(2, {tri, tri}, "two triangles"), upto(0, 6), upto(0, 6), 2, deep ? 2 : 1);
        case 4: return pairings<2>(separate(2, {tri, tri, tri}, "three triangles"), upto(0, 6), upto(6, 9), 1, 9);
        case 5: return pairings<2>(separate(2, {tri, tri, sq}, "two triangles and a square"), upto(0, 6), deep ? upto(6, 10) : upto(6, 9), 1, 9);
        case 6: return pairings<2>(mg::grid(2, pt(2, 1), "tb"), upto(0, deep ? 6 : 5), upto(0, 6), 1, deep ? 6 : 3);
        case 7: return pairings<3>(separate(3, {tet, tet}, "two tetrahedra"), upto(0, 4), upto(0, 8), 1, 9);
        case 8: return pairings<3>(separate(3, {tet, tet, tet}, "three tetrahedra"), deep ? upto(0, 8) : std::vector<std::size_t>{0, 1, 2, 4, 5, 6}, upto(8, 12), 1, 9);
        case 9: return pairings<3>(separate(3, {prism, tet}, "prism and tetrahedron"), upto(6, 10), upto(0, 6), 1, 9);
        case 10: return pairings<3>(separate(3, {prism, prism}, "two prisms"), {2, 0, 5, 3}, upto(6, 12), 1, 9);
    }
}
// periodic grids: the directions connected one after the other, every order, every subset of the pairs per direction
template <std::size_t D>
void grids(bool byTranslation) {
    mg::L n{{1, 1, 1}};
    int most = D == 3 ? mc::tier(2, 3) : mc::tier(3, 4);
    for (std::size_t d = 0; d < D; ++d) n[d] = 1 + mc::choose(most, "elements");
    std::vector<std::string> how = D == 1 ? std::vector<std::string>{"b"} : D == 2 ? std::vector<std::string>{"b", "t", "bt", "c"} : std::vector<std::string>{"b", "t", "p", "y", "bp"};
    std::string h = mc::pick(how, "split");
    if (h == "bp" && n[1] * n[2] > 1) throw mc::Prune();
    if (h == "bt" && n[1] > 1) throw mc::Prune();
    int fam = mc::choose(2, "coordinates");
    std::vector<int> dirs;
    std::string t;
    while (dirs.size() < D) {
        int c = mc::choose(2 * D + 1, "direction");
        if (c == 2 * (int)D) break;
        for (int x : dirs)
            if (x / 2 == c / 2) throw mc::Prune();
        dirs.push_back(c);
    }
    mg::Mesh m = mg::grid(D, n, h, mg::L{{0, 0, 0}}, fam);
    // mixed shapes must match across the periodic boundary
    World<D> w(m);
    mg::Mesh want = m;
    for (int c : dirs) {
        int d = c / 2;
        bool back = c & 1;
        want.period[d] = 2 * n[d];
        mg::L step{{0, 0, 0}};
        step[d] = back ? -2 * n[d] : 2 * n[d];
        if (byTranslation) {
            mg::X a = m.phi(mg::pt(0, 0, 0)), b = m.phi(step), s{{0, 0, 0}};
            for (std::size_t k = 0; k < D; ++k) s[k] = b[k] - a[k];
            Preprocessor::translationConnect<D>(w.mesh, pre::vec<D>(s));
        } else {
            Pairing p;
            for (std::size_t i = 0; i < w.pts.size(); ++i)
                for (std::size_t j = 0; j < w.pts.size(); ++j) {
                    bool hit = true;
                    for (std::size_t k = 0; k < D; ++k) hit = hit && w.pts[i][k] + step[k] == w.pts[j][k];
                    if (hit) p[i] = j;
                }
            w.apply(p, "after connecting a direction");
        }
    }
    mc::note(mc::str(m.name, " directions ", dirs.size()));
    want.derive();
    auto part = [&](const std::vector<mg::Mesh::Inc>& inc) {
        pre::Partition p;
        for (auto& i : inc) p.insert(pre::Block(i.begin(), i.end()));
        return p;
    };
    pre::Partition nodes;
    for (auto& x : want.nodes) nodes.insert(pre::Block(x.at.begin(), x.at.end()));
    auto compare = [&](const std::string& when) {
        pre::expect<D, 0>(w.mesh, nodes, when);
        if (D > 1) pre::expect<D, (int)D - 1>(w.mesh, part(want.faces), when);
        if (D > 2) pre::expect<D, 1>(w.mesh, part(want.edges), when);
    };
    compare("after connecting the periodic sides");
    w.mesh.removeUnusedEntities();
    compare("after removing the unused entities");
    if (w.mesh.getNumberOfNodes() != nodes.size()) mc::fail("wrong number of nodes");
    if (D > 1 && w.mesh.getNumberOfFaces() != want.faces.size()) mc::fail("wrong number of faces");
    if (D > 2 && w.mesh.getNumberOfEdges() != want.edges.size()) mc::fail("wrong number of edges");
    mc::state(m.name + pre::show(nodes));
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    return mc::run([&] {
        switch (mc::choose(3, "part")) {
            case 0: return unionFind();
            case 1: return allPairings();
            case 2: {
                int d = mc::choose(3, "dimension"), t = mc::choose(2, "translation");
                if (d == 0) return grids<1>(t);
                if (d == 1) return grids<2>(t);
                return grids<3>(t);
            }
        }
    });
}
