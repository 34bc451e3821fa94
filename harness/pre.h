// Binding to the mesh representation of the preprocessor: building one of its meshes from an independent description and
// reading its topology back as plain partitions of (element, local number) pairs.
#ifndef VERIF_PRE_H
#define VERIF_PRE_H
#include "hp.h"
#include "meshgen.h"
#include "mesh/Mesh.h"
namespace pre {
using namespace hpgem;
using Preprocessor::CoordId;
using Preprocessor::EntityGId;
using Preprocessor::EntityLId;
typedef std::pair<int, int> Slot;  // element, local number
typedef std::set<Slot> Block;
typedef std::set<Block> Partition;

template <std::size_t D>
LinearAlgebra::SmallVector<D> vec(const mg::X& x) {
    LinearAlgebra::SmallVector<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = x[i];
    return r;
}
// one coordinate per lattice point, ignoring periodicity; returns the lattice point of every coordinate
template <std::size_t D>
std::vector<mg::L> flat(const mg::Mesh& m, Preprocessor::Mesh<D>& out) {
    std::map<mg::L, std::size_t> id;
    std::vector<mg::L> pts;
    for (auto& e : m.elems)
        for (auto& v : e.v)
            if (!id.count(v)) {
                id[v] = pts.size();
                pts.push_back(v);
            }
    for (auto& p : pts) {
        auto n = out.addNode();
        out.addNodeCoordinate(n, vec<D>(m.phi(p)));
    }
    for (auto& e : m.elems) {
        std::vector<CoordId> c;
        for (auto& v : e.v) c.push_back(CoordId(id[v]));
        out.addElement(c, m.zones[e.zone]);
    }
    return pts;
}
// the identification of the mesh, with all the coordinates of every node; returns the coordinate ids used by every element
template <std::size_t D>
std::vector<std::vector<std::size_t>> folded(const mg::Mesh& m, Preprocessor::Mesh<D>& out) {
    std::vector<std::vector<std::size_t>> cid(m.nodes.size());
    for (std::size_t n = 0; n < m.nodes.size(); ++n) {
        auto g = out.addNode();
        for (auto& c : m.nodes[n].coords) cid[n].push_back(out.addNodeCoordinate(g, vec<D>(c)).id);
    }
    std::vector<std::vector<std::size_t>> used;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        std::vector<CoordId> c;
        used.emplace_back();
        for (auto& nc : m.elemNodes[e]) {
            c.push_back(CoordId(cid[nc.first][nc.second]));
            used.back().push_back(cid[nc.first][nc.second]);
        }
        out.addElement(c, m.zones[m.elems[e].zone]);
    }
    return used;
}
// partition of all (element, local number) pairs according to the elements, and according to the entities
template <std::size_t D, int d>
std::pair<Partition, Partition> topology(const Preprocessor::Mesh<D>& m) {
    std::map<std::size_t, Block> byElem, byEnt;
    for (std::size_t e = 0; e < m.getNumberOfElements(); ++e) {
        const auto& el = m.getElement(EntityGId(e));
        std::size_t n = el.template getNumberOfIncidentEntities<d>();
        for (std::size_t i = 0; i < n; ++i) byElem[el.template getIncidentEntityIndex<d>(EntityLId(i)).id].insert({(int)e, (int)i});
    }
    const auto& ents = m.template getEntities<d>();
    for (std::size_t k = 0; k < ents.size(); ++k) {
        if (ents[k].getGlobalIndex().id != k) mc::fail("an entity of dimension ", d, " does not know its own number");
        for (std::size_t i = 0; i < ents[k].getNumberOfElements(); ++i)
            if (!byEnt[k].insert({(int)ents[k].getElement(EntityLId(i)).getGlobalIndex().id, (int)ents[k].getLocalIndex(EntityLId(i)).id}).second)
                mc::fail(mc::str("an entity of dimension ", d, " lists an element twice at the same place"));
    }
    for (auto& b : byEnt)
        if (!b.second.empty() && (!byElem.count(b.first) || byElem[b.first] != b.second))
            mc::fail(mc::str("elements and entities of dimension ", d, " disagree about who is adjacent to whom"));
    std::pair<Partition, Partition> r;
    for (auto& b : byElem) r.first.insert(b.second);
    for (auto& b : byEnt)
        if (!b.second.empty()) r.second.insert(b.second);
    return r;
}
inline std::string show(const Partition& p) {
    std::string s;
    for (auto& b : p) {
        s += "{";
        for (auto& x : b) s += mc::str(" ", x.first, ".", x.second);
        s += " }";
    }
    return s;
}
template <std::size_t D, int d>
void expect(const Preprocessor::Mesh<D>& m, const Partition& want, const std::string& when) {
    auto t = topology<D, d>(m);
    if (t.first != want) {
        mc::note(mc::str("got ", show(t.first), " expected ", show(want)));
        mc::fail(mc::str("entities of dimension ", d, " identified wrongly ", when));
    }
    if (t.second != want) {
        mc::note(mc::str("got ", show(t.second), " expected ", show(want)));
        mc::fail(mc::str("element lists of the entities of dimension ", d, " are wrong ", when));
    }
    mc::step();
}
}  // namespace pre
#endif
