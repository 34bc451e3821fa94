// Comparison of an imported preprocessor mesh with the description it was written from.
#ifndef VERIF_IMPORTCMP_H
#define VERIF_IMPORTCMP_H
#include "pre.h"
#include "prefile.h"
#include "preread.h"
#include "output.h"
using namespace hpgem;
template <class T>
static void arrange(std::vector<T>& v, int style) {
    if (style == 1) std::reverse(v.begin(), v.end());
    if (style == 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
    if (style >= 3) {  // all even positions, then all odd ones
        std::vector<T> r;
        for (std::size_t s = 0; s < 2; ++s)
            for (std::size_t i = s; i < v.size(); i += 2) r.push_back(v[i]);
        v = r;
    }
}
template <std::size_t D>
void compare(mg::Mesh m, Preprocessor::Mesh<D>& mesh, const std::vector<std::string>& zones, bool anyOrder, int P, bool solver, bool unused) {
    // find every element by its vertices; the order of the vertices may differ by a symmetry of the shape
    if (mesh.getNumberOfElements() != m.elems.size()) mc::fail(mesh.getNumberOfElements(), " elements instead of ", m.elems.size());
    std::map<mg::X, mg::L> back;
    for (auto& e : m.elems)
        for (auto& v : e.v) back[m.phi(v)] = v;
    std::vector<mg::Elem> es;
    std::vector<std::string> names;
    std::vector<bool> used(m.elems.size(), false);
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        const auto& el = mesh.getElement(pre::EntityGId(e));
        std::vector<mg::L> v;
        for (std::size_t i = 0; i < el.getNumberOfNodes(); ++i) {
            mg::X x{{0, 0, 0}};
            auto c = el.getCoordinate(pre::EntityLId(i));
            for (std::size_t d = 0; d < D; ++d) x[d] = c[d];
            if (!back.count(x)) mc::fail("element ", e, " has a vertex that the file does not list");
            v.push_back(back[x]);
        }
        int hit = -1;
        std::set<mg::L> s(v.begin(), v.end());
        for (std::size_t k = 0; k < m.elems.size(); ++k)
            if (!used[k] && std::set<mg::L>(m.elems[k].v.begin(), m.elems[k].v.end()) == s) hit = k;
        if (hit < 0 || v.size() != s.size()) mc::fail("element ", e, " is not an element of the file");
        used[hit] = true;
        if (!anyOrder && v != m.elems[hit].v) mc::fail("element ", e, " has its vertices in another order");
        bool ok = false;
        for (auto& p : mg::symmetries(m.elems[hit].shape)) {
            bool same = true;
            for (std::size_t i = 0; i < v.size() && same; ++i) same = m.elems[hit].v[p[i]] == v[i];
            ok = ok || same;
        }
        if (!ok) mc::fail("the vertices of element ", e, " (", mg::table(m.elems[hit].shape).name, ") are in an order that twists it");
        auto zs = mesh.getZoneNames();
        if (el.getZoneId() >= zs.size() || zs[el.getZoneId()] != zones[hit])
            mc::fail("element ", e, " is in zone '", el.getZoneId() < zs.size() ? zs[el.getZoneId()] : "?", "' instead of '", zones[hit], "'");
        mg::Elem x = m.elems[hit];
        x.v = v;
        names.push_back(zones[hit]);
        es.push_back(x);
        mc::step();
    }
    m.elems = es;
    m.zones.clear();
    for (std::size_t e = 0; e < es.size(); ++e) {
        auto it = std::find(m.zones.begin(), m.zones.end(), names[e]);
        m.elems[e].zone = it - m.zones.begin();
        if (it == m.zones.end()) m.zones.push_back(names[e]);
    }
    m.derive();
    pre::Partition nodes, faces, edges;
    for (auto& x : m.nodes) nodes.insert(pre::Block(x.at.begin(), x.at.end()));
    for (auto& x : m.faces) faces.insert(pre::Block(x.begin(), x.end()));
    for (auto& x : m.edges) edges.insert(pre::Block(x.begin(), x.end()));
    pre::expect<D, 0>(mesh, nodes, "in the imported mesh");
    if (D > 1) pre::expect<D, (int)D - 1>(mesh, faces, "in the imported mesh");
    if (D > 2) pre::expect<D, 1>(mesh, edges, "in the imported mesh");
    std::vector<int> part(m.elems.size(), 0);
    for (std::size_t e = 0; e < part.size(); ++e) part[e] = e % P;
    std::string out = mc::str("g", getpid(), ".hpgem");
    outputFileName.getValue() = out;
    Preprocessor::MeshData<std::size_t, D, D> partition(&mesh);
    for (std::size_t e = 0; e < part.size(); ++e) partition[e] = part[e];
    Preprocessor::outputMesh<std::size_t, D>(mesh, partition, P);
    auto f = pf::parse(out);
    if (unused) {  // a node without elements is in no partition and has no coordinates
        for (std::size_t i = 0; i < f.nodes.size();)
            if (f.nodes[i].parts.empty() && f.nodes[i].coords.empty()) {
                f.nodes.erase(f.nodes.begin() + i);
                for (auto& e : f.elems)
                    for (auto& a : e.at) a.first -= a.first > (long)i;
            } else
                ++i;
    }
    pf::check(f, m, part, P);
    if (solver) preread::check(m, out, part, P);
    unlink(out.c_str());
}
#endif
