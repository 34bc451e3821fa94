// What one process sees of a distributed mesh, and the comparison of all processes' views with the whole mesh.
#ifndef VERIF_DIST_H
#define VERIF_DIST_H
#include "hp.h"
#include "meshgen.h"
#include "mcmpi.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/Submesh.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/PointPhysical.h"
namespace dist {
using namespace hpgem;
using mcmpi::Blob;
struct FaceSide {
    long face, other, otherLocal, type;
    bool left, internal, owned;
};
struct SubEnt {
    long id;
    bool owned;
};
struct ElemView {
    long id, owner;
    bool owned;
    std::string zone;
    std::vector<mg::X> x;
    std::vector<FaceSide> faces;
    std::vector<SubEnt> edges, nodes;
    int mesh = -1;  // matched element of the reference mesh
};
struct IncView {
    long id;
    std::vector<std::pair<long, long>> at;
};
struct View {
    std::vector<ElemView> elems;
    std::vector<long> localElems, localFaces, localEdges, localNodes;
    std::vector<IncView> edges, nodes;
    std::map<long, std::vector<long>> push, pull;
    std::map<long, int> byId;
};
template <std::size_t DIM>
void capture(Base::MeshManipulator<DIM>& mesh, Blob& b) {
    std::vector<Base::Element*> all;
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) all.push_back(e);
    b.i(all.size());
    for (Base::Element* e : all) {
        b.i(e->getID());
        b.i(e->getOwner());
        b.i(e->isOwnedByCurrentProcessor());
        b.str(e->getZone().getName());
        auto* g = e->getPhysicalGeometry();
        b.i(g->getNumberOfNodes());
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
            const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
            for (std::size_t d = 0; d < 3; ++d) b.d(d < DIM ? p[d < DIM ? d : 0] : 0);
        }
        b.i(e->getFacesList().size());
        for (std::size_t i = 0; i < e->getFacesList().size(); ++i) {
            Base::Face* f = e->getFacesList()[i];
            if (!f) throw mc::Violation{mc::str("element ", e->getID(), " has no face ", i)};
            bool left = f->getPtrElementLeft() == e && f->localFaceNumberLeft() == i;
            if (!left && !(f->getPtrElementRight() == e && f->localFaceNumberRight() == i))
                throw mc::Violation{mc::str("face ", i, " of element ", e->getID(), " is not connected back to it")};
            Base::Element* other = left ? f->getPtrElementRight() : f->getPtrElementLeft();
            b.i(f->getID());
            b.i(other ? (long)other->getID() : -1);
            b.i(other ? (long)(left ? f->localFaceNumberRight() : f->localFaceNumberLeft()) : -1);
            b.i((long)f->getFaceType());
            b.i(left);
            b.i(f->isInternal());
            b.i(f->isOwnedByCurrentProcessor());
        }
        b.i(e->getEdgesList().size());
        for (auto* x : e->getEdgesList()) {
            if (!x) throw mc::Violation{mc::str("element ", e->getID(), " misses an edge")};
            b.i(x->getID());
            b.i(x->isOwnedByCurrentProcessor());
        }
        b.i(e->getNodesList().size());
        for (auto* x : e->getNodesList()) {
            if (!x) throw mc::Violation{mc::str("element ", e->getID(), " misses a node")};
            b.i(x->getID());
            b.i(x->isOwnedByCurrentProcessor());
        }
    }
    auto ids = [&](std::vector<long> v) {
        b.i(v.size());
        for (long x : v) b.i(x);
    };
    std::vector<long> v;
    for (auto* e : mesh.getElementsList()) v.push_back(e->getID());
    ids(v);
    v.clear();
    for (auto* e : mesh.getFacesList()) v.push_back(e->getID());
    ids(v);
    v.clear();
    for (auto* e : mesh.getEdgesList()) v.push_back(e->getID());
    ids(v);
    v.clear();
    for (auto* e : mesh.getNodesList()) v.push_back(e->getID());
    ids(v);
    std::vector<Base::Edge*> ed;
    for (auto* e : mesh.getEdgesList(Base::IteratorType::GLOBAL)) ed.push_back(e);
    b.i(ed.size());
    for (auto* e : ed) {
        b.i(e->getID());
        b.i(e->getNumberOfElements());
        for (std::size_t i = 0; i < e->getNumberOfElements(); ++i) {
            b.i(e->getElement(i)->getID());
            b.i(e->getEdgeNumber(i));
        }
    }
    std::vector<Base::Node*> nd;
    for (auto* e : mesh.getNodesList(Base::IteratorType::GLOBAL)) nd.push_back(e);
    b.i(nd.size());
    for (auto* e : nd) {
        b.i(e->getID());
        b.i(e->getNumberOfElements());
        for (std::size_t i = 0; i < e->getNumberOfElements(); ++i) {
            b.i(e->getElement(i)->getID());
            b.i(e->getNodeNumber(i));
        }
    }
    for (int k = 0; k < 2; ++k) {
        const std::map<int, std::vector<Base::Element*>>& m = k ? mesh.getPullElements() : mesh.getPushElements();
        b.i(m.size());
        for (auto& p : m) {
            b.i(p.first);
            b.i(p.second.size());
            for (auto* e : p.second) b.i(e->getID());
        }
    }
}
inline View parse(Blob& b) {
    View v;
    v.elems.resize(b.gi());
    for (auto& e : v.elems) {
        e.id = b.gi();
        e.owner = b.gi();
        e.owned = b.gi();
        e.zone = b.gstr();
        e.x.resize(b.gi());
        for (auto& x : e.x)
            for (int d = 0; d < 3; ++d) x[d] = b.gd();
        e.faces.resize(b.gi());
        for (auto& f : e.faces) {
            f.face = b.gi();
            f.other = b.gi();
            f.otherLocal = b.gi();
            f.type = b.gi();
            f.left = b.gi();
            f.internal = b.gi();
            f.owned = b.gi();
        }
        for (auto* l : {&e.edges, &e.nodes}) {
            l->resize(b.gi());
            for (auto& x : *l) {
                x.id = b.gi();
                x.owned = b.gi();
            }
        }
        v.byId[e.id] = &e - &v.elems[0];
    }
    for (auto* l : {&v.localElems, &v.localFaces, &v.localEdges, &v.localNodes}) {
        l->resize(b.gi());
        for (auto& x : *l) x = b.gi();
    }
    for (auto* l : {&v.edges, &v.nodes}) {
        l->resize(b.gi());
        for (auto& x : *l) {
            x.id = b.gi();
            x.at.resize(b.gi());
            for (auto& y : x.at) {
                y.first = b.gi();
                y.second = b.gi();
            }
        }
    }
    for (auto* m : {&v.push, &v.pull}) {
        long n = b.gi();
        for (long i = 0; i < n; ++i) {
            long p = b.gi();
            auto& l = (*m)[p];
            l.resize(b.gi());
            for (auto& x : l) x = b.gi();
        }
    }
    return v;
}
// one id per entity and one entity per id, over all processes
struct Bijection {
    const char* what;
    std::map<long, int> to;
    std::map<int, long> from;
    void add(long id, int ent) {
        auto a = to.emplace(id, ent);
        mc::require(a.second || a.first->second == ent, what, " id ", id, " is used for two different ", what, "s");
        auto b = from.emplace(ent, id);
        mc::require(b.second || b.first->second == id, what, " ", ent, " has ids ", b.first->second, " and ", id, " on different processes");
    }
};
inline int findElement(const mg::Mesh& m, const std::vector<mg::X>& x) {
    int r = -1;
    for (std::size_t e = 0; e < m.elems.size(); ++e)
        if (m.coordsOf(e) == x) {
            mc::require(r < 0, "harness: ambiguous element");
            r = e;
        }
    return r;
}
inline void checkMesh(const mg::Mesh& m, const std::vector<int>& part, int P, std::vector<View>& vs, bool extraPulls = false,
                      bool zonesKnown = true) {
    Bijection be{"element"}, bf{"face"}, bd{"edge"}, bn{"node"};
    std::map<int, std::set<int>> faceOwners, edgeOwners, nodeOwners, elemOwners;
    std::map<int, int> leftOf;
    for (int p = 0; p < P; ++p) {
        View& v = vs[p];
        std::set<int> expect, have;
        for (std::size_t e = 0; e < m.elems.size(); ++e)
            if (m.reach(e, part).count(p)) expect.insert(e);
        for (auto& e : v.elems) {
            e.mesh = findElement(m, e.x);
            mc::require(e.mesh >= 0, "process ", p, " holds an element (id ", e.id, ") that is not in the mesh");
            mc::require(have.insert(e.mesh).second, "process ", p, " holds element ", e.mesh, " twice");
            be.add(e.id, e.mesh);
        }
        for (int e : expect) mc::require(have.count(e), "process ", p, " misses element ", e, " although it owns it or a node-neighbour of it");
        for (int e : have) mc::require(expect.count(e), "process ", p, " holds element ", e, " although it owns no neighbour of it");
        for (auto& e : v.elems) {
            const int E = e.mesh;
            mc::require(e.owner == part[E], "process ", p, ": element ", E, " belongs to ", part[E], " but owner is ", e.owner);
            mc::require(e.owned == (part[E] == p), "process ", p, ": wrong ownership flag of element ", E);
            if (e.owned) elemOwners[E].insert(p);
            mc::require(e.zone == (zonesKnown ? m.zones[m.elems[E].zone] : std::string("Main")), "process ", p, ": element ", E, " is in zone '", e.zone, "'");
            mc::require(e.faces.size() == m.elemFaces[E].size(), "process ", p, ": element ", E, " has ", e.faces.size(), " faces");
            for (std::size_t f = 0; f < e.faces.size(); ++f) {
                auto& F = e.faces[f];
                int mf = m.elemFaces[E][f];
                bf.add(F.face, mf);
                if (F.owned) faceOwners[mf].insert(p);
                const auto& inc = m.faces[mf];
                int other = -1, otherLocal = -1;
                for (auto& i : inc)
                    if (i != std::make_pair(E, (int)f)) {
                        other = i.first;
                        otherLocal = i.second;
                    }
                bool here = other >= 0 && have.count(other);
                if (here) {
                    mc::require(F.internal && v.byId.count(F.other) && v.elems[v.byId[F.other]].mesh == other && F.otherLocal == otherLocal, "process ",
                                p, ": face ", f, " of element ", E, " should connect to face ", otherLocal, " of element ", other);
                    int left = F.left ? E : other;
                    auto l = leftOf.emplace(mf, left);
                    mc::require(l.first->second == left, "processes disagree about the left element of face ", mf);
                    bool mine = part[E] == p || part[other] == p, both = part[E] == p && part[other] == p;
                    if (mine) {
                        bool per = m.periodicFace(mf);
                        Geometry::FaceType want = both ? (per ? Geometry::FaceType::PERIODIC_BC : Geometry::FaceType::INTERNAL)
                                                       : (per ? Geometry::FaceType::PERIODIC_SUBDOMAIN_BC : Geometry::FaceType::SUBDOMAIN_BOUNDARY);
                        mc::require(F.type == (long)want, "process ", p, ": face between elements ", E, " and ", other, " has type ", F.type,
                                    " instead of ", (long)want);
                    }
                } else {
                    mc::require(!F.internal && F.other < 0, "process ", p, ": face ", f, " of element ", E, " should have no neighbour");
                    mc::require(part[E] != p || other < 0, "process ", p, ": neighbour of an owned element is missing");
                    if (part[E] == p)
                        mc::require(F.type == (long)Geometry::FaceType::WALL_BC, "process ", p, ": outer face of element ", E, " has type ", F.type);
                }
            }
            mc::require(e.edges.size() == m.elemEdges[E].size(), "process ", p, ": element ", E, " has ", e.edges.size(), " edges");
            for (std::size_t i = 0; i < e.edges.size(); ++i) {
                bd.add(e.edges[i].id, m.elemEdges[E][i]);
                if (e.edges[i].owned) edgeOwners[m.elemEdges[E][i]].insert(p);
            }
            mc::require(e.nodes.size() == m.elemNodes[E].size(), "process ", p, ": element ", E, " has ", e.nodes.size(), " nodes");
            for (std::size_t i = 0; i < e.nodes.size(); ++i) {
                bn.add(e.nodes[i].id, m.elemNodes[E][i].first);
                if (e.nodes[i].owned) nodeOwners[m.elemNodes[E][i].first].insert(p);
            }
        }
        // incidence lists
        auto incidence = [&](std::vector<IncView>& l, Bijection& b, const char* what, const std::function<mg::Mesh::Inc(int)>& at) {
            std::set<int> seen;
            for (auto& x : l) {
                mc::require(b.to.count(x.id), "process ", p, " holds a ", what, " that no element has");
                int ent = b.to[x.id];
                mc::require(seen.insert(ent).second, "process ", p, " lists ", what, " ", ent, " twice");
                std::set<std::pair<int, int>> want, got;
                for (auto& i : at(ent))
                    if (have.count(i.first)) want.insert(i);
                for (auto& i : x.at) {
                    mc::require(v.byId.count(i.first), "unknown element at ", what);
                    mc::require(got.insert({v.elems[v.byId[i.first]].mesh, (int)i.second}).second, "process ", p, ": element listed twice at ", what, " ", ent);
                }
                mc::require(want == got, "process ", p, ": wrong list of elements at ", what, " ", ent);
            }
            std::set<int> need;
            for (int E : have) {
                if (what[0] == 'n')
                    for (auto& n : m.elemNodes[E]) need.insert(n.first);
                else
                    for (int n : m.elemEdges[E]) need.insert(n);
            }
            mc::require(need == seen, "process ", p, " does not list exactly the ", what, "s of its elements");
        };
        incidence(v.edges, bd, "edge", [&](int i) { return m.edges[i]; });
        incidence(v.nodes, bn, "node", [&](int i) { return m.nodes[i].at; });
        // local lists
        std::set<int> le;
        for (long id : v.localElems) {
            mc::require(be.to.count(id) && le.insert(be.to[id]).second, "process ", p, " lists a local element twice");
            mc::require(part[be.to[id]] == p, "process ", p, " lists element ", be.to[id], " as local");
        }
        std::size_t mine = std::count(part.begin(), part.end(), p);
        mc::require(le.size() == mine, "process ", p, " lists ", le.size(), " local elements instead of ", mine);
        std::set<long> lf(v.localFaces.begin(), v.localFaces.end());
        mc::require(lf.size() == v.localFaces.size(), "process ", p, " lists a face twice");
        std::set<long> ld(v.localEdges.begin(), v.localEdges.end()), ln(v.localNodes.begin(), v.localNodes.end());
        mc::require(ld.size() == v.localEdges.size() && ln.size() == v.localNodes.size(), "process ", p, " lists an edge or node twice");
        for (auto& e : v.elems)
            if (e.owned) {
                for (auto& f : e.faces) mc::require(lf.count(f.face), "process ", p, ": a face of an owned element is not in the local list");
                for (auto& f : e.edges) mc::require(ld.count(f.id), "process ", p, ": an edge of an owned element is not in the local list");
                for (auto& f : e.nodes) mc::require(ln.count(f.id), "process ", p, ": a node of an owned element is not in the local list");
            }
    }
    for (std::size_t e = 0; e < m.elems.size(); ++e) mc::require(elemOwners[e].size() == 1, "element ", e, " is owned by ", elemOwners[e].size(), " processes");
    for (std::size_t e = 0; e < m.faces.size(); ++e) mc::require(faceOwners[e].size() == 1, "face ", e, " is owned by ", faceOwners[e].size(), " processes");
    for (std::size_t e = 0; e < m.edges.size(); ++e) mc::require(edgeOwners[e].size() == 1, "edge ", e, " is owned by ", edgeOwners[e].size(), " processes");
    for (std::size_t e = 0; e < m.nodes.size(); ++e) mc::require(nodeOwners[e].size() == 1, "node ", e, " is owned by ", nodeOwners[e].size(), " processes");
    // exchange lists
    for (int p = 0; p < P; ++p)
        for (int q = 0; q < P; ++q) {
            std::vector<long> a = vs[p].push.count(q) ? vs[p].push[q] : std::vector<long>();
            std::vector<long> b = vs[q].pull.count(p) ? vs[q].pull[p] : std::vector<long>();
            mc::require(a == b, "process ", p, " pushes other elements (or another order) to ", q, " than ", q, " pulls");
            std::set<int> want, got;
            for (std::size_t e = 0; e < m.elems.size(); ++e)
                if (p != q && part[e] == p && m.reach(e, part).count(q)) want.insert(e);
            for (long id : a) {
                mc::require(be.to.count(id), "exchange of an unknown element");
                mc::require(got.insert(be.to[id]).second || extraPulls, "process ", p, " sends an element twice to ", q);
            }
            mc::require(want == got, "process ", p, " does not push exactly the ghost elements of ", q);
        }
}
}  // namespace dist
#endif
