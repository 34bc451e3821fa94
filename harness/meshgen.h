// Independent description of small meshes: built from lattice points, never from hpGEM code, and written in hpGEM's
// mesh file format (version 2) for any assignment of elements to partitions.
#ifndef VERIF_MESHGEN_H
#define VERIF_MESHGEN_H
#include "mc.h"
#include <array>
#include <functional>
namespace mg {
enum Shape { LINE, TRI, SQUARE, TET, CUBE, PYR, PRISM };
struct Table {
    const char* name;
    int dim, nodes;
    std::vector<std::vector<double>> ref;
    std::vector<std::vector<int>> faces, edges;
};
inline const Table& table(int s) {
    static const std::vector<Table> t = {
        {"line", 1, 2, {{-1}, {1}}, {{0}, {1}}, {}},
        {"triangle", 2, 3, {{0, 0}, {1, 0}, {0, 1}}, {{0, 1}, {0, 2}, {1, 2}}, {}},
        {"square", 2, 4, {{-1, -1}, {1, -1}, {-1, 1}, {1, 1}}, {{0, 1}, {0, 2}, {1, 3}, {2, 3}}, {}},
        {"tetrahedron", 3, 4, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
         {{0, 3, 2}, {0, 1, 3}, {0, 2, 1}, {1, 2, 3}},
         {{0, 1}, {0, 2}, {0, 3}, {2, 3}, {1, 3}, {1, 2}}},
        {"cube", 3, 8,
         {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}},
         {{0, 1, 2, 3}, {0, 1, 4, 5}, {0, 2, 4, 6}, {1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}},
         {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}},
        {"pyramid", 3, 5, {{0, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {-1, 1, 0}, {1, 1, 0}},
         {{3, 4, 1, 2}, {3, 1, 0}, {2, 4, 0}, {1, 2, 0}, {4, 3, 0}},
         {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 4}, {4, 3}, {3, 1}}},
        {"prism", 3, 6, {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}},
         {{0, 2, 1}, {3, 4, 5}, {2, 0, 5, 3}, {0, 1, 3, 4}, {1, 2, 4, 5}},
         {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {3, 5}, {4, 5}, {0, 3}, {1, 4}, {2, 5}}}};
    return t[s];
}
typedef std::array<int, 3> L;  // lattice point
typedef std::array<double, 3> X;
struct Elem {
    int shape;
    std::vector<L> v;
    int zone = 0;
};
// all vertex relabelings that keep the shape's face structure
inline const std::vector<std::vector<int>>& symmetries(int s) {
    static std::map<int, std::vector<std::vector<int>>> cache;
    auto it = cache.find(s);
    if (it != cache.end()) return it->second;
    const Table& t = table(s);
    std::set<std::set<int>> faces, edges;
    for (auto& f : t.faces) faces.insert(std::set<int>(f.begin(), f.end()));
    for (auto& e : t.edges) edges.insert(std::set<int>(e.begin(), e.end()));
    std::vector<std::vector<int>> out;
    std::vector<int> p(t.nodes);
    for (int i = 0; i < t.nodes; ++i) p[i] = i;
    do {
        bool ok = true;
        auto image = [&](const std::vector<int>& f) {
            std::set<int> r;
            for (int x : f) r.insert(p[x]);
            return r;
        };
        for (auto& e : t.edges)
            if (!edges.count(image(e))) {
                ok = false;
                break;
            }
        if (ok)
            for (auto& f : t.faces)
                if (!faces.count(image(f))) {
                    ok = false;
                    break;
                }
        if (ok) out.push_back(p);
    } while (std::next_permutation(p.begin(), p.end()));
    return cache[s] = out;
}
inline double det(const std::vector<X>& c, int dim) {
    if (dim == 1) return c[0][0];
    if (dim == 2) return c[0][0] * c[1][1] - c[0][1] * c[1][0];
    return c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1]) - c[0][1] * (c[1][0] * c[2][2] - c[1][2] * c[2][0]) +
           c[0][2] * (c[1][0] * c[2][1] - c[1][1] * c[2][0]);
}

struct Mesh {
    int dim = 0;
    std::string name;
    std::vector<Elem> elems;
    L period{{0, 0, 0}};
    std::function<X(const L&)> phi;
    std::vector<std::string> zones{"Main"};
    // derived
    struct Node {
        std::vector<X> coords;
        std::vector<std::pair<int, int>> at;  // element, local number
    };
    std::vector<Node> nodes;
    std::vector<std::vector<std::pair<int, int>>> elemNodes;  // node, coordinate number
    typedef std::vector<std::pair<int, int>> Inc;
    std::vector<Inc> faces, edges;  // (element, local number)
    std::vector<std::vector<int>> elemFaces, elemEdges;

    L wrap(L p) const {
        for (int d = 0; d < dim; ++d)
            if (period[d]) p[d] = ((p[d] % period[d]) + period[d]) % period[d];
        return p;
    }
    std::vector<X> coordsOf(int e) const {
        std::vector<X> r;
        for (auto& v : elems[e].v) r.push_back(phi(v));
        return r;
    }
    // sub-entities are identified by the wrapped sum of their lattice vertices (an integer multiple of the barycentre)
    std::vector<long> key(int e, const std::vector<int>& loc) const {
        std::vector<long> k{(long)loc.size()};
        for (int d = 0; d < dim; ++d) {
            long s = 0;
            for (int i : loc) s += elems[e].v[i][d];
            long per = (long)period[d] * loc.size();
            if (per) s = ((s % per) + per) % per;
            k.push_back(s);
        }
        return k;
    }
    void derive() {
        nodes.clear();
        elemNodes.assign(elems.size(), {});
        faces.clear();
        edges.clear();
        elemFaces.assign(elems.size(), {});
        elemEdges.assign(elems.size(), {});
        std::map<L, int> nid;
        std::map<std::vector<long>, int> fid, eid;
        for (std::size_t e = 0; e < elems.size(); ++e) {
            const Table& t = table(elems[e].shape);
            for (int j = 0; j < t.nodes; ++j) {
                L w = wrap(elems[e].v[j]);
                auto it = nid.find(w);
                if (it == nid.end()) {
                    it = nid.emplace(w, (int)nodes.size()).first;
                    nodes.emplace_back();
                }
                Node& n = nodes[it->second];
                X c = phi(elems[e].v[j]);
                std::size_t ci = 0;
                while (ci < n.coords.size() && n.coords[ci] != c) ++ci;
                if (ci == n.coords.size()) n.coords.push_back(c);
                n.at.push_back({(int)e, j});
                elemNodes[e].push_back({it->second, (int)ci});
            }
            for (std::size_t f = 0; f < t.faces.size(); ++f) {
                auto k = key(e, t.faces[f]);
                auto it = fid.find(k);
                if (it == fid.end()) {
                    it = fid.emplace(k, (int)faces.size()).first;
                    faces.emplace_back();
                }
                faces[it->second].push_back({(int)e, (int)f});
                elemFaces[e].push_back(it->second);
            }
            for (std::size_t f = 0; f < t.edges.size(); ++f) {
                auto k = key(e, t.edges[f]);
                auto it = eid.find(k);
                if (it == eid.end()) {
                    it = eid.emplace(k, (int)edges.size()).first;
                    edges.emplace_back();
                }
                edges[it->second].push_back({(int)e, (int)f});
                elemEdges[e].push_back(it->second);
            }
        }
    }
    bool periodicFace(int f) const {  // do the two sides see different coordinates
        if (faces[f].size() < 2) return false;
        std::set<X> a, b;
        const Table& ta = table(elems[faces[f][0].first].shape);
        const Table& tb = table(elems[faces[f][1].first].shape);
        for (int i : ta.faces[faces[f][0].second]) a.insert(phi(elems[faces[f][0].first].v[i]));
        for (int i : tb.faces[faces[f][1].second]) b.insert(phi(elems[faces[f][1].first].v[i]));
        return a != b;
    }
    std::set<int> nodeNeighbours(int e) const {
        std::set<int> r;
        for (auto& n : elemNodes[e])
            for (auto& i : nodes[n.first].at) r.insert(i.first);
        return r;
    }
    std::set<int> reach(int e, const std::vector<int>& part) const {  // partitions that hold element e
        std::set<int> r;
        for (int n : nodeNeighbours(e)) r.insert(part[n]);
        return r;
    }
    static std::string hex(double x) {
        char b[64];
        std::snprintf(b, sizeof b, "%a", x);
        return b;
    }
    // order: 0 as derived, 1 faces/edges listed in reverse with reversed sides
    void write(const std::string& fn, const std::vector<int>& part, int P, int order = 0, int version = 2) const {
        std::ostringstream o;
        o << "mesh " << version << "\n" << nodes.size() << " " << elems.size() << " " << dim;
        if (dim >= 2) o << " " << faces.size();
        if (dim == 3) o << " " << edges.size();
        o << "\n";
        std::vector<int> cnt(P, 0);
        std::vector<std::set<int>> np;
        for (auto& n : nodes) {
            std::set<int> s;
            for (auto& i : n.at)
                for (int p : reach(i.first, part)) s.insert(p);
            for (int p : s) ++cnt[p];
            np.push_back(s);
        }
        o << P << " ";
        for (int c : cnt) o << c << " ";
        o << "\n";
        if (version > 1) {
            o << "zones\n" << zones.size() << "\n";
            for (auto& z : zones) o << z << "\n";
            o << "nodes\n";
        }
        for (std::size_t n = 0; n < nodes.size(); ++n) {
            o << np[n].size();
            for (int p : np[n]) o << " " << p;
            o << "\n" << nodes[n].coords.size();
            for (auto& c : nodes[n].coords)
                for (int d = 0; d < dim; ++d) o << " " << hex(c[d]);
            o << "\n";
        }
        if (version > 1) o << "elements\n";
        for (std::size_t e = 0; e < elems.size(); ++e) {
            o << elemNodes[e].size();
            for (auto& n : elemNodes[e]) o << " " << n.first << " " << n.second;
            auto r = reach(e, part);
            r.erase(part[e]);
            o << " " << part[e] << " " << r.size();
            for (int p : r) o << " " << p;
            o << "\n";
            if (version > 1) o << elems[e].zone << "\n";
        }
        auto ent = [&](const std::vector<Inc>& list, const char* title) {
            if (version > 1) o << title << "\n";
            for (std::size_t q = 0; q < list.size(); ++q) {
                Inc inc = list[order ? list.size() - 1 - q : q];
                if (order) std::reverse(inc.begin(), inc.end());
                std::set<int> s;
                o << inc.size();
                for (auto& i : inc) {
                    o << " " << i.first << " " << i.second;
                    for (int p : reach(i.first, part)) s.insert(p);
                }
                o << " " << s.size();
                for (int p : s) o << " " << p;
                o << "\n";
            }
        };
        if (dim >= 2) ent(faces, "codim1");
        if (dim == 3) ent(edges, "codim2");
        std::ofstream f(fn);
        f << o.str();
    }
    void relabel(int e, const std::vector<int>& p) {
        std::vector<L> v(elems[e].v.size());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = elems[e].v[p[i]];
        elems[e].v = v;
    }
};

// coordinate families: 0 affine (unit), 1 sheared/scaled affine, 2 (non-affine) distortion with period 4 in the lattice
inline std::function<X(const L&)> family(int dim, int kind) {
    return [=](const L& p) {
        X x{{0, 0, 0}};
        double q[3];
        for (int d = 0; d < 3; ++d) q[d] = d < dim ? p[d] : 0;
        if (kind == 0) {
            for (int d = 0; d < dim; ++d) x[d] = q[d] * 0.5;
        } else if (kind == 1) {
            static const double A[3][3] = {{0.75, 0.25, -0.125}, {-0.125, 0.5, 0.25}, {0.25, -0.25, 1.0}};
            for (int d = 0; d < dim; ++d) {
                x[d] = 0.375 * (d + 1);
                for (int e = 0; e < dim; ++e) x[d] += A[d][e] * q[e];
            }
        } else {
            static const double w[5] = {0, 0.0625, -0.03125, 0.046875, 0.015625};
            for (int d = 0; d < dim; ++d) {
                int h = 0;
                for (int e = 0; e < dim; ++e) h += (e + 2 + d) * (((p[e] % 4) + 4) % 4);
                x[d] = q[d] * 0.5 + w[h % 5];
            }
        }
        return x;
    };
}
inline L pt(int a, int b = 0, int c = 0) { return L{{a, b, c}}; }
inline Elem box(int dim, L o, L s = L{{1, 1, 1}}) {
    Elem e;
    e.shape = dim == 1 ? LINE : dim == 2 ? SQUARE : CUBE;
    for (int k = 0; k < (1 << dim); ++k) {
        L p = o;
        for (int d = 0; d < dim; ++d)
            if (k >> d & 1) p[d] += s[d];
        e.v.push_back(p);
    }
    return e;
}
inline Elem mk(int s, std::vector<L> v) {
    Elem e;
    e.shape = s;
    e.v = v;
    return e;
}
// splits a box: "" none; t: triangles / Kuhn tets; p: prisms; y: pyramids around the centre (even lattice only)
inline std::vector<Elem> split(const Elem& b, int dim, char how) {
    if (how == 'b') return {b};
    auto v = b.v;
    std::vector<Elem> r;
    if (dim == 2) {
        if (how == 't') return {mk(TRI, {v[0], v[1], v[2]}), mk(TRI, {v[3], v[2], v[1]})};
        if (how == 'c') {  // four triangles around the centre
            L c = pt((v[0][0] + v[3][0]) / 2, (v[0][1] + v[3][1]) / 2);
            return {mk(TRI, {v[0], v[1], c}), mk(TRI, {v[1], v[3], c}), mk(TRI, {v[3], v[2], c}), mk(TRI, {v[2], v[0], c})};
        }
    }
    if (dim == 3) {
        if (how == 't') {
            std::array<int, 3> ax{{0, 1, 2}};
            do {
                int a = 1 << ax[0], c = a | 1 << ax[1];
                std::vector<L> w{v[0], v[a], v[c], v[7]};
                Elem e = mk(TET, w);
                std::vector<X> d;
                for (int i = 1; i < 4; ++i) d.push_back(X{{double(w[i][0] - w[0][0]), double(w[i][1] - w[0][1]), double(w[i][2] - w[0][2])}});
                if (det(d, 3) < 0) std::swap(e.v[1], e.v[2]);
                r.push_back(e);
            } while (std::next_permutation(ax.begin(), ax.end()));
            return r;
        }
        if (how == '5') {
            return {mk(TET, {v[0], v[1], v[2], v[4]}), mk(TET, {v[3], v[2], v[1], v[7]}), mk(TET, {v[5], v[4], v[7], v[1]}),
                    mk(TET, {v[6], v[7], v[4], v[2]}), mk(TET, {v[1], v[2], v[4], v[7]})};
        }
        if (how == 'p')
            return {mk(PRISM, {v[0], v[1], v[2], v[4], v[5], v[6]}), mk(PRISM, {v[3], v[2], v[1], v[7], v[6], v[5]})};
        if (how == 'y') {
            L c = pt((v[0][0] + v[7][0]) / 2, (v[0][1] + v[7][1]) / 2, (v[0][2] + v[7][2]) / 2);
            // base vertices such that the apex is on the positive side
            return {mk(PYR, {c, v[0], v[1], v[2], v[3]}), mk(PYR, {c, v[4], v[6], v[5], v[7]}), mk(PYR, {c, v[0], v[4], v[1], v[5]}),
                    mk(PYR, {c, v[2], v[3], v[6], v[7]}), mk(PYR, {c, v[0], v[2], v[4], v[6]}), mk(PYR, {c, v[1], v[5], v[3], v[7]})};
        }
    }
    return {b};
}
// grid of boxes, each split as 'how'; scale 2 keeps centres on the lattice
inline Mesh grid(int dim, L n, const std::string& how, L per = L{{0, 0, 0}}, int fam = 0) {
    Mesh m;
    m.dim = dim;
    int s = 2;
    std::size_t c = 0;
    for (int z = 0; z < (dim > 2 ? n[2] : 1); ++z)
        for (int y = 0; y < (dim > 1 ? n[1] : 1); ++y)
            for (int x = 0; x < n[0]; ++x) {
                for (auto& e : split(box(dim, pt(x * s, y * s, z * s), pt(s, s, s)), dim, how[c % how.size()])) m.elems.push_back(e);
                ++c;
            }
    for (int d = 0; d < dim; ++d)
        if (per[d]) m.period[d] = n[d] * s;
    m.phi = family(dim, fam);
    m.name = mc::str(dim, "D ", n[0], "x", n[1], "x", n[2], " ", how, " periodic ", per[0], per[1], per[2], " coordinates ", fam);
    m.derive();
    return m;
}
// a cube, a prism, a pyramid and a tetrahedron glued together
inline Mesh hybrid3(int fam = 0) {
    Mesh m;
    m.dim = 3;
    m.elems.push_back(box(3, pt(0, 0, 0), pt(2, 2, 2)));
    m.elems.push_back(mk(PRISM, {pt(2, 0, 0), pt(4, 0, 0), pt(2, 2, 0), pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2)}));
    m.elems.push_back(mk(PYR, {pt(0, 0, 4), pt(0, 0, 2), pt(2, 0, 2), pt(0, 2, 2), pt(2, 2, 2)}));
    m.elems.push_back(mk(TET, {pt(2, 0, 2), pt(4, 0, 2), pt(2, 2, 2), pt(0, 0, 4)}));
    m.phi = family(3, fam);
    m.name = mc::str("3D hybrid cube/prism/pyramid/tet coordinates ", fam);
    m.derive();
    return m;
}
inline Mesh hybrid2(int fam = 0) {
    Mesh m;
    m.dim = 2;
    m.elems.push_back(box(2, pt(0, 0), pt(2, 2)));
    m.elems.push_back(mk(TRI, {pt(2, 0), pt(4, 0), pt(2, 2)}));
    m.elems.push_back(mk(TRI, {pt(4, 2), pt(2, 2), pt(4, 0)}));
    m.phi = family(2, fam);
    m.name = mc::str("2D hybrid coordinates ", fam);
    m.derive();
    return m;
}
inline void zonesByParity(Mesh& m) {
    m.zones = {"left part", "b", "zone 3"};
    for (std::size_t e = 0; e < m.elems.size(); ++e) m.elems[e].zone = (e * 2) % 3;
}
}  // namespace mg
#endif
