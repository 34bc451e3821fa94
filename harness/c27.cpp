// C27: importing a Centaur hybrid mesh file preserves the mesh it describes.
#include "pre.h"
#include "catalog.h"
#include "centaur.h"
#include "MeshFactory.h"
#include "importcmp.h"
#include <cstdint>
// The file is a sequence of records, each enclosed by its length in bytes (Fortran unformatted).
struct File {
    std::string s;
    bool multi = false;
    std::uint32_t line = 1;
    void record(const std::string& d) {
        std::uint32_t n = d.size();
        s.append((const char*)&n, 4);
        s += d;
        s.append((const char*)&n, 4);
    }
    template <class T>
    static std::string raw(const std::vector<T>& v) {
        return std::string((const char*)v.data(), v.size() * sizeof(T));
    }
    void count(std::uint32_t n, bool multiline) {
        std::vector<std::uint32_t> h{n};
        if (multiline && multi) h.push_back(line);
        record(raw(h));
    }
    // the entries of one property, cut into lines
    template <class T>
    void lines(const std::vector<std::vector<T>>& e) {
        if (e.empty()) return record("");
        std::size_t per = multi ? line : e.size();
        for (std::size_t i = 0; i < e.size(); i += per) {
            std::string d;
            for (std::size_t k = i; k < std::min(e.size(), i + per); ++k) d += raw(e[k]);
            record(d);
        }
    }
};
static std::vector<int> order(int shape) {
    switch (shape) {
        case mg::SQUARE: return {0, 1, 3, 2};
        case mg::CUBE: return {0, 1, 3, 2, 4, 5, 7, 6};
        case mg::PYR: return {1, 2, 4, 3, 0};
        default: {
            std::vector<int> r;
            for (int i = 0; i < mg::table(shape).nodes; ++i) r.push_back(i);
            return r;
        }
    }
}
static std::string padded(std::string n) {
    n.resize(80, ' ');
    return n;
}
struct Style {
    float version = 0;
    int type = 0, line = 1, nodes = 0, elems = 0, zones = 1, periodic = 0;
    std::vector<std::vector<std::uint32_t>> split;  // per element type the first element of every zone
    bool quadratic = false, noZones = false;
};
static std::string zoneName(int z) { return z == 0 ? "Main" : z == 1 ? "second part" : std::string(79, 'z') + "3"; }
static std::string centaurFile(const mg::Mesh& m, const Style& s, const std::vector<std::vector<int>>& byType) {
    typedef std::vector<std::uint32_t> I;
    File f;
    f.multi = s.type > 4;
    f.line = s.line;
    std::string h;
    h.append((const char*)&s.version, 4);
    h.append((const char*)&s.type, 4);
    f.record(h + padded("Unstructured hybrid grid format"));
    std::vector<mg::L> pts;
    for (auto& e : m.elems)
        for (auto& v : e.v)
            if (std::find(pts.begin(), pts.end(), v) == pts.end()) pts.push_back(v);
    arrange(pts, s.nodes);
    std::map<mg::L, std::uint32_t> id;
    std::vector<std::vector<double>> xs;
    for (auto& p : pts) {
        auto x = m.phi(p);
        xs.push_back(std::vector<double>(x.begin(), x.begin() + m.dim));
        id[p] = xs.size();
    }
    std::vector<std::vector<I>> extra(byType.size());
    if (s.quadratic) {  // a node in the middle of every edge; the elements share them
        std::map<std::pair<std::uint32_t, std::uint32_t>, std::uint32_t> mid;
        static const int ends[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
        for (std::size_t t = 0; t < byType.size(); ++t)
            for (int e : byType[t]) {
                I x;
                for (auto& k : ends) {
                    std::uint32_t a = id[m.elems[e].v[k[0]]], b = id[m.elems[e].v[k[1]]];
                    auto key = std::make_pair(std::min(a, b), std::max(a, b));
                    if (!mid.count(key)) {
                        std::vector<double> c;
                        for (int d = 0; d < m.dim; ++d) c.push_back((xs[a - 1][d] + xs[b - 1][d]) / 2);
                        xs.push_back(c);
                        mid[key] = xs.size();
                    }
                    x.push_back(mid[key]);
                }
                extra[t].push_back(x);
            }
    }
    f.count(xs.size(), true);
    f.lines(xs);
    for (auto& es : byType) {
        std::vector<I> v;
        for (int e : es) {
            I x;
            for (int i : order(m.elems[e].shape)) x.push_back(id[m.elems[e].v[i]]);
            v.push_back(x);
        }
        f.count(v.size(), true);
        f.lines(v);
    }
    std::vector<I> bn, bf, panel;
    for (auto& g : m.faces) {
        if (g.size() != 1) continue;
        I x;
        for (int i : mg::table(m.elems[g[0].first].shape).faces[g[0].second]) x.push_back(id[m.elems[g[0].first].v[i]]);
        if (m.dim == 3) x.resize(8, 0);
        bf.push_back(x);
        panel.push_back({(std::uint32_t)(1 + bf.size() % 2)});
        bn.push_back({x[0], 1});
    }
    if (bf.empty()) {  // all sides are periodic: the geometry has boundary faces all the same
        bf.push_back(I(m.dim == 3 ? 8 : 2, 1));
        panel.push_back({1});
        bn.push_back({1, 1});
    }
    if (m.dim == 2) {
        f.count(bn.size(), true);
        f.lines(bn);
    }
    f.count(bf.size(), true);
    f.lines(bf);
    f.lines(panel);
    f.count(2, false);
    f.record(File::raw(I{1, 2}));
    f.count(2, false);
    f.record(File::raw(I{6001, 7001}));
    f.record(padded("Panel1") + padded("Panel two"));
    // periodic sets
    std::vector<std::vector<std::pair<std::uint32_t, std::uint32_t>>> sets;
    for (int d = 0; d < m.dim; ++d) {
        if (!m.period[d]) continue;
        std::vector<std::pair<std::uint32_t, std::uint32_t>> p;
        for (auto& a : pts) {
            mg::L b = a;
            b[d] += m.period[d];
            if (id.count(b)) p.push_back(s.periodic & 1 ? std::make_pair(id[b], id[a]) : std::make_pair(id[a], id[b]));
        }
        if (s.periodic & 2) p.insert(p.begin() + p.size() / 2, {p[0].second, 0});  // Centaur writes such lines
        sets.push_back(p);
        if (s.periodic & 4) sets.push_back({});
    }
    if (s.periodic & 8 && m.period[0] && m.period[1]) {  // the sides shifted in both directions at once
        std::vector<std::pair<std::uint32_t, std::uint32_t>> p;
        for (auto& a : pts) {
            mg::L b = a;
            b[0] += m.period[0];
            b[1] += m.period[1];
            if (id.count(b)) p.push_back({id[a], id[b]});
        }
        sets.push_back(p);
    }
    if (s.periodic & 16) std::reverse(sets.begin(), sets.end());
    f.count(sets.size(), false);
    for (auto& p : sets) {
        std::string t(4 + (m.dim + 1) * (m.dim + 1) * 8, 'x');
        f.record(t);
        f.record(t);
        f.count(p.size(), false);
        I x;
        for (auto& q : p) {
            x.push_back(q.first);
            x.push_back(q.second);
        }
        f.record(File::raw(x));
    }
    if (m.dim == 3) {  // interface panels
        std::vector<I> none;
        f.count(0, true);
        f.lines(none);
    }
    if (s.noZones) return f.s;
    f.count(s.zones, false);
    std::string z, names, families;
    for (int k = 0; k < s.zones; ++k) {
        I x;
        for (std::size_t t = 0; t < byType.size(); ++t) x.push_back(s.split[t][k] + 1);
        if (m.dim == 3) x.push_back(k ? bf.size() + 1 : 1);
        z += File::raw(x);
        if (m.dim == 3) z += padded(zoneName(k));
        names += padded(zoneName(k));
        families += padded("family");
    }
    f.record(z);
    if (m.dim == 2) f.record(names);
    if (m.dim == 3 && s.version > 4.99) f.record(families);
    if (m.dim == 3 && ((s.version > 6.49 && s.version < 6.99) || s.version > 7.49))
        for (int i = 0; i < 10; ++i) f.record(std::string(4 * i, 'q'));
    if (s.quadratic) {
        f.record(File::raw(I{2}));
        for (auto& x : extra) {
            f.count(x.empty() ? 0 : 6, true);
            f.lines(x);
        }
        f.count(3, true);  // boundary faces
        f.record(std::string(12 * bf.size(), 'b'));
    }
    return f.s;
}
template <std::size_t D>
void import(const mg::Mesh& m, const Style& s, const std::vector<std::vector<int>>& byType, bool ignore, bool solver) {
    std::string in = mc::str("g", getpid(), ".hyb");
    {
        std::ofstream f(in, std::ios::binary);
        f << centaurFile(m, s, byType);
    }
    mc::step();
    Preprocessor::CentaurReader reader(in);
    unlink(in.c_str());
    if (reader.getDimension() != D) mc::fail("dimension ", reader.getDimension(), " instead of ", D);
    std::vector<std::string> zones(m.elems.size());
    for (std::size_t t = 0; t < byType.size(); ++t)
        for (std::size_t i = 0; i < byType[t].size(); ++i)
            for (int k = 0; k < s.zones; ++k)
                if (s.noZones || s.split[t][k] <= i) zones[byType[t][i]] = s.noZones ? "default" : zoneName(k);
    if (s.quadratic) {
        // the ten nodes of every tetrahedron, in lexicographical order of the barycentric lattice
        static const int a[10] = {0, 0, 1, 0, 1, 2, 0, 1, 2, 3}, b[10] = {0, 1, 1, 2, 2, 2, 3, 3, 3, 3};
        auto& els = reader.getElements();
        auto& cs = reader.getCoordinates();
        std::size_t n = 0;
        for (auto& es : byType)
            for (int e : es) {
                if (n >= els.size() || els[n].coordinateIds.size() != 10) mc::fail("element ", n, " does not have ten nodes");
                if (els[n].zoneName != zones[e]) mc::fail("element ", n, " is in zone '", els[n].zoneName, "' instead of '", zones[e], "'");
                for (int i = 0; i < 10; ++i) {
                    auto x = m.phi(m.elems[e].v[a[i]]), y = m.phi(m.elems[e].v[b[i]]);
                    std::size_t c = els[n].coordinateIds[i];
                    if (c >= cs.size()) mc::fail("element ", n, " refers to a node that is not there");
                    for (std::size_t d = 0; d < D; ++d)
                        if (cs[c].coordinate[d] != (i == 0 || i == 2 || i == 5 || i == 9 ? x[d] : (x[d] + y[d]) / 2)) mc::fail("node ", i, " of quadratic element ", n, " is at the wrong place");
                }
                ++n;
            }
        if (n != els.size()) mc::fail(els.size(), " elements instead of ", n);
        return;
    }
    Preprocessor::Mesh<D> mesh = Preprocessor::fromMeshSource<D>(reader, ignore);
    mg::Mesh want = m;
    if (ignore) want.period = mg::L{{0, 0, 0}};
    compare<D>(want, mesh, zones, true, solver ? 2 : 1, solver, false);
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    mc::S().keyDetail = true;
    std::vector<mg::Mesh> cat;
    using mg::pt;
    auto add = [&](mg::Mesh m) {
        m.derive();
        cat.push_back(m);
    };
    for (auto& m : mg::catalog(mc::thorough()))
        if (m.dim > 1) add(m);
    add(mg::grid(2, pt(3, 3, 1), "b", pt(1, 1), 0));
    add(mg::grid(2, pt(2, 2, 1), "b", pt(1, 1), 0));
    add(mg::grid(2, pt(3, 2, 1), "t", pt(1, 0), 1));
    add(mg::grid(3, pt(1, 1, 1), "y", pt(0), 1));
    add(mg::grid(3, pt(3, 3, 1), "b", pt(1, 1, 0), 1));
    add(mg::grid(3, pt(2, 2, 2), "b", pt(1, 1, 1), 0));
    // one box of every kind side by side: all the element types of a hybrid file
    add(mg::hybrid3(0));
    return mc::run([&] {
        const mg::Mesh& m = cat[mc::choose(cat.size(), "mesh")];
        mc::note(m.name);
        std::vector<std::vector<int>> byType(m.dim == 2 ? 2 : 4);
        static const int type[] = {0, 0, 1, 3, 0, 2, 1};
        bool tets = true;
        for (std::size_t e = 0; e < m.elems.size(); ++e) {
            byType[type[m.elems[e].shape]].push_back(e);
            tets = tets && m.elems[e].shape == mg::TET;
        }
        Style s;
        int format = mc::choose(m.dim == 2 ? 2 : tets ? 6 : 4, "version");
        if (m.dim == 2) {
            s.version = format ? 5.0f : 4.5f;
            s.type = -1;
        } else {
            static const float v[] = {4.0f, 6.0f, 6.0f, 6.8f, 7.2f, 7.8f};
            s.version = v[format];
            s.quadratic = format >= 4;
            s.type = format == 0 ? 4 : format == 1 ? 4 : 5;
            if (s.quadratic) s.type = 4 + mc::choose(2, "multiple lines");
        }
        std::size_t longest = 0;
        for (auto& e : m.elems) longest = std::max(longest, e.v.size());
        if (s.type == 5) {
            static const int ls[] = {1, 2, 3, 5, 1000};
            s.line = ls[mc::choose(5, "entries per line")];
        }
        s.nodes = mc::choose(4, "node order");
        s.elems = mc::choose(4, "element order");
        for (auto& t : byType) arrange(t, s.elems);
        if (m.dim == 2 && format == 0) s.noZones = mc::choose(2, "without zones");
        bool per = m.period != mg::L{{0, 0, 0}}, self = false, ignore = false;
        for (int d = 0; d < m.dim; ++d)
            if (m.period[d] && m.period[d] < 6) self = true;
        if (per) {
            s.periodic = mc::choose(32, "periodic");
            ignore = mc::choose(2, "ignore periodicity");
        }
        s.zones = s.noZones ? 1 : 1 + mc::choose(3, "zones-1");
        int used = (s.nodes != 0) + (s.elems != 0) + (s.periodic != 0) + (s.line > 2) + ignore;
        if (used > mc::tier(2, 3)) throw mc::Prune();
        // every way in which the elements of each type can be divided over the zones
        bool all = used <= mc::tier(0, 1);
        for (auto& t : byType) {
            std::vector<std::uint32_t> first{0};
            for (int k = 1; k < s.zones; ++k) {
                std::size_t room = t.size() - first.back() + 1;
                if (all && t.size() <= mc::tier(6, 9))
                    first.push_back(first.back() + mc::choose(room, "zone start"));
                else
                    first.push_back(first.back() + room / 2);
            }
            s.split.push_back(first);
        }
        mc::note(mc::str("version ", s.version, " type ", s.type, " line ", s.line, " nodes ", s.nodes, " elements ", s.elems, " zones ", s.zones, s.noZones ? " not listed" : "", " periodic ", s.periodic, " ignore ", ignore));
        bool solver = !self && used == 0 && s.zones == 1 && format == 0;
        m.dim == 2 ? import<2>(m, s, byType, ignore, solver) : import<3>(m, s, byType, ignore, solver);
        std::string id = mc::str(m.name, s.version, s.type, s.line, s.nodes, s.elems, s.zones, s.noZones, s.periodic, ignore);
        for (auto& x : s.split)
            for (auto i : x) id += mc::str(",", i);
        mc::state(id);
    });
}
