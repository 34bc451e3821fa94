// Independent reader of the native mesh file (version 2), and the comparison of its contents with a mesh description.
#ifndef VERIF_PREFILE_H
#define VERIF_PREFILE_H
#include "meshgen.h"
namespace pf {
struct File {
    int dim = 0, P = 0;
    std::vector<long> nodeCount;
    std::vector<std::string> zones;
    struct Node {
        std::vector<long> parts;
        std::vector<mg::X> coords;
    };
    struct Elem {
        std::vector<std::pair<long, long>> at;
        long part, zone;
        std::vector<long> shadows;
    };
    struct Ent {
        std::vector<std::pair<int, int>> at;
        std::vector<long> parts;
    };
    std::vector<Node> nodes;
    std::vector<Elem> elems;
    std::vector<std::vector<Ent>> ents;  // codimension 1, 2, ...
};
inline File parse(const std::string& fn) {
    std::ifstream f(fn);
    std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()), tok;
    std::vector<std::string> lines;
    {
        std::stringstream ss(text);
        while (std::getline(ss, tok)) lines.push_back(tok);
    }
    std::size_t at = 0;
    std::stringstream cur;
    auto line = [&](const char* what) {
        if (at >= lines.size()) mc::fail("the file ends before ", what);
        cur.clear();
        cur.str(lines[at++]);
    };
    auto num = [&](const char* what) {
        std::string t;
        if (!(cur >> t)) mc::fail("the file misses ", what, " in line ", at);
        char* e;
        long v = std::strtol(t.c_str(), &e, 10);
        if (*e || v < 0) mc::fail("the file has '", t, "' as ", what, " in line ", at);
        return v;
    };
    auto done = [&](const char* what) {
        std::string t;
        if (cur >> t) mc::fail("the file has something after ", what, " in line ", at, ": ", t);
    };
    auto title = [&](const std::string& s) {
        line(s.c_str());
        std::string t;
        cur >> t;
        if (t != s) mc::fail("the file has '", t, "' instead of the section ", s);
        done(s.c_str());
    };
    File r;
    line("its type");
    std::string t;
    cur >> t;
    if (t != "mesh" || num("version") != 2) mc::fail("not a mesh file");
    line("the counts");
    long nn = num("number of nodes"), ne = num("number of elements");
    r.dim = num("dimension");
    std::vector<long> ec;
    for (int d = r.dim - 1; d > 0; --d) ec.push_back(num("number of entities"));
    done("the counts");
    line("the partitions");
    r.P = num("number of partitions");
    for (int p = 0; p < r.P; ++p) r.nodeCount.push_back(num("nodes per partition"));
    done("the partitions");
    title("zones");
    line("number of zones");
    long nz = num("number of zones");
    for (long i = 0; i < nz; ++i) {
        if (at >= lines.size()) mc::fail("the file ends in the zones");
        r.zones.push_back(lines[at++]);
    }
    title("nodes");
    for (long n = 0; n < nn; ++n) {
        File::Node x;
        line("a node");
        for (long k = num("number of partitions of a node"); k > 0; --k) x.parts.push_back(num("partition"));
        done("the partitions of a node");
        line("the coordinates of a node");
        for (long k = num("number of coordinates"); k > 0; --k) {
            mg::X c{{0, 0, 0}};
            for (int d = 0; d < r.dim; ++d) {
                std::string s;
                if (!(cur >> s)) mc::fail("the file misses a coordinate");
                char* e;
                c[d] = std::strtod(s.c_str(), &e);
                if (*e) mc::fail("the file has '", s, "' as coordinate");
            }
            x.coords.push_back(c);
        }
        done("the coordinates of a node");
        r.nodes.push_back(x);
    }
    title("elements");
    for (long n = 0; n < ne; ++n) {
        File::Elem x;
        line("an element");
        for (long k = num("number of vertices"); k > 0; --k) {
            long a = num("node"), b = num("coordinate");
            if (a >= nn || b >= (long)r.nodes[a].coords.size()) mc::fail("element ", n, " refers to a coordinate that is not listed");
            x.at.push_back({a, b});
        }
        x.part = num("partition");
        for (long k = num("number of shadow partitions"); k > 0; --k) x.shadows.push_back(num("shadow partition"));
        done("an element");
        line("a zone");
        x.zone = num("zone");
        if (x.zone >= nz) mc::fail("element ", n, " is in a zone that is not listed");
        done("a zone");
        r.elems.push_back(x);
    }
    for (std::size_t c = 0; c < ec.size(); ++c) {
        title(mc::str("codim", c + 1));
        r.ents.emplace_back();
        for (long n = 0; n < ec[c]; ++n) {
            File::Ent x;
            line("an entity");
            for (long k = num("number of elements"); k > 0; --k) {
                long a = num("element"), b = num("number");
                if (a >= ne) mc::fail("an entity refers to an element that is not listed");
                x.at.push_back({(int)a, (int)b});
            }
            for (long k = num("number of partitions"); k > 0; --k) x.parts.push_back(num("partition"));
            done("an entity");
            r.ents.back().push_back(x);
        }
    }
    if (at != lines.size()) mc::fail("the file has more lines than it announces");
    return r;
}
template <class T>
std::set<T> unique(const std::vector<T>& v, const char* what) {
    std::set<T> s(v.begin(), v.end());
    if (s.size() != v.size()) mc::fail(what, " listed twice");
    return s;
}
// file elements -> mesh elements, by their vertices (all coordinates bit for bit)
inline std::vector<int> match(const File& f, const mg::Mesh& m) {
    if (f.elems.size() != m.elems.size()) mc::fail("the file has ", f.elems.size(), " elements instead of ", m.elems.size());
    std::vector<int> r;
    std::set<int> used;
    for (std::size_t e = 0; e < f.elems.size(); ++e) {
        std::vector<mg::X> x;
        for (auto& a : f.elems[e].at) x.push_back(f.nodes[a.first].coords[a.second]);
        int hit = -1;
        for (std::size_t k = 0; k < m.elems.size(); ++k) {
            auto c = m.coordsOf(k);
            if (c.size() != x.size()) continue;
            bool same = true;
            for (std::size_t i = 0; i < c.size(); ++i)
                for (int d = 0; d < m.dim; ++d)
                    if (std::memcmp(&c[i][d], &x[i][d], sizeof(double))) same = false;
            if (same && !used.count(k)) {
                hit = k;
                break;
            }
        }
        if (hit < 0) mc::fail("element ", e, " of the file is not an element of the mesh, or is listed twice");
        used.insert(hit);
        r.push_back(hit);
    }
    return r;
}
inline void check(const File& f, const mg::Mesh& m, const std::vector<int>& part, int P) {
    if (f.dim != m.dim || f.P != P) mc::fail("dimension or number of partitions are wrong in the file");
    auto to = match(f, m);
    auto reach = [&](int e) { return m.reach(e, part); };
    std::vector<std::set<int>> reached;
    for (std::size_t e = 0; e < m.elems.size(); ++e) reached.push_back(reach(e));
    for (std::size_t e = 0; e < f.elems.size(); ++e) {
        auto& x = f.elems[e];
        int k = to[e];
        if (x.part != part[k]) mc::fail("element ", k, " is in partition ", x.part, " of the file instead of ", part[k]);
        if (f.zones[x.zone] != m.zones[m.elems[k].zone]) mc::fail("element ", k, " is in zone ", f.zones[x.zone], " of the file");
        auto s = unique(x.shadows, "a shadow partition is");
        std::set<long> want(reached[k].begin(), reached[k].end());
        want.erase(part[k]);
        if (s != want) mc::fail("element ", k, " has the wrong shadow partitions in the file");
        mc::step();
    }
    typedef std::set<std::pair<int, int>> Block;
    auto compare = [&](const std::vector<std::pair<Block, std::set<long>>>& got, const std::vector<Block>& want, const std::string& what) {
        if (got.size() != want.size()) mc::fail("the file has ", got.size(), " ", what, " instead of ", want.size());
        std::set<Block> left(want.begin(), want.end());
        for (auto& g : got) {
            if (!left.erase(g.first)) mc::fail("the file identifies the ", what, " of the elements wrongly");
            std::set<long> p;
            for (auto& s : g.first) p.insert(reached[s.first].begin(), reached[s.first].end());
            if (p != g.second) mc::fail("the file lists the wrong partitions for one of the ", what);
            mc::step();
        }
    };
    std::vector<Block> blocks(f.nodes.size());
    std::vector<std::set<long>> used(f.nodes.size());
    for (std::size_t e = 0; e < f.elems.size(); ++e)
        for (std::size_t i = 0; i < f.elems[e].at.size(); ++i) {
            blocks[f.elems[e].at[i].first].insert({to[e], (int)i});
            used[f.elems[e].at[i].first].insert(f.elems[e].at[i].second);
        }
    std::vector<std::pair<Block, std::set<long>>> got;
    std::vector<long> count(P, 0);
    for (std::size_t n = 0; n < f.nodes.size(); ++n) {
        got.push_back({blocks[n], unique(f.nodes[n].parts, "a partition of a node is")});
        for (long p : f.nodes[n].parts) {
            if (p >= P) mc::fail("a node is in a partition that does not exist");
            ++count[p];
        }
        if (used[n].size() != f.nodes[n].coords.size()) mc::fail("a node lists coordinates that no element uses");
        std::set<mg::X> d(f.nodes[n].coords.begin(), f.nodes[n].coords.end());
        if (d.size() != f.nodes[n].coords.size()) mc::fail("a node lists the same coordinate twice");
    }
    if (count != f.nodeCount) mc::fail("the announced numbers of nodes per partition are wrong");
    std::vector<Block> want;
    for (auto& n : m.nodes) want.push_back(Block(n.at.begin(), n.at.end()));
    compare(got, want, "nodes");
    auto ents = [&](int c, const std::vector<mg::Mesh::Inc>& list, const char* what) {
        std::vector<std::pair<Block, std::set<long>>> g;
        std::vector<Block> w;
        for (auto& x : f.ents[c]) {
            Block b;
            for (auto& s : x.at)
                if (!b.insert({to[s.first], s.second}).second) mc::fail("one of the ", what, " lists an element twice at the same place");
            g.push_back({b, unique(x.parts, "a partition of an entity is")});
        }
        for (auto& i : list) w.push_back(Block(i.begin(), i.end()));
        compare(g, w, what);
    };
    if (m.dim > 1) ents(0, m.faces, "faces");
    if (m.dim > 2) ents(1, m.edges, "edges");
}
}  // namespace pf
#endif
