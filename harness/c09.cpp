// C09: importing a foreign mesh file preserves the mesh it describes.
#include "pre.h"
#include "prefile.h"
#include "preread.h"
#include "catalog.h"
#include "gmsh.h"
#include "hpgem.h"
#include "MeshFactory.h"
#include "importcmp.h"
using namespace hpgem;

// vertex order of the Gmsh documentation in terms of the vertices of our table
static std::vector<int> gmshOrder(int shape) {
    switch (shape) {
        case mg::LINE: return {0, 1};
        case mg::TRI: return {0, 1, 2};
        case mg::SQUARE: return {0, 1, 3, 2};
        case mg::TET: return {0, 1, 2, 3};
        case mg::CUBE: return {0, 1, 3, 2, 4, 5, 7, 6};
        case mg::PRISM: return {0, 1, 2, 3, 4, 5};
        default: return {1, 2, 4, 3, 0};
    }
}
static int gmshType(int shape) {
    static const int t[] = {1, 2, 3, 4, 5, 7, 6};
    return t[shape];
}
struct Style {
    int order = 0, tags = 0, elemOrder = 0, lower = 0, number = 0, ntags = 0, zones = 0, eol = 0, periodic = 0, unused = 0;
};
static long nodeTag(int style, int i, int n) {
    switch (style) {
        case 0: return i + 1;
        case 1: return n - i;
        case 2: return 7 + 3 * i;
        default: return 1 + (i * 5 + 2) % 97;  // neither dense nor ordered; different for all i below 97
    }
}
static std::string zoneOf(const mg::Mesh& m, const Style& s, int e) {
    int z = m.elems[e].zone;
    switch (s.zones) {
        case 0: return s.ntags == 0 ? "Main" : mc::str(z + 3);
        case 1: return mc::str("part no ", z + 1);  // names with spaces
        default: return mc::str(z + 11);
    }
}
static std::string gmshFile(const mg::Mesh& m, const Style& s) {
    const char* nl = s.eol ? "\r\n" : "\n";
    std::ostringstream o;
    o.precision(17);
    o << "$MeshFormat" << nl << "2.2 0 8" << nl << "$EndMeshFormat" << nl;
    if (s.unused == 1) o << "$Comments" << nl << "not a mesh" << nl << "$EndComments" << nl;
    if (s.zones == 1) {
        o << "$PhysicalNames" << nl << m.zones.size() + 2 << nl;
        // names of other dimensions may use the same numbers
        o << m.dim - 1 << " 3 \"side\"" << nl;
        for (std::size_t z = m.zones.size(); z-- > 0;) o << m.dim << " " << z + 3 << " \"part no " << z + 1 << "\"" << nl;
        o << "0 4 \"corner\"" << nl << "$EndPhysicalNames" << nl;
    }
    std::vector<mg::L> pts;
    for (auto& e : m.elems)
        for (auto& v : e.v)
            if (std::find(pts.begin(), pts.end(), v) == pts.end()) pts.push_back(v);
    int n = pts.size() + 1;  // the last number is that of the unused node
    std::map<mg::L, long> tag;
    for (std::size_t i = 0; i < pts.size(); ++i) tag[pts[i]] = nodeTag(s.tags, i, n);
    std::vector<std::string> lines;
    for (auto& p : pts) {
        auto x = m.phi(p);
        std::ostringstream l;
        l.precision(17);
        l << tag[p] << " " << x[0] << " " << x[1] << " " << x[2];
        lines.push_back(l.str());
    }
    // Gmsh also lists the nodes of construction points that belong to no element. Tags may only have gaps in styles 2 and 3
    if (s.unused == 1) lines.insert(lines.begin() + lines.size() / 2, mc::str(nodeTag(s.tags, n - 1, n), " 0.5 0.25 0"));
    arrange(lines, s.order);
    o << "$Nodes" << nl << lines.size() << nl;
    for (auto& l : lines) o << l << nl;
    o << "$EndNodes" << nl;
    struct E {
        int shape, zone, of;
        std::vector<mg::L> v;
    };
    std::vector<E> el, low;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        E x{m.elems[e].shape, m.elems[e].zone, (int)e, {}};
        for (int i : gmshOrder(x.shape)) x.v.push_back(m.elems[e].v[i]);
        el.push_back(x);
    }
    arrange(el, s.elemOrder);
    if (s.lower) {
        for (auto& f : m.faces) {
            if (f.size() != 1) continue;
            const auto& loc = mg::table(m.elems[f[0].first].shape).faces[f[0].second];
            E x{loc.size() == 2 ? mg::LINE : loc.size() == 3 ? mg::TRI : mg::SQUARE, 0, -1, {}};
            for (int i : gmshOrder(x.shape)) x.v.push_back(m.elems[f[0].first].v[loc[i]]);
            low.push_back(x);
        }
        low.push_back(E{-1, 1, -1, {pts.back()}});
        if (s.lower == 1) el.insert(el.begin(), low.begin(), low.end());
        if (s.lower == 2) el.insert(el.end(), low.begin(), low.end());
        if (s.lower == 3) {
            std::vector<E> r;
            for (std::size_t i = 0; i < std::max(el.size(), low.size()); ++i) {
                if (i < low.size()) r.push_back(low[i]);
                if (i < el.size()) r.push_back(el[i]);
            }
            el = r;
        }
    }
    auto number = [&](std::size_t i) { return s.number == 0 ? i + 1 : s.number == 1 ? el.size() - i : 5 + 4 * i; };
    o << "$Elements" << nl << el.size() << nl;
    for (std::size_t i = 0; i < el.size(); ++i) {
        o << number(i) << " " << (el[i].shape < 0 ? 15 : gmshType(el[i].shape)) << " ";
        // physical entity, elementary entity, number of partitions, partitions
        if (s.ntags == 0 && s.zones != 1) o << 0;
        if (s.ntags == 1 || (s.ntags == 0 && s.zones == 1)) o << "2 " << el[i].zone + 3 << " 1";
        if (s.ntags == 2) o << "4 " << el[i].zone + 3 << " 8 1 2";
        if (s.ntags == 3) o << "1 " << el[i].zone + 3;
        for (auto& v : el[i].v) o << " " << tag[v];
        o << (i % 2 ? " " : "") << nl;
    }
    o << "$EndElements" << nl;
    if (m.period != mg::L{{0, 0, 0}}) {
        // pairs of nodes (node, its counterpart) per periodic entity
        std::vector<std::vector<std::pair<long, long>>> ents;
        for (int d = 0; d < m.dim; ++d) {
            if (!m.period[d]) continue;
            std::vector<std::pair<long, long>> p;
            for (auto& a : pts) {
                mg::L b = a;
                b[d] += m.period[d];
                if (tag.count(b)) p.push_back(s.periodic & 1 ? std::make_pair(tag[a], tag[b]) : std::make_pair(tag[b], tag[a]));
            }
            // Gmsh lists the corners and curves of a periodic surface as well
            if (s.periodic & 2) {
                ents.push_back({p.front()});
                ents.push_back({p.back()});
            }
            ents.push_back(p);
        }
        if (s.periodic & 4) std::reverse(ents.begin(), ents.end());
        o << "$Periodic" << nl << ents.size() << nl;
        for (std::size_t k = 0; k < ents.size(); ++k) {
            o << (ents[k].size() == 1 ? 0 : m.dim - 1) << " " << k + 4 << " " << k + 1 << nl << ents[k].size() << nl;
            for (auto& q : ents[k]) o << q.first << " " << q.second << nl;
        }
        o << "$EndPeriodic" << nl;
    }
    if (s.zones == 2) {
        o << "$ElementData" << nl << 1 << nl << "\"material of parts\"" << nl << 1 << nl << "0.5" << nl << 4 << nl << 0 << nl << 1 << nl << m.elems.size() << nl << 0 << nl;
        for (std::size_t i = el.size(); i-- > 0;)
            if (el[i].of >= 0) o << number(i) << " " << el[i].zone + 11 << nl;
        o << "$EndElementData" << nl;
    }
    return o.str();
}
template <std::size_t D>
void importGmsh(const mg::Mesh& m, const Style& s, bool ignore, bool solver) {
    std::string in = mc::str("g", getpid(), ".msh");
    {
        std::ofstream f(in, std::ios::binary);
        f << gmshFile(m, s);
    }
    mc::step();
    Preprocessor::GmshReader reader(in);
    unlink(in.c_str());
    if (reader.getDimension() != D) mc::fail("dimension ", reader.getDimension(), " instead of ", D);
    Preprocessor::Mesh<D> mesh = Preprocessor::fromMeshSource<D>(reader, ignore);
    mg::Mesh want = m;
    if (ignore) want.period = mg::L{{0, 0, 0}};
    std::vector<std::string> z;
    for (std::size_t e = 0; e < m.elems.size(); ++e) z.push_back(zoneOf(m, s, e));
    compare<D>(want, mesh, z, true, solver ? 2 : 1, solver, s.unused);
}
template <std::size_t D>
void importNative(const mg::Mesh& m, int order, int again) {
    int P = 1 + mc::choose(3, "processes-1");
    std::vector<int> part(m.elems.size());
    for (std::size_t e = 0; e < part.size(); ++e) part[e] = (e * 7 / 3) % P;
    std::string in = mc::str("g", getpid(), ".hpgem");
    m.write(in, part, P, order, 1);
    Preprocessor::HpgemReader reader(in);
    unlink(in.c_str());
    if (reader.getDimension() != D) mc::fail("wrong dimension");
    auto bindings = [&] {
        if (reader.getTargetProcessorCount() != (std::size_t)P) mc::fail("wrong number of processes");
        std::size_t e = 0;
        for (auto b : reader.getProcessorBindings()) {
            if (e >= part.size() || b != (std::size_t)part[e]) mc::fail("element ", e, " is bound to process ", b);
            ++e;
        }
        if (e != part.size()) mc::fail(e, " bindings instead of ", part.size());
    };
    if (again & 1) bindings();
    Preprocessor::Mesh<D> mesh = Preprocessor::readFile<D>(reader);
    if (again & 2) bindings();
    compare<D>(m, mesh, std::vector<std::string>(m.elems.size(), "Main"), false, 1, false, false);
    if (again & 4) {
        Preprocessor::Mesh<D> second = Preprocessor::readFile<D>(reader);
        compare<D>(m, second, std::vector<std::string>(m.elems.size(), "Main"), false, 1, false, false);
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    mc::S().keyDetail = true;
    std::vector<mg::Mesh> cat;
    using mg::pt;
    auto add = [&](mg::Mesh m) {
        mg::zonesByParity(m);
        m.derive();
        cat.push_back(m);
    };
    for (auto& m : mg::catalog(mc::thorough())) add(m);
    add(mg::grid(2, pt(3, 3, 1), "b", pt(1, 1), 0));
    add(mg::grid(2, pt(2, 2, 1), "b", pt(1, 1), 0));
    add(mg::grid(2, pt(3, 2, 1), "t", pt(1, 0), 1));
    add(mg::grid(3, pt(1, 1, 1), "y", pt(0), 1));
    add(mg::grid(3, pt(3, 3, 1), "b", pt(1, 1, 0), 1));
    add(mg::grid(3, pt(2, 2, 2), "b", pt(1, 1, 1), 0));
    if (mc::thorough()) add(mg::grid(3, pt(3, 3, 3), "b", pt(1, 1, 1), 0));
    return mc::run([&] {
        int kind = mc::choose(2, "format");
        const mg::Mesh& m = cat[mc::choose(cat.size(), "mesh")];
        mc::note(m.name);
        if (kind == 1) {
            int order = mc::choose(2, "entity order"), again = mc::choose(8, "reads");
            bool self = false;
            for (int d = 0; d < m.dim; ++d)
                if (m.period[d] && m.period[d] < 6) self = true;
            if (self) throw mc::Prune();  // see the findings of C07
            m.dim == 1 ? importNative<1>(m, order, again) : m.dim == 2 ? importNative<2>(m, order, again) : importNative<3>(m, order, again);
            mc::state(mc::str("native ", m.name, order, again));
            return;
        }
        if (m.dim == 1) throw mc::Prune();
        bool per = m.period != mg::L{{0, 0, 0}}, self = false;
        for (int d = 0; d < m.dim; ++d)
            if (m.period[d] && m.period[d] < 6) self = true;
        Style s;
        s.tags = mc::choose(4, "node tags");
        s.order = mc::choose(4, "node order");
        s.elemOrder = mc::choose(mc::tier(3, 4), "element order");
        s.lower = mc::choose(4, "lower dimensional elements");
        s.number = mc::choose(3, "element numbers");
        s.zones = mc::choose(3, "zones");
        s.ntags = mc::choose(4, "number of tags");
        s.eol = mc::choose(2, "line ends");
        s.unused = mc::choose(2, "unused node");
        bool ignore = false;
        if (per) {
            s.periodic = mc::choose(8, "periodic");
            ignore = mc::choose(2, "ignore periodicity");
        }
        // not all combinations: the parts of the file are independent of each other as long as its numbers mean the same,
        // so every pair of groups is combined completely: (node tags, node order, periodic) and (elements, zones, layout)
        int a = (s.tags != 0) + (s.order != 0) + (s.periodic != 0), b = (s.elemOrder != 0) + (s.lower != 0) + (s.number != 0), c = (s.zones != 0) + (s.ntags != 0) + (s.eol != 0) + (s.unused != 0);
        int groups = (a > 1) + (b > 1) + (c > 1);
        if (mc::thorough() ? groups > 2 : groups > 1) throw mc::Prune();
        if (!mc::thorough() && a && b && c && a + b + c > 4) throw mc::Prune();
        mc::note(mc::str("tags ", s.tags, " order ", s.order, " elements ", s.elemOrder, " lower ", s.lower, " numbers ", s.number, " zones ", s.zones, " ntags ", s.ntags, " eol ", s.eol, " unused ", s.unused, " periodic ", s.periodic, " ignore ", ignore));
        bool solver = !self && a + b + c <= 1;
        m.dim == 2 ? importGmsh<2>(m, s, ignore, solver) : importGmsh<3>(m, s, ignore, solver);
        mc::state(mc::str(m.name, s.tags, s.order, s.elemOrder, s.lower, s.number, s.zones, s.ntags, s.eol, s.unused, s.periodic, ignore));
    });
}
