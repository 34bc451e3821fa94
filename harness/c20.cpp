// C20: the files of the visualisation writers, read back by an independent reader.
#include "dist.h"
#include "catalog.h"
#include "shapes.h"
#include "mpi.h"
#include "Output/base64.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "Base/CommandLineOptions.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include <fstream>
using namespace hpgem;
using sh::V;
// ---------------------------------------------------------------- decoding
static std::string decode(const std::string& s) {  // concatenated base64 blocks are not allowed in here: one block
    std::string out;
    mc::require(s.size() % 4 == 0, "base64 block of ", s.size(), " characters");
    for (std::size_t i = 0; i < s.size(); i += 4) {
        unsigned v = 0;
        int pad = 0;
        for (int j = 0; j < 4; ++j) {
            char c = s[i + j];
            int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
            if (c == '=') {
                mc::require(i + 4 == s.size() && j >= 2, "padding inside a base64 block");
                ++pad;
                d = 0;
            } else
                mc::require(!pad && d >= 0, "character '", c, "' in base64 data");
            v = v << 6 | d;
        }
        char b[3] = {char(v >> 16), char(v >> 8), char(v)};
        mc::require(pad < 2 ? pad < 1 || b[2] == 0 : b[1] == 0 && b[2] == 0, "unused bits of base64 data are set");
        out.append(b, 3 - pad);
    }
    return out;
}
static void base64Case() {
    int kind = mc::choose(3, "kind");
    std::string in;
    if (kind == 0) {  // every string of up to two bytes
        int n = mc::choose(3, "length");
        if (n == 0) in = "";
        if (n > 0) in.push_back(char(mc::choose(16, "hi") * 16));
        int rows = n ? 16 : 1;
        for (int k = 0; k < rows; ++k)
            for (int l = 0; l < (n == 2 ? 256 : 1); ++l) {
                std::string t = in;
                if (n > 0) t[0] = char((unsigned char)in[0] + k);
                if (n == 2) t.push_back(char(l));
                std::string e = Output::Detail::toBase64(t.size() ? &t[0] : nullptr, t.size());
                mc::require(e.size() == (t.size() + 2) / 3 * 4, "length of the encoding of ", t.size(), " bytes is ", e.size());
                mc::require(decode(e) == t, "bytes are not returned by decoding ", e);
                mc::step();
            }
    } else if (kind == 1) {  // three and four bytes over the values at which a bit group changes
        static const unsigned char a[] = {0, 1, 2, 3, 4, 15, 16, 63, 64, 127, 128, 192, 240, 252, 254, 255};
        int x = mc::choose(16, "first"), n = 3 + mc::choose(2, "length");
        for (int y = 0; y < 16; ++y)
            for (int z = 0; z < 16; ++z)
                for (int w = 0; w < (n == 4 ? 16 : 1); ++w) {
                    unsigned char t[4] = {a[x], a[y], a[z], a[w]};
                    std::string e = Output::Detail::toBase64(t, n);
                    mc::require(decode(e) == std::string((char*)t, n), "bytes are not returned by decoding ", e);
                    mc::step();
                }
    } else {  // all lengths
        int n = mc::choose(mc::tier(70, 300), "length"), p = mc::choose(3, "pattern");
        std::string t;
        for (int i = 0; i < n; ++i) t.push_back(p == 0 ? char(255) : p == 1 ? char(37 * i + 11) : char(i % 3 == 2 ? 0x80 : 0x01));
        std::string e = Output::Detail::toBase64(n ? &t[0] : nullptr, n);
        mc::require(e.size() == (t.size() + 2) / 3 * 4 && decode(e) == t, n, " bytes are not returned by decoding");
        mc::step();
    }
    mc::state(mc::joinChoices());
}
// ---------------------------------------------------------------- xml
struct Tag {
    std::string name, text;
    std::map<std::string, std::string> attr;
    std::vector<Tag> sub;
    std::vector<const Tag*> all(const std::string& n) const {
        std::vector<const Tag*> r;
        for (auto& s : sub)
            if (s.name == n) r.push_back(&s);
        return r;
    }
    const Tag& one(const std::string& n) const {
        auto r = all(n);
        mc::require(r.size() == 1, "element <", name, "> has ", r.size(), " elements <", n, ">");
        return *r[0];
    }
    std::string at(const std::string& n, const std::string& def = "?") const { return attr.count(n) ? attr.at(n) : def; }
};
static Tag parseXml(const std::string& file) {
    std::ifstream in(file);
    mc::require(in.good(), "file ", file, " was not written");
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    std::size_t p = 0;
    Tag root;
    std::vector<Tag*> stack{&root};
    auto ws = [&] {
        while (p < s.size() && std::isspace((unsigned char)s[p])) ++p;
    };
    ws();
    mc::require(s.compare(p, 5, "<?xml") == 0, file, ": no xml declaration");
    p = s.find("?>", p) + 2;
    while (p < s.size()) {
        if (s[p] != '<') {
            std::size_t q = std::min(s.find('<', p), s.size());
            stack.back()->text += s.substr(p, q - p);
            p = q;
            continue;
        }
        if (s[p + 1] == '/') {
            std::size_t q = s.find('>', p);
            mc::require(q != std::string::npos && stack.size() > 1 && s.substr(p + 2, q - p - 2) == stack.back()->name, file, ": closing tag ", s.substr(p, 20));
            stack.pop_back();
            p = q + 1;
            continue;
        }
        ++p;
        Tag t;
        while (p < s.size() && (std::isalnum((unsigned char)s[p]) || s[p] == '_')) t.name.push_back(s[p++]);
        bool closed = false;
        while (true) {
            ws();
            mc::require(p < s.size(), file, ": ends inside a tag");
            if (s[p] == '/') {
                closed = true;
                ++p;
            } else if (s[p] == '>') {
                ++p;
                break;
            } else {
                std::string k, v;
                while (p < s.size() && s[p] != '=') k.push_back(s[p++]);
                mc::require(p + 1 < s.size() && s[p + 1] == '"', file, ": attribute ", k);
                std::size_t q = s.find('"', p + 2);
                mc::require(q != std::string::npos, file, ": attribute ", k);
                mc::require(t.attr.emplace(k, s.substr(p + 2, q - p - 2)).second, file, ": attribute ", k, " twice");
                p = q + 1;
            }
        }
        stack.back()->sub.push_back(t);
        if (!closed) stack.push_back(&stack.back()->sub.back());
    }
    mc::require(stack.size() == 1, file, ": tag ", stack.back()->name, " is not closed");
    return root;
}
template <typename T>
std::vector<T> array(const Tag& t, const std::string& type) {
    mc::require(t.name == "DataArray" && t.at("type") == type && t.at("format") == "binary", "array ", t.at("Name"), " has type ", t.at("type"), " and format ", t.at("format"));
    std::string b;
    for (char c : t.text)
        if (!std::isspace((unsigned char)c)) b.push_back(c);
    mc::require(b.size() >= 8, "array ", t.at("Name"), " without a header");
    std::string h = decode(b.substr(0, 8));
    mc::require(h.size() == 4, "array ", t.at("Name"), ": header of ", h.size(), " bytes");
    std::uint32_t n;
    std::memcpy(&n, h.data(), 4);
    std::string d = decode(b.substr(8));
    mc::require(d.size() == n, "array ", t.at("Name"), ": the header announces ", n, " bytes, but there are ", d.size());
    mc::require(n % sizeof(T) == 0, "array ", t.at("Name"), ": ", n, " bytes");
    std::vector<T> r(n / sizeof(T));
    if (n) std::memcpy(r.data(), d.data(), n);
    return r;
}
// ---------------------------------------------------------------- what vtk prescribes
static int vtkType(int shape, int order) {
    switch (shape) {
        case mg::LINE: return order == 1 ? 3 : 68;
        case mg::TRI: return order == 1 ? 5 : 69;
        case mg::SQUARE: return order == 1 ? 9 : 70;
        case mg::TET: return order == 1 ? 10 : 71;
        case mg::CUBE: return order == 1 ? 12 : 72;
        case mg::PRISM: return order == 1 ? 13 : -1;
        default: return order == 1 ? 14 : -1;
    }
}
// vtkHigherOrderTriangle::BarycentricIndex
static std::array<int, 3> triIndex(int index, int order) {
    int mx = order, mn = 0;
    std::array<int, 3> b{{0, 0, 0}};
    while (index != 0 && index >= 3 * order) {
        index -= 3 * order;
        mx -= 2;
        mn++;
        order -= 3;
    }
    if (index < 3) {
        b[index] = b[(index + 1) % 3] = mn;
        b[(index + 2) % 3] = mx;
    } else {
        index -= 3;
        int dim = index / (order - 1), offset = index - dim * (order - 1);
        b[(dim + 1) % 3] = mn;
        b[(dim + 2) % 3] = (mx - 1) - offset;
        b[dim] = (mn + 1) + offset;
    }
    return b;
}
// vtkHigherOrderTetra::BarycentricIndex
static std::array<int, 4> tetIndex(int index, int order) {
    static const int vertexMax[4] = {3, 0, 1, 2};
    static const int edgeMin[6][2] = {{1, 2}, {2, 3}, {0, 2}, {0, 1}, {1, 3}, {0, 3}};
    static const int edgeCount[6] = {0, 1, 3, 2, 2, 2};
    static const int vertexMin[4][3] = {{0, 1, 2}, {1, 2, 3}, {0, 2, 3}, {0, 1, 3}};
    static const int linear[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    static const int faceB[4][3] = {{0, 2, 3}, {2, 0, 1}, {2, 1, 3}, {1, 0, 3}};
    static const int faceMin[4] = {1, 3, 0, 2};
    (void)edgeCount;
    int mx = order, mn = 0;
    std::array<int, 4> b{{0, 0, 0, 0}};
    while (index >= 2 * (order * order + 1) && index != 0 && order > 3) {
        index -= 2 * (order * order + 1);
        mx -= 3;
        mn++;
        order -= 4;
    }
    if (index < 4) {
        for (int c = 0; c < 3; ++c) b[vertexMin[index][c]] = mn;
        b[vertexMax[index]] = mx;
    } else if (index - 4 < 6 * (order - 1)) {
        int e = (index - 4) / (order - 1), v = (index - 4) - e * (order - 1);
        for (int c = 0; c < 2; ++c) b[edgeMin[e][c]] = mn;
        b[vertexMax[linear[e][0]]] = mx - 1 - v;
        b[vertexMax[linear[e][1]]] = mn + 1 + v;
    } else {
        int f = (index - 4 - 6 * (order - 1)) / ((order - 2) * (order - 1) / 2);
        int v = (index - 4 - 6 * (order - 1)) - f * ((order - 2) * (order - 1) / 2);
        b[faceMin[f]] = mn;
        std::array<int, 3> pb{{0, 0, 0}};
        if (order > 3) pb = triIndex(v, order - 3);
        for (int c = 0; c < 3; ++c) b[faceB[f][c]] = mn + 1 + pb[c];
    }
    return b;
}
// vtkHigherOrderHexahedron::PointIndexFromIJK as it is for files of version < 2.1
static int hexIndex(int i, int j, int k, int n) {
    bool ib = i == 0 || i == n, jb = j == 0 || j == n, kb = k == 0 || k == n;
    int nb = ib + jb + kb;
    if (nb == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
    int off = 8;
    if (nb == 2) {
        if (!ib) return (i - 1) + (j ? 2 * (n - 1) : 0) + (k ? 4 * (n - 1) : 0) + off;
        if (!jb) return (j - 1) + (i ? n - 1 : 3 * (n - 1)) + (k ? 4 * (n - 1) : 0) + off;
        off += 8 * (n - 1);
        return (k - 1) + (n - 1) * (i ? (j ? 3 : 1) : (j ? 2 : 0)) + off;
    }
    off += 12 * (n - 1);
    int q = (n - 1) * (n - 1);
    if (nb == 1) {
        if (ib) return (j - 1) + (n - 1) * (k - 1) + (i ? q : 0) + off;
        off += 2 * q;
        if (jb) return (i - 1) + (n - 1) * (k - 1) + (j ? q : 0) + off;
        off += 2 * q;
        return (i - 1) + (n - 1) * (j - 1) + (k ? q : 0) + off;
    }
    off += 6 * q;
    return off + (i - 1) + (n - 1) * ((j - 1) + (n - 1) * (k - 1));
}
static int quadIndex(int i, int j, int n) {
    bool ib = i == 0 || i == n, jb = j == 0 || j == n;
    if (ib && jb) return i ? (j ? 2 : 1) : (j ? 3 : 0);
    int off = 4;
    if (jb) return (i - 1) + (j ? 2 * (n - 1) : 0) + off;
    if (ib) return (j - 1) + (i ? n - 1 : 3 * (n - 1)) + off;
    return 4 + 4 * (n - 1) + (i - 1) + (n - 1) * (j - 1);
}
// the points of a cell, as weights of the element's vertices (in hpGEM's order)
static std::vector<V> vtkPoints(int shape, int n) {
    std::vector<V> r;
    auto box = [](const V& x) {  // x in [0,1]
        V w(1u << x.size());
        for (std::size_t v = 0; v < w.size(); ++v) {
            w[v] = 1;
            for (std::size_t d = 0; d < x.size(); ++d) w[v] *= v >> d & 1 ? x[d] : 1 - x[d];
        }
        return w;
    };
    double h = 1. / n;
    switch (shape) {
        case mg::LINE:
            r.resize(n + 1);
            for (int i = 0; i <= n; ++i) r[i == 0 ? 0 : i == n ? 1 : i + 1] = box({i * h});
            break;
        case mg::TRI:
            for (int i = 0; i < (n + 1) * (n + 2) / 2; ++i) {
                auto b = triIndex(i, n);
                r.push_back({b[2] * h, b[0] * h, b[1] * h});
            }
            break;
        case mg::TET:
            for (int i = 0; i < (n + 1) * (n + 2) * (n + 3) / 6; ++i) {
                auto b = tetIndex(i, n);
                r.push_back({b[3] * h, b[0] * h, b[1] * h, b[2] * h});
            }
            break;
        case mg::SQUARE:
            r.resize((n + 1) * (n + 1));
            for (int i = 0; i <= n; ++i)
                for (int j = 0; j <= n; ++j) r[quadIndex(i, j, n)] = box({i * h, j * h});
            break;
        case mg::CUBE:
            r.resize((n + 1) * (n + 1) * (n + 1));
            for (int i = 0; i <= n; ++i)
                for (int j = 0; j <= n; ++j)
                    for (int k = 0; k <= n; ++k) r[hexIndex(i, j, k, n)] = box({i * h, j * h, k * h});
            break;
        default: {
            std::vector<int> order = shape == mg::PRISM ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{1, 2, 4, 3, 0};
            for (int v : order) {
                V w(order.size(), 0.);
                w[v] = 1;
                r.push_back(w);
            }
        }
    }
    for (auto& w : r) mc::require(!w.empty(), "harness: no point");
    return r;
}
static V image(const mg::Mesh& m, int e, const V& w) {
    auto c = m.coordsOf(e);
    V r(m.dim, 0.);
    for (std::size_t v = 0; v < w.size(); ++v)
        for (int d = 0; d < m.dim; ++d) r[d] += w[v] * c[v][d];
    return r;
}
// ---------------------------------------------------------------- data
static double field(const V& x, int comp, double t, std::size_t level) {
    double s = 0.3 * comp + 0.07 * level;
    for (std::size_t d = 0; d < x.size(); ++d) s += (d + 1 + 0.25 * comp) * x[d] + 0.01 * x[d] * x[0];
    return s * (1 + t);
}
template <std::size_t DIM>
V where(Base::Element* e, const Geometry::PointReference<DIM>& p) {
    return sh::coords<DIM>(e->referenceToPhysical(p));
}
struct Array {
    std::string name;
    int kind;  // scalar, vector, tensor
    double t;
    std::size_t level;
};
template <std::size_t DIM>
std::function<double(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> scalar(double t) {
    return [t](Base::Element* e, const Geometry::PointReference<DIM>& p, std::size_t l) { return field(where<DIM>(e, p), 0, t, l); };
}
template <std::size_t DIM>
std::function<LinearAlgebra::SmallVector<DIM>(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> vec(double t) {
    return [t](Base::Element* e, const Geometry::PointReference<DIM>& p, std::size_t l) {
        LinearAlgebra::SmallVector<DIM> r;
        for (std::size_t i = 0; i < DIM; ++i) r[i] = field(where<DIM>(e, p), i, t, l);
        return r;
    };
}
template <std::size_t DIM>
std::function<LinearAlgebra::SmallMatrix<DIM, DIM>(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> tensor(double t) {
    return [t](Base::Element* e, const Geometry::PointReference<DIM>& p, std::size_t l) {
        LinearAlgebra::SmallMatrix<DIM, DIM> r;
        for (std::size_t i = 0; i < DIM; ++i)
            for (std::size_t j = 0; j < DIM; ++j) r(i, j) = field(where<DIM>(e, p), 3 * i + j, t, l);
        return r;
    };
}
static const int comps[] = {1, 3, 9};
static double expected(const Array& a, int dim, int c, const V& x) {
    if (a.kind == 0) return field(x, 0, a.t, a.level);
    if (a.kind == 1) return c < dim ? field(x, c, a.t, a.level) : 0;
    int i = c / 3, j = c % 3;
    return i < dim && j < dim ? field(x, c, a.t, a.level) : i == j;
}
static void require3(const Tag& t, const std::string& what, int n) { mc::require(t.at("NumberOfComponents", "1") == std::to_string(n), what, " has ", t.at("NumberOfComponents", "1"), " components per point instead of ", n); }
// checks one .pvtu with its pieces; returns nothing, all elements of the mesh have to be there once
static void checkVtk(const std::string& base, const mg::Mesh& m, const std::vector<int>& part, int P, int order, const std::vector<Array>& arrays) {
    Tag master = parseXml(base + ".pvtu");
    const Tag& vf = master.one("VTKFile");
    mc::require(vf.at("type") == "PUnstructuredGrid" && vf.at("byte_order") == "LittleEndian", base, ".pvtu: header");
    const Tag& pg = vf.one("PUnstructuredGrid");
    require3(pg.one("PPoints").one("PDataArray"), "the list of points", 3);
    auto pieces = pg.all("Piece");
    mc::require(int(pieces.size()) == P, pieces.size(), " pieces for ", P, " processes");
    auto pd = pg.one("PPointData").all("PDataArray");
    mc::require(pd.size() == arrays.size(), "the master file lists ", pd.size(), " arrays instead of ", arrays.size());
    for (std::size_t i = 0; i < arrays.size(); ++i) {
        mc::require(pd[i]->at("Name") == arrays[i].name && pd[i]->at("type") == "Float64", "the master file lists array ", pd[i]->at("Name"));
        require3(*pd[i], "the master file: array " + arrays[i].name, comps[arrays[i].kind]);
    }
    std::string dir = base.find('/') == std::string::npos ? "" : base.substr(0, base.rfind('/') + 1);
    std::vector<int> seen(m.elems.size(), 0);
    std::set<std::string> sources;
    for (int p = 0; p < P; ++p) {
        std::string src = pieces[p]->at("Source");
        mc::require(sources.insert(src).second, "piece ", src, " is listed twice");
        Tag file = parseXml(dir + src);
        const Tag& lf = file.one("VTKFile");
        mc::require(lf.at("type") == "UnstructuredGrid" && lf.at("byte_order") == "LittleEndian", src, ": header");
        const Tag& piece = lf.one("UnstructuredGrid").one("Piece");
        const Tag& ptsTag = piece.one("Points").one("DataArray");
        require3(ptsTag, "the list of points", 3);
        auto pts = array<double>(ptsTag, "Float64");
        std::map<std::string, const Tag*> cells;
        for (auto* t : piece.one("Cells").all("DataArray")) mc::require(cells.emplace(t->at("Name"), t).second, src, ": cell array twice");
        mc::require(cells.size() == 3 && cells.count("connectivity") && cells.count("offsets") && cells.count("types"), src, ": cell arrays");
        auto conn = array<std::uint32_t>(*cells["connectivity"], "UInt32"), offs = array<std::uint32_t>(*cells["offsets"], "UInt32");
        auto types = array<std::uint8_t>(*cells["types"], "UInt8");
        std::size_t mine = std::count(part.begin(), part.end(), p);
        // every piece holds the elements of one process
        mc::require(types.size() == mine && offs.size() == mine && piece.at("NumberOfCells") == std::to_string(mine), src, ": ", types.size(), " types and ", offs.size(), " offsets for ", piece.at("NumberOfCells"), " cells; the process owns ", mine);
        std::size_t np = pts.size() / 3;
        mc::require(pts.size() % 3 == 0 && piece.at("NumberOfPoints") == std::to_string(np), src, ": number of points ", piece.at("NumberOfPoints"), " but ", pts.size(), " coordinates");
        std::vector<std::vector<double>> data;
        auto local = piece.one("PointData").all("DataArray");
        mc::require(local.size() == arrays.size(), src, ": ", local.size(), " arrays instead of ", arrays.size());
        for (std::size_t i = 0; i < arrays.size(); ++i) {
            mc::require(local[i]->at("Name") == arrays[i].name, src, ": array ", local[i]->at("Name"), " instead of ", arrays[i].name);
            require3(*local[i], src + ": array " + arrays[i].name, comps[arrays[i].kind]);
            data.push_back(array<double>(*local[i], "Float64"));
            mc::require(data.back().size() == np * comps[arrays[i].kind], src, ": array ", arrays[i].name, " has ", data.back().size(), " values for ", np, " points");
        }
        std::size_t begin = 0;
        std::vector<char> usedPoint(np, 0);
        for (std::size_t c = 0; c < mine; ++c) {
            mc::require(offs[c] >= begin && offs[c] <= conn.size(), src, ": offset of cell ", c);
            std::vector<std::size_t> ids(conn.begin() + begin, conn.begin() + offs[c]);
            begin = offs[c];
            std::vector<V> x;
            for (auto id : ids) {
                mc::require(id < np, src, ": point number ", id);
                usedPoint[id] = 1;
                x.push_back(V(pts.begin() + 3 * id, pts.begin() + 3 * id + 3));
                for (int d = m.dim; d < 3; ++d) mc::require(x.back()[d] == 0, src, ": coordinate ", d, " of a point is ", x.back()[d]);
            }
            int which = -1;
            for (std::size_t e = 0; e < m.elems.size() && which < 0; ++e) {
                if (part[e] != p || seen[e] || vtkType(m.elems[e].shape, order) != types[c]) continue;
                auto want = vtkPoints(m.elems[e].shape, order);
                if (want.size() != ids.size()) continue;
                bool same = true;
                for (std::size_t i = 0; i < want.size() && same; ++i) {
                    V y = image(m, e, want[i]);
                    for (int d = 0; d < m.dim; ++d) same = same && std::abs(y[d] - x[i][d]) < 1e-12 * (1 + std::abs(y[d]));
                }
                if (same) which = e;
            }
            mc::require(which >= 0, src, ": cell ", c, " of type ", int(types[c]), " with ", ids.size(), " points is not an element of process ", p, "; first point ", ids.empty() ? std::string("-") : sh::str(x[0]));
            seen[which] = 1;
            for (std::size_t i = 0; i < ids.size(); ++i) {
                V y = image(m, which, vtkPoints(m.elems[which].shape, order)[i]);
                for (std::size_t a = 0; a < arrays.size(); ++a)
                    for (int k = 0; k < comps[arrays[a].kind]; ++k) {
                        double got = data[a][ids[i] * comps[arrays[a].kind] + k], want = expected(arrays[a], m.dim, k, y);
                        mc::require(std::abs(got - want) < 1e-11 * (1 + std::abs(want)), src, ": array ", arrays[a].name, " component ", k, " at point ", i, " of element ", which, " is ", got, " instead of ", want);
                    }
                mc::step();
            }
        }
        mc::require(begin == conn.size(), src, ": connectivity that belongs to no cell");
        for (char u : usedPoint) mc::require(u, src, ": a point that belongs to no cell");
    }
    for (std::size_t e = 0; e < seen.size(); ++e) mc::require(seen[e], "element ", e, " is not in the file");
}
// what is written: 0-2 one array of that kind, 3 several in one go, 4 several after each other
static std::vector<Array> plan(int what, double t, std::size_t level) {
    if (what < 3) return {{mc::str("k", what), what, t, level}};
    if (what == 3) return {{"a", 0, t, level}, {"s", 0, t + 1, level}, {"v", 1, t, level}, {"w", 1, t + 1, level}, {"b", 2, t, level}};
    return {{"one", 0, t, level}, {"two", 1, t, level}, {"three", 0, t + 2, level}, {"four", 2, t, level}};
}
template <std::size_t DIM>
void writeOne(Output::VTKSpecificTimeWriter<DIM>& w, const Array& a) {
    if (a.kind == 0) w.write(scalar<DIM>(a.t), a.name);
    if (a.kind == 1) w.write(vec<DIM>(a.t), a.name);
    if (a.kind == 2) w.write(tensor<DIM>(a.t), a.name);
}
template <std::size_t DIM>
void vtk(const std::string& fn, const std::string& base, int order, int what, std::size_t level) {
    Base::ConfigurationData config(1, 3);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    Output::VTKSpecificTimeWriter<DIM> w(base, &mesh, level, order);
    auto arrays = plan(what, 0.5, level);
    if (what == 3) {
        typedef std::pair<V, std::size_t> T;
        std::function<T(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> ex = [](Base::Element* e, const Geometry::PointReference<DIM>& p, std::size_t l) { return T(where<DIM>(e, p), l); };
        std::map<std::string, std::function<double(T&)>> ss;
        std::map<std::string, std::function<LinearAlgebra::SmallVector<DIM>(T&)>> vs;
        std::map<std::string, std::function<LinearAlgebra::SmallMatrix<DIM, DIM>(T&)>> ts;
        for (auto& a : arrays) {
            if (a.kind == 0) ss[a.name] = [a](T& x) { return field(x.first, 0, a.t, x.second); };
            if (a.kind == 1)
                vs[a.name] = [a](T& x) {
                    LinearAlgebra::SmallVector<DIM> r;
                    for (std::size_t i = 0; i < DIM; ++i) r[i] = field(x.first, i, a.t, x.second);
                    return r;
                };
            if (a.kind == 2)
                ts[a.name] = [a](T& x) {
                    LinearAlgebra::SmallMatrix<DIM, DIM> r;
                    for (std::size_t i = 0; i < DIM; ++i)
                        for (std::size_t j = 0; j < DIM; ++j) r(i, j) = field(x.first, 3 * i + j, a.t, x.second);
                    return r;
                };
        }
        w.writeMultiple(ex, ss, vs, ts);
    } else
        for (auto& a : arrays) writeOne<DIM>(w, a);
}
// a history of (time, array) writes
static const double times[] = {0, 0.25, 1};
template <std::size_t DIM>
void timeDependent(const std::string& fn, const std::string& base, int order, const std::vector<std::pair<int, int>>& ops) {
    Base::ConfigurationData config(1, 3);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    Output::VTKTimeDependentWriter<DIM> w(base, &mesh, order);
    int n = 0;
    for (auto& o : ops) {
        double t = times[o.first];
        std::string name = mc::str("q", n++);
        if (o.second == 0) w.write(scalar<DIM>(t), name, t, o.first);
        if (o.second == 1) w.write(vec<DIM>(t), name, t, o.first);
        if (o.second == 2) w.write(tensor<DIM>(t), name, t, o.first);
    }
}
// ---------------------------------------------------------------- tecplot and gnuplot
template <std::size_t DIM>
struct Writer : Output::TecplotSingleElementWriter<DIM>, Output::SingleElementWriter<DIM> {
    double t = 0;
    void writeToTecplotFile(const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& o) override { o << field(sh::coords<DIM>(e->referenceToPhysical(p)), 0, t, 0) << " 77"; }
    void writeOutput(const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& o) override { o << field(sh::coords<DIM>(e->referenceToPhysical(p)), 0, t, 0); }
};
// ops: 0 new geometry, 1 same geometry; +2 through the class interface
template <std::size_t DIM>
std::string tecplot(const std::string& fn, const std::vector<int>& ops) {
    Base::ConfigurationData config(1, 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    std::stringstream out;
    {
        Output::TecplotDiscontinuousSolutionWriter<DIM> w(out, "a title", std::string("012").substr(0, DIM), "u,v");
        int n = 0;
        for (int o : ops) {
            Writer<DIM> wr;
            wr.t = n;
            if (o & 2)
                w.write(&mesh, mc::str("zone", n), o & 1, &wr, n * 0.5);
            else
                w.write(&mesh, mc::str("zone", n), o & 1, [&wr](const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& s) { wr.writeToTecplotFile(e, p, s); }, n * 0.5);
            ++n;
        }
    }
    return out.str();
}
template <std::size_t DIM>
std::string gnuplot(const std::string& fn, int times) {
    Base::ConfigurationData config(1, 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    std::stringstream out;
    {
        Output::GNUPlotDiscontinuousSolutionWriter<DIM> w(out, "a title", std::string("012").substr(0, DIM), "u");
        for (int i = 0; i < times; ++i) {
            Writer<DIM> wr;
            wr.t = i;
            w.write(&mesh, &wr);
        }
    }
    return out.str();
}
// the vertices (hpGEM numbers) that a line, quadrilateral or brick has to list for a shape: cyclic base, then cyclic top
static bool validCell(int shape, const std::vector<int>& v) {
    auto cyc = [&](std::vector<int> a) {  // consecutive vertices equal or joined by an edge of the shape
        for (std::size_t i = 0; i < a.size(); ++i) {
            int x = a[i], y = a[(i + 1) % a.size()];
            if (x == y) continue;
            bool edge = false;
            auto& t = mg::table(shape);
            if (mg::table(shape).dim == 2) {
                for (auto& f : t.faces) edge = edge || (std::set<int>(f.begin(), f.end()) == std::set<int>{x, y});
            } else
                for (auto& f : t.edges) edge = edge || (std::set<int>(f.begin(), f.end()) == std::set<int>{x, y});
            if (!edge) return false;
        }
        return true;
    };
    std::set<int> all(v.begin(), v.end());
    if (int(all.size()) != mg::table(shape).nodes) return false;
    if (v.size() == 2) return true;
    if (v.size() == 4) return cyc(v);
    std::vector<int> lo(v.begin(), v.begin() + 4), hi(v.begin() + 4, v.end());
    if (!cyc(lo) || !cyc(hi)) return false;
    for (int i = 0; i < 4; ++i)
        if (!cyc({lo[i], hi[i]})) return false;
    return true;
}
struct Row {
    std::vector<double> x;
    std::vector<double> rest;
};
static std::vector<double> numbers(const std::string& line) {
    std::istringstream in(line);
    std::vector<double> r;
    double v;
    while (in >> v) r.push_back(v);
    in.clear();
    std::string junk;
    mc::require(!(in >> junk), "a line of numbers contains '", junk, "'");
    return r;
}
// matches 2^dim rows to an element of process p
static int matchRows(const mg::Mesh& m, const std::vector<int>& part, int p, std::vector<int>& seen, const std::vector<Row>& rows) {
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        if (part[e] != p || seen[e]) continue;
        auto c = m.coordsOf(e);
        std::vector<int> v;
        for (auto& r : rows)
            for (std::size_t k = 0; k < c.size(); ++k) {
                bool same = true;
                for (int d = 0; d < m.dim; ++d) same = same && std::abs(c[k][d] - r.x[d]) < 1e-4 * (1 + std::abs(c[k][d]));
                if (same) {
                    v.push_back(k);
                    break;
                }
            }
        if (v.size() == rows.size() && validCell(m.elems[e].shape, v)) {
            seen[e] = 1;
            return e;
        }
    }
    return -1;
}
static void checkTecplot(const std::string& text, const mg::Mesh& m, const std::vector<int>& part, int p, const std::vector<int>& ops) {
    std::istringstream in(text);
    std::string line;
    auto next = [&] {
        mc::require(bool(std::getline(in, line)), "tecplot: the file ends early");
        return line;
    };
    mc::require(next() == "TITLE = \"a title\"", "tecplot: ", line);
    std::string vars = "VARIABLES = ";
    for (int d = 0; d < m.dim; ++d) vars += mc::str("\"x", d, "\", ");
    mc::require(next() == vars + "\"u\", \"v\"", "tecplot: ", line);
    std::size_t mine = std::count(part.begin(), part.end(), p), rows = 1u << m.dim;
    std::vector<Row> geo;
    for (std::size_t n = 0; n < ops.size(); ++n) {
        next();
        auto has = [&](const std::string& s) { mc::require(line.find(s) != std::string::npos, "tecplot: zone header lacks '", s, "': ", line); };
        static const char* types[] = {"", "FELINESEG", "FEQUADRILATERAL", "FEBRICK"};
        has(mc::str("ZONE T = \"zone", n, "\""));
        has(mc::str("SOLUTIONTIME = ", n * 0.5, ","));
        has(mc::str("ZONETYPE = ", types[m.dim], ","));
        has("DATAPACKING = POINT");
        has(mc::str(", N = ", mine * rows));
        has(mc::str(", E = ", mine));
        long N = std::atol(line.c_str() + line.find(", N = ") + 6), E = std::atol(line.c_str() + line.find(", E = ") + 6);
        mc::require(N == long(mine * rows) && E == long(mine), "tecplot: zone with ", N, " points and ", E, " elements instead of ", mine * rows, " and ", mine);
        bool same = ops[n] & 1;
        if (same) {
            std::string d = ", D = (";
            for (int k = 1; k <= m.dim; ++k) d += mc::str(k, ",");
            has(d + "FECONNECT)");
        } else {
            mc::require(line.find(", D = ") == std::string::npos, "tecplot: a new geometry refers to the old one");
            geo.assign(mine * rows, Row());
        }
        std::vector<std::vector<double>> data;
        for (std::size_t i = 0; i < mine * rows; ++i) {
            auto v = numbers(next());
            std::size_t skip = same ? 0 : m.dim;
            mc::require(v.size() == skip + 2, "tecplot: data line '", line, "'");
            if (!same) geo[i].x.assign(v.begin(), v.begin() + m.dim);
            data.push_back(V(v.begin() + skip, v.end()));
        }
        std::vector<int> seen(m.elems.size(), 0);
        std::vector<std::vector<std::size_t>> conn;
        if (!same) {
            for (std::size_t e = 0; e < mine; ++e) {
                auto v = numbers(next());
                mc::require(v.size() == rows, "tecplot: connectivity '", line, "'");
                for (std::size_t k = 0; k < rows; ++k) mc::require(v[k] == double(e * rows + k + 1), "tecplot: connectivity '", line, "'");
            }
        }
        for (std::size_t e = 0; e < mine; ++e) {
            std::vector<Row> r(geo.begin() + e * rows, geo.begin() + (e + 1) * rows);
            int which = matchRows(m, part, p, seen, r);
            mc::require(which >= 0, "tecplot: cell ", e, " is not an element of process ", p);
            for (std::size_t k = 0; k < rows; ++k) {
                // the exact vertex
                V x;
                for (auto& c : m.coordsOf(which)) {
                    bool eq = true;
                    for (int d = 0; d < m.dim; ++d) eq = eq && std::abs(c[d] - r[k].x[d]) < 1e-4 * (1 + std::abs(c[d]));
                    if (eq) x.assign(c.begin(), c.begin() + m.dim);
                }
                double want = field(x, 0, n, 0);
                auto& d = data[e * rows + k];
                mc::require(std::abs(d[0] - want) < 1e-6 * (1 + std::abs(want)) && d[1] == 77, "tecplot: value ", d[0], " at a vertex of element ", which, " instead of ", want);
                mc::step();
            }
        }
    }
    mc::require(!std::getline(in, line), "tecplot: more lines than announced: ", line);
}
static void checkGnuplot(const std::string& text, const mg::Mesh& m, const std::vector<int>& part, int p, int times) {
    std::istringstream in(text);
    std::string line;
    auto next = [&] {
        mc::require(bool(std::getline(in, line)), "gnuplot: the file ends early");
        return line;
    };
    mc::require(next() == "TITLE = \"a title\"", "gnuplot: ", line);
    std::string vars = "VARIABLES = ";
    for (int d = 0; d < m.dim; ++d) vars += mc::str("\"x", d, "\", ");
    mc::require(next() == vars + "\"u\"", "gnuplot: ", line);
    std::size_t mine = std::count(part.begin(), part.end(), p), rows = 1u << m.dim;
    for (int t = 0; t < times; ++t) {
        mc::require(next() == mc::str("Number of elements = ", mine), "gnuplot: '", line, "' for ", mine, " elements");
        std::vector<int> seen(m.elems.size(), 0);
        for (std::size_t e = 0; e < mine; ++e) {
            std::vector<Row> r;
            for (std::size_t k = 0; k < rows; ++k) {
                auto v = numbers(next());
                mc::require(int(v.size()) == m.dim + 1, "gnuplot: line '", line, "'");
                r.push_back({V(v.begin(), v.begin() + m.dim), V(v.begin() + m.dim, v.end())});
            }
            int which = matchRows(m, part, p, seen, r);
            mc::require(which >= 0, "gnuplot: the points of cell ", e, " are not those of an element of process ", p);
            for (auto& row : r) {
                V x;
                for (auto& c : m.coordsOf(which)) {
                    bool eq = true;
                    for (int d = 0; d < m.dim; ++d) eq = eq && std::abs(c[d] - row.x[d]) < 1e-4 * (1 + std::abs(c[d]));
                    if (eq) x.assign(c.begin(), c.begin() + m.dim);
                }
                double want = field(x, 0, t, 0);
                mc::require(std::abs(row.rest[0] - want) < 1e-6 * (1 + std::abs(want)), "gnuplot: value ", row.rest[0], " at a vertex of element ", which, " instead of ", want);
                mc::step();
            }
        }
    }
    mc::require(!std::getline(in, line), "gnuplot: more lines than announced: ", line);
}
#define DIMS(f, ...) (m.dim == 1 ? f<1>(__VA_ARGS__) : m.dim == 2 ? f<2>(__VA_ARGS__) : f<3>(__VA_ARGS__))
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    std::vector<mg::Mesh> cat = mg::catalog(mc::thorough());
    std::string id = mc::str("o", getpid()), fn = id + ".hpgem";
    int rc = mc::run([&] {
        int part = mc::choose(5, "part");
        if (part == 0) {
            base64Case();
            return;
        }
        const mg::Mesh& m = mc::pick(cat, "mesh");
        mc::note(m.name);
        std::size_t n = m.elems.size();
        bool linear = false;
        for (auto& e : m.elems) linear = linear || e.shape == mg::PRISM || e.shape == mg::PYR;
        int P = 1 + mc::choose(mc::tier(2, 3), "P-1");
        if (P > 1 && n > 4 && !(mc::thorough() && n <= 6)) throw mc::Prune();
        mcmpi::Options o;
        std::vector<int> parts;
        auto explore = [&](std::function<std::string()> f, std::function<void(const std::vector<std::string>&)> chk) {
            mcmpi::explore(P, o, [&](int) { return f(); }, [&](const std::vector<std::string>& res) {
                mc::outcome(mc::joinChoices());
                mc::state(mc::joinChoices());
                chk(res);
            });
        };
        if (part == 1) {  // one file
            int order = linear ? 1 : 1 + mc::choose(P > 1 ? 2 : mc::tier(6, 9), "order-1");
            int what = P > 1 ? 4 : mc::choose(5, "what");
            std::size_t level = P > 1 ? 1 : mc::choose(2, "level");
            bool dir = P == 1 && mc::choose(2, "directory");
            if (order > 2 && (what != 1 || dir != (level == 1))) throw mc::Prune();
            parts = mg::chooseParts(n, P);
            m.write(fn, parts, P);
            std::string base = (dir ? "./" : "") + id + "v";
            explore([&] { DIMS(vtk, fn, base, order, what, level); return std::string(); },
                    [&](const std::vector<std::string>&) { checkVtk(base, m, parts, P, order, plan(what, 0.5, level)); });
        } else if (part == 2) {  // a history of output times
            int len = 1 + mc::choose(P > 1 ? 2 : mc::tier(3, 4), "writes-1");
            if (n > 4) throw mc::Prune();
            std::vector<std::pair<int, int>> ops;
            for (int i = 0; i < len; ++i) {
                int t = mc::choose(P > 1 ? 2 : 3, "time"), kind = P > 1 ? i % 3 : mc::choose(3, "kind");
                ops.push_back({t, kind});
            }
            if (P > 1)
                for (std::size_t i = 0; i < n; ++i) parts.push_back(i % P);
            else
                parts.assign(n, 0);
            int order = linear ? 1 : 1 + len % 2;
            m.write(fn, parts, P);
            std::string base = id + "t";
            explore([&] { DIMS(timeDependent, fn, base, order, ops); return std::string(); },
                    [&](const std::vector<std::string>&) {
                        std::vector<std::pair<double, std::vector<Array>>> want;
                        for (std::size_t i = 0; i < ops.size(); ++i) {
                            double t = times[ops[i].first];
                            if (want.empty() || want.back().first != t) want.push_back({t, {}});
                            want.back().second.push_back({mc::str("q", i), ops[i].second, t, std::size_t(ops[i].first)});
                        }
                        Tag f = parseXml(base + ".pvd");
                        const Tag& vf = f.one("VTKFile");
                        mc::require(vf.at("type") == "Collection", "pvd header");
                        auto sets = vf.one("Collection").all("DataSet");
                        mc::require(sets.size() == want.size(), "the collection lists ", sets.size(), " times instead of ", want.size());
                        std::set<std::string> names;
                        for (std::size_t i = 0; i < want.size(); ++i) {
                            mc::require(std::stod(sets[i]->at("timestep")) == want[i].first, "time ", sets[i]->at("timestep"), " instead of ", want[i].first);
                            std::string name = sets[i]->at("file");
                            mc::require(names.insert(name).second && name.size() > 5 && name.substr(name.size() - 5) == ".pvtu", "file of time ", i, " is ", name);
                            checkVtk(name.substr(0, name.size() - 5), m, parts, P, order, want[i].second);
                            for (int p = 0; p < P; ++p) unlink(mc::str(name.substr(0, name.size() - 5), ".", p, ".vtu").c_str());
                            unlink(name.c_str());
                        }
                        unlink((base + ".pvd").c_str());
                    });
        } else if (part == 3) {
            int len = 1 + mc::choose(mc::tier(2, 3), "zones-1");
            std::vector<int> ops;
            for (int i = 0; i < len; ++i) {
                int same = i ? mc::choose(2, "same geometry") : 0;
                ops.push_back(same + 2 * mc::choose(2, "class"));
            }
            parts = mg::chooseParts(n, P);
            m.write(fn, parts, P);
            explore([&] { return DIMS(tecplot, fn, ops); }, [&](const std::vector<std::string>& res) {
                for (int p = 0; p < P; ++p) checkTecplot(res[p], m, parts, p, ops);
            });
        } else {
            int times = 1 + mc::choose(2, "times-1");
            parts = mg::chooseParts(n, P);
            m.write(fn, parts, P);
            explore([&] { return DIMS(gnuplot, fn, times); }, [&](const std::vector<std::string>& res) {
                for (int p = 0; p < P; ++p) checkGnuplot(res[p], m, parts, p, times);
            });
        }
    });
    unlink(fn.c_str());
    for (int p = 0; p < 8; ++p)
        for (const char* k : {"v."}) unlink(mc::str(id, k, p, ".vtu").c_str());
    unlink((id + "v.pvtu").c_str());
    return rc;
}
