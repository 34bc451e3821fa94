// C06: global matrices and vectors hold the sums of the local ones, and solution coefficients survive the way to and from a global vector.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "petscmat.h"
#include "Base/FaceMatrix.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
using namespace hpgem;
typedef Utilities::GlobalIndexing GI;
typedef Utilities::Table2D<bool> Table;
typedef std::vector<std::size_t> Sel;
struct Setup {
    std::vector<int> basis;  // per unknown: DG order o -> o, conforming order o -> 10+o
    const char* name;
};
static const std::vector<Setup> setups = {{{1}, "DG1"},           {{12}, "conforming 2"},           {{1, 0}, "DG1, DG0"},
                                          {{0, 12}, "DG0, conforming 2"}, {{11, 1}, "conforming 1, DG1"}, {{0, 11, 1}, "DG0, conforming 1, DG1"},
                                          {{13}, "conforming 3"}};
static const std::vector<std::vector<Sel>> subsets = {{}, {{0}}, {{0, 1}, {1}, {0}}, {{0, 1, 2}, {1}, {0, 2}, {2}, {1, 2}, {0}, {0, 1}}};
static const GI::Layout layouts[] = {GI::BLOCKED_PROCESSOR, GI::SEQUENTIAL, GI::BLOCKED_GLOBAL};
struct Key {
    int kind, ent, u, fn;
    bool operator<(const Key& o) const { return std::tie(kind, ent, u, fn) < std::tie(o.kind, o.ent, o.u, o.fn); }
};
static double value(std::initializer_list<int> l) {
    std::uint64_t h = 0x9E3779B97F4A7C15ull;
    for (int x : l) {
        h ^= std::uint64_t(x + 77);
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 29;
    }
    double v = 1 + h % 97;
    return h >> 40 & 1 ? v : -v;
}
// the two index objects of a matrix and everything that determines its values
enum { EID = 1, FID = 2 };
struct State {
    int rowSel, colSel, rowLayout, colLayout, version = 0;
    bool null = false, ownTable = false;
    unsigned table = 0;  // couplings of an explicit table
};
struct Script {
    bool matrix;
    int mode;  // 0: one index object, 1: two with the same selection, 2: two with different selections (no faces)
    bool elems, faces;
    State start;
    std::vector<int> ops;
};
enum { M_AGAIN, M_NEW, M_LAYOUT, M_SELECTION, M_COUPLING, M_EMPTY, M_OPS };
enum { V_AGAIN, V_NEW, V_LAYOUT, V_SELECTION, V_FROM, V_FROM1, V_TO, V_TO1, V_EMPTY, V_OPS };
struct World {
    const mg::Mesh* m;
    const Setup* s;
    int P;
    const std::vector<Sel>& sub() const { return subsets[s->basis.size()]; }
    bool mayCouple(std::size_t ru) const { return P == 1 || s->basis[ru] < 10; }  // refused by hpGEM otherwise
    bool couples(const Script& sc, const State& st, std::size_t ru, std::size_t cu) const {
        if (!sc.faces || !mayCouple(ru)) return false;
        if (!st.ownTable) return true;
        const Sel &r = sub()[st.rowSel], &c = sub()[st.colSel];
        std::size_t i = std::find(r.begin(), r.end(), ru) - r.begin(), j = std::find(c.begin(), c.end(), cu) - c.begin();
        return st.table >> (i * c.size() + j) & 1;
    }
    bool fullCoupling(const Script& sc, const State& st) const {
        for (auto ru : sub()[st.rowSel])
            for (auto cu : sub()[st.colSel])
                if (!couples(sc, st, ru, cu)) return false;
        return true;
    }
    Table table(const Script& sc, const State& st) const {
        const Sel &r = sub()[st.rowSel], &c = sub()[st.colSel];
        Table t(r.size(), c.size());
        for (std::size_t i = 0; i < r.size(); ++i)
            for (std::size_t j = 0; j < c.size(); ++j) t(i, j) = couples(sc, st, r[i], c[j]);
        return t;
    }
    void nextSelection(const Script& sc, State& st) const {
        st.rowSel = (st.rowSel + 1) % sub().size();
        st.colSel = sc.mode < 2 ? st.rowSel : (st.colSel + 2) % sub().size();
    }
    // the state after an operation
    void advance(const Script& sc, State& st, int op) const {
        if (sc.matrix) {
            if (op == M_NEW) ++st.version;
            if (op == M_LAYOUT) {
                st.rowLayout = (st.rowLayout + 1) % 3;
                st.colLayout = (st.colLayout + (sc.mode ? 2 : 1)) % 3;
                st.null = st.ownTable = false;
            }
            if (op == M_SELECTION) {
                nextSelection(sc, st);
                st.null = st.ownTable = false;
            }
            if (op == M_COUPLING) {  // only the first included unknown couples, with everything but itself; then the complement
                unsigned n = sub()[st.rowSel].size(), c = sub()[st.colSel].size();
                unsigned first = ((1u << c) - 1) & ~1u;
                st.table = st.ownTable ? ((1u << (n * c)) - 1) & ~st.table : first;
                st.ownTable = true;
            }
            if (op == M_EMPTY) st.null = true;
        } else {
            if (op == V_NEW) ++st.version;
            if (op == V_LAYOUT) {
                st.rowLayout = (st.rowLayout + 1) % 3;
                st.null = false;
            }
            if (op == V_SELECTION) {
                nextSelection(sc, st);
                st.null = false;
            }
            if (op == V_EMPTY) st.null = true;
        }
    }
    std::vector<int> opsAt(const Script& sc, const State& st) const {
        std::vector<int> r;
        for (int op = 0; op < (sc.matrix ? M_OPS : V_OPS); ++op) {
            if (sc.matrix) {
                if (op == M_COUPLING && (!sc.faces || st.null)) continue;
                if (op == M_SELECTION && sub().size() == 1) continue;
            } else {
                if (op == V_SELECTION && sub().size() == 1) continue;
                if (st.null && op >= V_FROM && op <= V_TO1) continue;
            }
            r.push_back(op);
        }
        return r;
    }
    std::vector<Script> scripts(bool matrix, int sel, int depth) const {
        std::vector<Script> out, kinds;
        auto kind = [&](int mode, bool e, bool f) {
            Script s;
            s.matrix = matrix;
            s.mode = mode;
            s.elems = e;
            s.faces = f;
            s.start = State();
            s.start.rowSel = sel;
            s.start.colSel = mode < 2 ? sel : (sel + 1) % sub().size();
            s.start.rowLayout = (sel + mode) % 3;
            s.start.colLayout = mode ? (s.start.rowLayout + 1) % 3 : s.start.rowLayout;
            kinds.push_back(s);
        };
        kind(0, true, true);
        kind(0, true, false);
        kind(0, false, true);
        if (matrix) {
            kind(1, true, true);
            if (sub().size() > 1) kind(2, true, false);
        }
        for (auto& k : kinds) {
            std::function<void(Script, State, int)> grow = [&](Script s, State st, int left) {
                if (!left) {
                    out.push_back(s);
                    return;
                }
                for (int op : opsAt(s, st)) {
                    Script t = s;
                    State n = st;
                    t.ops.push_back(op);
                    advance(s, n, op);
                    grow(t, n, left - 1);
                }
            };
            bool whole = k.mode == 0 && k.elems && k.faces;
            grow(k, k.start, whole ? depth : std::max(1, depth - 1));
        }
        return out;
    }
};
// ---- what runs on every process
template <std::size_t DIM>
struct Proc {
    const World& w;
    Base::MeshManipulator<DIM>& mesh;
    dist::Blob b;
    std::map<const Base::Element*, int> index;
    Proc(const World& ww, Base::MeshManipulator<DIM>& mm) : w(ww), mesh(mm) {
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            std::vector<mg::X> x;
            auto* g = e->getPhysicalGeometry();
            for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
                const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
                mg::X y{{0, 0, 0}};
                for (std::size_t d = 0; d < DIM; ++d) y[d] = p[d];
                x.push_back(y);
            }
            index[e] = dist::findElement(*w.m, x);
            mc::require(index[e] >= 0, "harness: unknown element");
        }
    }
    template <typename F>
    void entities(const Base::Element* e, F f) const {  // f(kind, number, pointer)
        int E = index.at(e);
        f(0, E, e);
        for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i) f(1, w.m->elemFaces[E][i], e->getFace(i));
        for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) f(2, w.m->elemEdges[E][i], e->getEdge(i));
        if (DIM > 1)
            for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) f(3, w.m->elemNodes[E][i].first, e->getNode(i));
    }
    std::vector<Key> dofs(const Base::Element* e, const Sel& sel) const {
        std::vector<Key> r;
        for (auto u : sel)
            entities(e, [&](int k, int n, auto* x) {
                for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); ++i) r.push_back({k, n, int(u), int(i)});
            });
        return r;
    }
    void sizes() {
        b.i(index.size());
        for (auto& p : index) {
            b.i(p.second);
            for (std::size_t u = 0; u < w.s->basis.size(); ++u) entities(p.first, [&](int, int, auto* x) { b.i(x->getLocalNumberOfBasisFunctions(u)); });
        }
    }
    void indices(const GI& gi, const Sel& sel) {
        for (auto& p : index) {
            b.i(p.second);
            for (auto u : sel) entities(p.first, [&](int, int, auto* x) { b.i(gi.getGlobalIndex(x, u)); });
        }
    }
    void localMatrices(const Script& sc, const State& st) {
        const Sel &rs = w.sub()[st.rowSel], &cs = w.sub()[st.colSel];
        for (auto& p : index) {
            auto* e = const_cast<Base::Element*>(p.first);
            auto r = dofs(e, rs), c = dofs(e, cs);
            LinearAlgebra::MiddleSizeMatrix m(r.size(), c.size());
            for (std::size_t i = 0; i < r.size(); ++i)
                for (std::size_t j = 0; j < c.size(); ++j)
                    m(i, j) = value({p.second, st.version, r[i].kind, r[i].ent, r[i].u, r[i].fn, c[j].kind, c[j].ent, c[j].u, c[j].fn});
            e->setElementMatrix(m, EID);
            m *= 1000;
            e->setElementMatrix(m, 0);
        }
        if (!sc.faces) return;
        for (auto* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
            const Base::Element* side[2] = {f->getPtrElementLeft(), f->isInternal() ? f->getPtrElementRight() : nullptr};
            std::vector<Key> d[2];
            for (int k = 0; k < 2; ++k)
                if (side[k]) d[k] = dofs(side[k], rs);
            Base::FaceMatrix fm(d[0].size(), d[1].size());
            int F = w.m->elemFaces[index.at(side[0])][f->localFaceNumberLeft()];
            for (int a = 0; a < 2; ++a)
                for (int c = 0; c < 2; ++c)
                    for (std::size_t i = 0; i < d[a].size(); ++i)
                        for (std::size_t j = 0; j < d[c].size(); ++j) fm(a ? Base::Side::RIGHT : Base::Side::LEFT, c ? Base::Side::RIGHT : Base::Side::LEFT, i, j) = faceEntry(sc, st, F, index.at(side[a]), d[a][i], index.at(side[c]), d[c][j]);
            f->setFaceMatrix(fm, FID);
            fm *= 1000.;
            f->setFaceMatrix(fm, 0);
        }
    }
    double faceEntry(const Script& sc, const State& st, int F, int ea, const Key& r, int ec, const Key& c) const {
        if (!w.couples(sc, st, r.u, c.u)) return 0;
        return value({F, ea, ec, st.version, 5, r.kind, r.ent, r.u, r.fn, c.kind, c.ent, c.u, c.fn});
    }
    void localVectors(const Script& sc, const State& st) {
        const Sel& rs = w.sub()[st.rowSel];
        Sel all;
        for (std::size_t u = 0; u < w.s->basis.size(); ++u) all.push_back(u);
        for (auto& p : index) {
            auto* e = const_cast<Base::Element*>(p.first);
            auto r = dofs(e, rs);
            LinearAlgebra::MiddleSizeVector v(r.size());
            for (std::size_t i = 0; i < r.size(); ++i) v[i] = value({p.second, st.version, 1, r[i].kind, r[i].ent, r[i].u, r[i].fn});
            e->setElementVector(v, EID);
            v *= 1000;
            e->setElementVector(v, 0);
            r = dofs(e, all);
            e->setNumberOfTimeIntegrationVectors(2);
            LinearAlgebra::MiddleSizeVector t(r.size());
            for (std::size_t i = 0; i < r.size(); ++i) t[i] = value({st.version, 2, r[i].kind, r[i].ent, r[i].u, r[i].fn});
            e->setTimeIntegrationVector(0, t);
        }
        if (!sc.faces) return;
        for (auto* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
            const Base::Element* side[2] = {f->getPtrElementLeft(), f->isInternal() ? f->getPtrElementRight() : nullptr};
            int F = w.m->elemFaces[index.at(side[0])][f->localFaceNumberLeft()];
            std::vector<double> x;
            for (int k = 0; k < 2; ++k)
                if (side[k])
                    for (auto& r : dofs(side[k], rs)) x.push_back(value({F, index.at(side[k]), st.version, 3, r.kind, r.ent, r.u, r.fn}));
            LinearAlgebra::MiddleSizeVector v(x.size());
            for (std::size_t i = 0; i < x.size(); ++i) v[i] = x[i];
            f->setFaceVector(v, FID);
            v *= 1000;
            f->setFaceVector(v, 0);
        }
    }
    void dump(Mat m) {
        b.str(m->type);
        for (int x : {m->localRows, m->localCols, m->rows, m->cols, int(m->assembled && !m->open)}) b.i(x);
        for (auto* v : {&m->diagonal, &m->offDiagonal}) {
            b.i(v->size());
            for (int x : *v) b.i(x);
        }
        b.i(m->touched.size());
        for (auto& t : m->touched) {
            b.i(t.first);
            b.i(t.second);
            auto it = m->entries.find(t);
            b.d(it == m->entries.end() ? 0. : it->second);
        }
    }
    void bcEntries(Utilities::GlobalPetscMatrix& A) {
        std::size_t total = 0;
        std::vector<int> all;
        b.i(mesh.getFacesList().size());
        for (auto* f : mesh.getFacesList()) {
            std::size_t n = 0;
            std::vector<int> l;
            A.getMatrixBCEntries(f, n, l);
            A.getMatrixBCEntries(f, total, all);
            b.i(index.at(f->getPtrElementLeft()));
            b.i(f->localFaceNumberLeft());
            b.i(n);
            b.i(l.size());
            for (int x : l) b.i(x);
        }
        b.i(total);
        b.i(all.size());
    }
    void runMatrix(const Script& sc) {
        State st = sc.start;
        GI rows, cols;
        auto reset = [&] {
            rows.reset(st.null ? nullptr : &mesh, layouts[st.rowLayout], st.null ? nullptr : &w.sub()[st.rowSel]);
            if (sc.mode) cols.reset(st.null ? nullptr : &mesh, layouts[st.colLayout], st.null ? nullptr : &w.sub()[st.colSel]);
        };
        reset();
        localMatrices(sc, st);
        int eid = sc.elems ? int(EID) : -1, fid = sc.faces ? int(FID) : -1;
        const GI& c = sc.mode ? cols : rows;
        std::unique_ptr<Utilities::GlobalPetscMatrix> A;
        if (sc.faces && !w.fullCoupling(sc, st))
            A.reset(new Utilities::GlobalPetscMatrix(rows, c, w.table(sc, st), eid, fid));
        else if (sc.mode)
            A.reset(new Utilities::GlobalPetscMatrix(rows, c, eid, fid));
        else
            A.reset(new Utilities::GlobalPetscMatrix(rows, eid, fid));
        auto show = [&](bool renumbered) {
            if (!st.null && renumbered) {
                indices(rows, w.sub()[st.rowSel]);
                if (sc.mode) indices(c, w.sub()[st.colSel]);
            }
            dump(*A);
        };
        show(true);
        bcEntries(*A);
        for (int op : sc.ops) {
            w.advance(sc, st, op);
            if (op == M_LAYOUT || op == M_SELECTION || op == M_EMPTY) reset();
            if (op != M_AGAIN) localMatrices(sc, st);
            if (op == M_AGAIN || op == M_NEW)
                A->assemble();
            else if (op != M_EMPTY && sc.faces && !w.fullCoupling(sc, st)) {
                A->setFaceCoupling(w.table(sc, st));
                A->reinit(false);
            } else
                A->reinit();
            show(op == M_LAYOUT || op == M_SELECTION);
        }
    }
    void runVector(const Script& sc) {
        State st = sc.start;
        GI rows;
        auto reset = [&] { rows.reset(st.null ? nullptr : &mesh, layouts[st.rowLayout], st.null ? nullptr : &w.sub()[st.rowSel]); };
        reset();
        localVectors(sc, st);
        for (auto& p : index) {
            auto* e = const_cast<Base::Element*>(p.first);
            LinearAlgebra::MiddleSizeVector t(e->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < t.size(); ++i) t[i] = 100000 + 100 * p.second + int(i);
            e->setTimeIntegrationVector(1, t);
        }
        Utilities::GlobalPetscVector v(rows, sc.elems ? int(EID) : -1, sc.faces ? int(FID) : -1);
        auto show = [&](bool renumbered, bool written) {
            if (!st.null && renumbered) indices(rows, w.sub()[st.rowSel]);
            Vec x = v;
            b.i(x->local);
            b.i(x->x.size());
            for (double d : x->x) b.d(d);
            if (!written) return;
            for (auto& p : index) {
                b.i(p.second);
                for (int k = 0; k < 2; ++k) {
                    auto& t = const_cast<Base::Element*>(p.first)->getTimeIntegrationVector(k);
                    b.i(t.size());
                    for (std::size_t i = 0; i < t.size(); ++i) b.d(t[i]);
                }
            }
        };
        show(true, false);
        std::size_t left = sc.ops.size();
        for (int op : sc.ops) {
            w.advance(sc, st, op);
            if (op == V_LAYOUT || op == V_SELECTION || op == V_EMPTY) reset();
            if (op == V_NEW || op == V_SELECTION) localVectors(sc, st);
            std::size_t one = w.sub()[st.rowSel].back();
            switch (op) {
                case V_AGAIN:
                case V_NEW:
                    v.assemble();
                    break;
                case V_FROM:
                    v.constructFromTimeIntegrationVector(0);
                    break;
                case V_FROM1:
                    v.constructFromTimeIntegrationVector(0, one);
                    break;
                case V_TO:
                    v.writeTimeIntegrationVector(1);
                    break;
                case V_TO1:
                    v.writeTimeIntegrationVector(1, one);
                    break;
                default:
                    v.reinit();
            }
            show(op == V_LAYOUT || op == V_SELECTION, !--left);
        }
    }
};
// every history of selections and elements or faces given to the local numberings
template <std::size_t DIM>
void localNumberings(Proc<DIM>& p) {
    const std::size_t U = p.w.s->basis.size(), none = std::numeric_limits<std::size_t>::max();
    std::vector<const Base::Element*> elems{nullptr};
    std::vector<const Base::Face*> faces{nullptr};
    std::set<std::vector<int>> seen;
    for (auto& e : p.index) {
        if (seen.insert({p.w.m->elems[e.second].shape}).second || elems.size() < 3) elems.push_back(e.first);
    }
    for (auto* f : p.mesh.getFacesList())
        if (seen.insert({p.w.m->elems[p.index[f->getPtrElementLeft()]].shape, f->isInternal() ? p.w.m->elems[p.index[f->getPtrElementRight()]].shape : -1}).second) faces.push_back(f);
    std::vector<Sel> sels;
    for (unsigned k = 0; k < (1u << U); ++k) {
        sels.push_back({});
        for (std::size_t u = 0; u < U; ++u)
            if (k >> u & 1) sels.back().insert(k % 2 ? sels.back().begin() : sels.back().end(), u);  // in any order
    }
    auto size = [&](const Base::Element* e, const Sel& s, std::size_t u) { return e && std::count(s.begin(), s.end(), u) ? p.dofs(e, {u}).size() : 0; };
    auto total = [&](const Base::Element* e, const Sel& s) {
        std::size_t r = 0;
        for (auto u : s) r += size(e, s, u);
        return r;
    };
    auto offset = [&](const Base::Element* e, const Sel& s, std::size_t u) {
        if (!e || !std::count(s.begin(), s.end(), u)) return none;
        std::size_t r = 0;
        for (auto v : s)
            if (v < u) r += size(e, s, v);
        return r;
    };
    int depth = mc::tier(3, 4), histories = 0;
    std::size_t ne = elems.size() + sels.size(), nf = faces.size() + sels.size();
    std::vector<int> ops;
    auto told = [&] {
        std::string r = " after";
        for (int o : ops) r += mc::str(" ", o);
        return r;
    };
    std::function<void()> walk = [&] {
        for (int full = 0; full < 2; ++full) {  // a new one or one for all unknowns
            auto x = full ? Utilities::ElementLocalIndexing::createFullIndexing(U) : Utilities::ElementLocalIndexing();
            const Base::Element* e = nullptr;
            Sel s;
            if (full) s = sels.back();
            for (int o : ops) {
                if (std::size_t(o) < elems.size())
                    x.reinit(e = elems[o]);
                else
                    x.reinit(s = sels[o - elems.size()]);
            }
            x.validateInternalState();
            mc::require(x.getElement() == e && x.getNumberOfDoFs() == total(e, s), "element numbering", told(), ": ", x.getNumberOfDoFs(), " functions instead of ", total(e, s));
            for (std::size_t u = 0; u <= U; ++u)
                mc::require(x.getNumberOfDoFs(u) == size(e, s, u) && x.getDoFOffset(u) == offset(e, s, u), "element numbering", told(), ": unknown ", u, " has ", x.getNumberOfDoFs(u), " functions from ", x.getDoFOffset(u), " instead of ", size(e, s, u), " from ", offset(e, s, u));
            ++histories;
        }
        if (int(ops.size()) == depth) return;
        for (std::size_t o = 0; o < ne; ++o) {
            ops.push_back(o);
            walk();
            ops.pop_back();
        }
    };
    walk();
    walk = [&] {
        Utilities::FaceLocalIndexing x;
        const Base::Face* f = nullptr;
        Sel s;
        for (int o : ops) {
            if (std::size_t(o) < faces.size())
                x.reinit(f = faces[o]);
            else
                x.reinit(s = sels[o - faces.size()]);
        }
        const Base::Element* side[2] = {f ? f->getPtrElementLeft() : nullptr, f && f->isInternal() ? f->getPtrElementRight() : nullptr};
        std::size_t n = 0;
        for (int k = 0; k < 2; ++k) {
            auto name = k ? Base::Side::RIGHT : Base::Side::LEFT;
            mc::require(x.getNumberOfDoFs(name) == total(side[k], s), "face numbering", told(), ": ", x.getNumberOfDoFs(name), " functions on side ", k, " instead of ", total(side[k], s));
            if (k == 0 || side[1])
                for (std::size_t u = 0; u <= U; ++u) {
                    std::size_t w = offset(side[k], s, u);
                    if (w != none) w += n;
                    mc::require(x.getNumberOfDoFs(u, name) == size(side[k], s, u) && x.getDoFOffset(u, name) == w, "face numbering", told(), ": unknown ", u, " has ", x.getNumberOfDoFs(u, name), " functions from ", x.getDoFOffset(u, name),
                                " on side ", k, " instead of ", size(side[k], s, u), " from ", w);
                }
            n += total(side[k], s);
        }
        mc::require(x.getNumberOfDoFs() == n && x.getFace() == f, "face numbering", told(), ": ", x.getNumberOfDoFs(), " functions instead of ", n);
        for (std::size_t u = 0; u <= U; ++u) {
            std::vector<std::size_t> map{77, 88, 99}, want;
            x.getDoFMapping(u, map);
            for (int k = 0; k < 2; ++k)
                for (std::size_t i = 0; i < size(side[k], s, u); ++i) want.push_back(offset(side[k], s, u) + i + (k ? total(side[0], s) : 0));
            mc::require(map == want, "face numbering", told(), ": wrong positions for unknown ", u);
        }
        ++histories;
        if (int(ops.size()) == depth) return;
        for (std::size_t o = 0; o < nf; ++o) {
            ops.push_back(o);
            walk();
            ops.pop_back();
        }
    };
    walk();
    p.b.i(histories);
}
template <std::size_t DIM>
std::string body(const std::string& fn, const World& w, const std::vector<Script>& scripts) {
    Base::ConfigurationData config(w.s->basis.size(), 1);
    Base::MeshManipulator<DIM> mesh(&config);
    mesh.readMesh(fn);
    for (std::size_t u = 0; u < w.s->basis.size(); ++u) {
        int o = w.s->basis[u];
        if (o >= 10)
            u ? mesh.useDefaultConformingBasisFunctions(o - 10, u) : mesh.useDefaultConformingBasisFunctions(o - 10);
        else
            u ? mesh.useDefaultDGBasisFunctions(o, u) : mesh.useDefaultDGBasisFunctions(o);
    }
    Proc<DIM> p(w, mesh);
    p.sizes();
    if (scripts.empty()) localNumberings(p);
    for (auto& s : scripts) {
        p.b.i(424242);
        s.matrix ? p.runMatrix(s) : p.runVector(s);
    }
    return p.b.s;
}
// ---- the comparison of all processes
struct Checker {
    const World& w;
    std::vector<dist::Blob> bs;
    std::vector<std::size_t> count;  // elements per process
    std::map<std::array<int, 3>, int> size;
    std::vector<std::vector<std::pair<int, int>>> ents;
    Checker(const World& ww, const std::vector<std::string>& res) : w(ww), ents(ww.m->elems.size()) {
        auto& m = *w.m;
        for (std::size_t e = 0; e < ents.size(); ++e) {
            ents[e].push_back({0, int(e)});
            for (int f : m.elemFaces[e]) ents[e].push_back({1, f});
            for (int f : m.elemEdges[e]) ents[e].push_back({2, f});
            if (m.dim > 1)
                for (auto& f : m.elemNodes[e]) ents[e].push_back({3, f.first});
        }
        for (auto& r : res) {
            bs.emplace_back(r);
            auto& b = bs.back();
            count.push_back(b.gi());
            for (std::size_t k = 0; k < count.back(); ++k) {
                int e = b.gi();
                for (std::size_t u = 0; u < w.s->basis.size(); ++u)
                    for (auto& x : ents[e]) {
                        int n = b.gi();
                        auto it = size.emplace(std::array<int, 3>{{x.first, x.second, int(u)}}, n);
                        mc::require(it.first->second == n, "processes disagree about the number of functions of an entity");
                    }
            }
        }
    }
    std::vector<Key> dofs(int e, const Sel& sel) const {
        std::vector<Key> r;
        for (auto u : sel)
            for (auto& x : ents[e])
                for (int i = 0; i < size.at({{x.first, x.second, int(u)}}); ++i) r.push_back({x.first, x.second, int(u), i});
        return r;
    }
    std::map<Key, int> readIndices(const Sel& sel) {
        std::map<Key, int> at;
        for (std::size_t p = 0; p < bs.size(); ++p)
            for (std::size_t k = 0; k < count[p]; ++k) {
                int e = bs[p].gi();
                for (auto u : sel)
                    for (auto& x : ents[e]) {
                        int g = bs[p].gi();
                        for (int i = 0; i < size.at({{x.first, x.second, int(u)}}); ++i) {
                            auto it = at.emplace(Key{x.first, x.second, int(u), i}, g + i);
                            mc::require(it.first->second == g + i, "processes disagree about a global index");
                        }
                    }
            }
        std::set<int> used;
        for (auto& x : at) mc::require(used.insert(x.second).second && x.second >= 0 && x.second < int(at.size()), "global index ", x.second, " is not a valid numbering");
        return at;
    }
    void matrix(const Script& sc) {
        State st = sc.start;
        matrixState(sc, st, "after construction", true);
        bcEntries(st, row);
        for (std::size_t i = 0; i < sc.ops.size(); ++i) {
            w.advance(sc, st, sc.ops[i]);
            static const char* names[] = {"assembling again", "assembling new local matrices", "another numbering", "another selection of unknowns", "other couplings", "removing the mesh"};
            matrixState(sc, st, mc::str("step ", i + 1, " (", names[sc.ops[i]], ")"), sc.ops[i] == M_LAYOUT || sc.ops[i] == M_SELECTION);
        }
    }
    std::map<Key, int> row, col;
    void matrixState(const Script& sc, const State& st, const std::string& when, bool renumbered) {
        const Sel &rs = w.sub()[st.rowSel], &cs = w.sub()[st.colSel];
        auto& m = *w.m;
        if (st.null) {
            row.clear();
            col.clear();
        } else if (renumbered) {
            row = readIndices(rs);
            col = sc.mode ? readIndices(cs) : row;
        }
        std::map<std::pair<int, int>, double> want, have;
        if (!st.null) {
            if (sc.elems)
                for (std::size_t e = 0; e < ents.size(); ++e) {
                    auto r = dofs(e, rs), c = dofs(e, cs);
                    for (auto& i : r)
                        for (auto& j : c) want[{row.at(i), col.at(j)}] += value({int(e), st.version, i.kind, i.ent, i.u, i.fn, j.kind, j.ent, j.u, j.fn});
                }
            if (sc.faces)
                for (std::size_t F = 0; F < m.faces.size(); ++F)
                    for (auto& a : m.faces[F])
                        for (auto& c : m.faces[F])
                            for (auto& i : dofs(a.first, rs))
                                for (auto& j : dofs(c.first, cs))
                                    if (w.couples(sc, st, i.u, j.u))
                                        want[{row.at(i), col.at(j)}] += value({int(F), a.first, c.first, st.version, 5, i.kind, i.ent, i.u, i.fn, j.kind, j.ent, j.u, j.fn});
        }
        std::vector<long> lr, lc;
        std::vector<std::vector<long>> diag, off;
        std::set<std::pair<int, int>> touched;
        for (std::size_t p = 0; p < bs.size(); ++p) {
            auto& b = bs[p];
            std::string type = b.gstr();
            lr.push_back(b.gi());
            lc.push_back(b.gi());
            long R = b.gi(), C = b.gi();
            bool done = b.gi();
            mc::require(R == long(row.size()) && C == long(col.size()), when, ": the matrix is ", R, " by ", C, " instead of ", row.size(), " by ", col.size());
            mc::require(st.null || done, when, ": process ", p, " has a matrix that is not assembled");
            for (auto* v : {&diag, &off}) {
                v->emplace_back(b.gi());
                for (auto& x : v->back()) x = b.gi();
            }
            long n = b.gi();
            for (long i = 0; i < n; ++i) {
                int r = b.gi(), c = b.gi();
                have[{r, c}] += b.gd();
                touched.insert({r, c});
            }
        }
        for (auto& x : have)
            if (x.second != 0 && !want.count(x.first)) mc::fail(mc::str(when, ": entry (", x.first.first, ",", x.first.second, ") is ", x.second, " but no local matrix contributes to it"));
        for (auto& x : want) {
            auto it = have.find(x.first);
            double v = it == have.end() ? 0. : it->second;
            mc::require(v == x.second, when, ": entry (", x.first.first, ",", x.first.second, ") is ", v, " instead of ", x.second);
        }
        mc::step(want.size());
        // room for every entry in the rows of its owner
        if (!st.null && (bs.size() == 1 || (st.rowLayout != 2 && st.colLayout != 2))) {
            std::vector<std::array<long, 2>> n(row.size(), {{0, 0}});
            std::vector<int> rowOwner, colOwner;
            for (std::size_t p = 0; p < bs.size(); ++p) {
                rowOwner.insert(rowOwner.end(), lr[p], p);
                colOwner.insert(colOwner.end(), lc[p], p);
            }
            for (auto& t : touched) ++n[t.first][rowOwner[t.first] != colOwner[t.second]];
            long r = 0;
            for (std::size_t p = 0; p < bs.size(); ++p)
                for (long i = 0; i < lr[p]; ++i, ++r) {
                    mc::require(i < long(diag[p].size()) && n[r][0] <= diag[p][i], when, ": row ", r, " gets ", n[r][0], " entries of its own process, more than was reserved");
                    if (bs.size() > 1) mc::require(i < long(off[p].size()) && n[r][1] <= off[p][i], when, ": row ", r, " gets ", n[r][1], " entries of other processes, more than was reserved");
                }
        }
    }
    void bcEntries(const State& st, const std::map<Key, int>& row) {
        auto& m = *w.m;
        for (std::size_t p = 0; p < bs.size(); ++p) {
            auto& b = bs[p];
            long n = b.gi(), sum = 0;
            for (long k = 0; k < n; ++k) {
                int e = b.gi(), l = b.gi();
                long claimed = b.gi();
                std::multiset<int> have, want;
                long len = b.gi();
                for (long i = 0; i < len; ++i) have.insert(b.gi());
                auto& t = mg::table(m.elems[e].shape);
                auto& fn = t.faces[l];
                auto on = [&](int node) { return std::count(fn.begin(), fn.end(), node) > 0; };
                std::vector<std::pair<int, int>> list{{1, m.elemFaces[e][l]}};
                for (std::size_t d = 0; d < m.elemEdges[e].size(); ++d)
                    if (on(t.edges[d][0]) && on(t.edges[d][1])) list.push_back({2, m.elemEdges[e][d]});
                if (m.dim > 1)
                    for (int x : fn) list.push_back({3, m.elemNodes[e][x].first});
                for (auto u : w.sub()[st.rowSel])
                    for (auto& x : list)
                        for (int i = 0; i < size.at({{x.first, x.second, int(u)}}); ++i) want.insert(row.at({x.first, x.second, int(u), i}));
                mc::require(have == want && claimed == len, "process ", p, ": face ", l, " of element ", e, " has ", len, " (said to be ", claimed, ") boundary entries, expected ", want.size(), " or other ones");
                sum += len;
            }
            long total = b.gi(), all = b.gi();
            mc::require(total == sum && all == sum, "process ", p, ": the boundary entries of several faces are not accumulated");
        }
    }
    void vector(const Script& sc) {
        State st = sc.start;
        auto& m = *w.m;
        Sel all;
        for (std::size_t u = 0; u < w.s->basis.size(); ++u) all.push_back(u);
        std::map<Key, double> content;
        std::vector<std::vector<double>> tv1(ents.size());
        for (std::size_t e = 0; e < ents.size(); ++e)
            for (std::size_t i = 0; i < dofs(e, all).size(); ++i) tv1[e].push_back(100000 + 100 * int(e) + int(i));
        auto assemble = [&] {
            content.clear();
            if (st.null) return;
            const Sel& rs = w.sub()[st.rowSel];
            for (std::size_t e = 0; e < ents.size(); ++e)
                for (auto& r : dofs(e, rs)) content[r] += sc.elems ? value({int(e), st.version, 1, r.kind, r.ent, r.u, r.fn}) : 0.;
            if (sc.faces)
                for (std::size_t F = 0; F < m.faces.size(); ++F)
                    for (auto& a : m.faces[F])
                        for (auto& r : dofs(a.first, rs)) content[r] += value({int(F), a.first, st.version, 3, r.kind, r.ent, r.u, r.fn});
        };
        auto compare = [&](const std::string& when, bool renumbered, bool written) {
            if (!st.null && renumbered) row = readIndices(w.sub()[st.rowSel]);
            long local = 0;
            for (std::size_t p = 0; p < bs.size(); ++p) {
                auto& b = bs[p];
                local += b.gi();
                std::vector<double> x(b.gi());
                for (auto& d : x) d = b.gd();
                mc::require(x.size() == content.size(), when, ": the vector has ", x.size(), " entries instead of ", content.size());
                for (auto& c : content) {
                    double d = x[row.at(c.first)];
                    mc::require(d == c.second, when, ": entry ", row.at(c.first), " (kind ", c.first.kind, ", entity ", c.first.ent, ", unknown ", c.first.u, ", function ", c.first.fn, ") is ", d, " instead of ", c.second);
                }
                for (std::size_t k = 0; written && k < count[p]; ++k) {
                    int e = b.gi();
                    auto d = dofs(e, all);
                    for (int t = 0; t < 2; ++t) {
                        long n = b.gi();
                        mc::require(n == long(d.size()), when, ": element ", e, " has ", n, " coefficients instead of ", d.size());
                        for (long i = 0; i < n; ++i) {
                            double v = b.gd(), ref = t ? tv1[e][i] : value({st.version, 2, d[i].kind, d[i].ent, d[i].u, d[i].fn});
                            mc::require(v == ref, when, ": process ", p, ", element ", e, ", stored vector ", t, ": coefficient ", i, " (unknown ", d[i].u, ") is ", v, " instead of ", ref);
                        }
                    }
                }
            }
            mc::require(local == long(content.size()), when, ": the processes own ", local, " entries together");
            mc::step(content.size());
        };
        assemble();
        compare("after construction", true, false);
        for (std::size_t i = 0; i < sc.ops.size(); ++i) {
            int op = sc.ops[i];
            w.advance(sc, st, op);
            int one = w.sub()[st.rowSel].back();
            if (op == V_FROM || op == V_FROM1) {
                for (auto& c : content) c.second = op == V_FROM || c.first.u == one ? value({st.version, 2, c.first.kind, c.first.ent, c.first.u, c.first.fn}) : 0.;
            } else if (op == V_TO || op == V_TO1) {
                for (std::size_t e = 0; e < ents.size(); ++e) {
                    auto d = dofs(e, all);
                    for (std::size_t k = 0; k < d.size(); ++k)
                        if (content.count(d[k]) && (op == V_TO || d[k].u == one)) tv1[e][k] = content[d[k]];
                }
            } else
                assemble();
            static const char* names[] = {"assembling again",           "assembling new local vectors", "another numbering", "another selection of unknowns", "collecting all coefficients", "collecting the coefficients of one unknown",
                                          "writing all coefficients", "writing the coefficients of one unknown", "removing the mesh"};
            compare(mc::str("step ", i + 1, " (", names[op], ")"), op == V_LAYOUT || op == V_SELECTION, i + 1 == sc.ops.size());
        }
    }
};
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        const mg::Mesh& m = mc::pick(cat, "mesh");
        std::size_t n = m.elems.size();
        if (P > 1 && n > std::size_t(P == 2 ? mc::tier(m.dim == 3 ? 3 : 4, 5) : mc::tier(3, 4))) throw mc::Prune();
        if (n > std::size_t(mc::tier(m.dim == 3 ? 4 : 9, 100))) throw mc::Prune();
        mc::note(m.name);
        const Setup& s = mc::pick(setups, "setup");
        for (auto& e : m.elems)
            for (int o : s.basis)
                if (e.shape == mg::PYR && o > 11) throw mc::Prune();
        if (!mc::thorough() && m.dim == 3 && s.basis[0] == 13 && n > 2) throw mc::Prune();
        mc::note(s.name);
        World w{&m, &s, P};
        int what = mc::choose(P == 1 && n < 5 ? 3 : 2, "what");
        bool matrix = what == 0;
        mc::note(matrix ? "matrix" : what == 1 ? "vector" : "local numbering");
        int sel = what == 2 ? 0 : mc::choose(mc::thorough() ? w.sub().size() : std::min<std::size_t>(w.sub().size(), P == 3 || (P == 2 && n > 3) ? 1 : 2), "selection");
        auto part = mg::chooseParts(n, P);
        bool large = n > (m.dim == 3 ? 2 : 4);
        auto scripts = w.scripts(matrix, sel, mc::tier(P == 3 || ((large || m.dim == 3) && matrix) ? 1 : 2, large ? 2 : 3));
        if (what == 2) scripts.clear();
        m.write(fn, part, P);
        mcmpi::Options o;
        o.mode = (n + P) % 2;
        o.maxDeviations = 0;  // the orders of the messages of the numbering are explored for C02
        mcmpi::explore(
            P, o, [&](int) { return m.dim == 1 ? body<1>(fn, w, scripts) : m.dim == 2 ? body<2>(fn, w, scripts) : body<3>(fn, w, scripts); },
            [&](const std::vector<std::string>& res) {
                std::string all;
                for (auto& x : res) {
                    all += x;
                    mc::state(x);
                }
                mc::outcome(all);
                Checker c(w, res);
                if (scripts.empty()) mc::step(c.bs[0].gi());
                for (auto& sc : scripts) {
                    mc::count("histories");
                    for (auto& b : c.bs) mc::require(b.gi() == 424242, "harness: records out of step");
                    std::string what;
                    for (int op : sc.ops) what += mc::str(" ", op);
                    try {
                        sc.matrix ? c.matrix(sc) : c.vector(sc);
                    } catch (mc::Violation& v) {
                        throw mc::Violation{mc::str("kind ", sc.mode, sc.elems, sc.faces, ", operations", what, ": ", v.msg)};
                    }
                }
            });
    });
    unlink(fn.c_str());
    return rc;
}
