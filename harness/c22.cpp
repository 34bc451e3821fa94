// C22: element and face data are stored and returned without interference; local indices are bijections.
#include "meshgen.h"
#include "hp.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/FaceMatrix.h"
#include "Base/UserData.h"
#include <memory>
#include <unistd.h>
using namespace hpgem;
using Base::Side;
typedef LinearAlgebra::MiddleSizeVector Vec;
typedef LinearAlgebra::MiddleSizeMatrix Mat;
typedef Vec::type T;
template <class X>
struct Opt {
    bool has = false;
    X x = X();
    Opt& operator=(const X& o) { return has = true, x = o, *this; }
    explicit operator bool() const { return has; }
    X& operator*() { return x; }
};
static T fresh() {
    static long k = 0;
    return T(1000 + ++k);
}
// a stored number: unspecified until it is written or first read, afterwards it may not change
struct Cell {
    Opt<T> v;
    template <class... A>
    void see(T got, const A&... what) {
        if (!v)
            v = got;
        else if (!(*v == got))
            mc::fail(what..., ": holds ", got, " but ", *v, " was stored");
    }
};
typedef std::vector<Cell> Cells;
static Cells unset(std::size_t n) { return Cells(n); }
static Vec newVec(std::size_t n, Cells& c) {
    Vec r(n);
    c.assign(n, Cell());
    for (std::size_t i = 0; i < n; ++i) c[i].v = r[i] = fresh();
    return r;
}
struct MatCells {
    std::size_t r = 0, c = 0;
    Cells v;
};
static Mat newMat(std::size_t r, std::size_t c, MatCells& m) {
    Mat a(r, c);
    m.r = r, m.c = c, m.v.assign(r * c, Cell());
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) m.v[i * c + j].v = a(i, j) = fresh();
    return a;
}
static void seeMat(const Mat& a, MatCells& m, const std::string& what) {
    mc::require(a.getNumberOfRows() == m.r && a.getNumberOfColumns() == m.c, what, " is ", a.getNumberOfRows(), " by ", a.getNumberOfColumns(), " instead of ", m.r, " by ", m.c);
    for (std::size_t i = 0; i < m.r; ++i)
        for (std::size_t j = 0; j < m.c; ++j) m.v[i * m.c + j].see(a(i, j), what, " entry ", i, ",", j);
}
static void seeVec(const Vec& a, Cells& m, const std::string& what) {
    mc::require(a.size() == m.size(), what, " has ", a.size(), " entries instead of ", m.size());
    for (std::size_t i = 0; i < m.size(); ++i) m[i].see(a[i], what, " entry ", i);
}
// ---------------------------------------------------------------- face matrices on their own
struct FMRef {
    std::size_t n[2] = {0, 0};
    Cells v;  // (nL+nR)^2
    std::size_t N() const { return n[0] + n[1]; }
    Cell& at(std::size_t i, std::size_t j) { return v[i * N() + j]; }
};
static const Side sides[2] = {Side::LEFT, Side::RIGHT};
static void seeFM(const Base::FaceMatrix& m, FMRef& r, const std::string& what) {
    Base::FaceMatrix& w = const_cast<Base::FaceMatrix&>(m);
    for (int s = 0; s < 2; ++s) mc::require(m.getNumberOfDegreesOfFreedom(sides[s]) == r.n[s], what, ": ", m.getNumberOfDegreesOfFreedom(sides[s]), " degrees of freedom on side ", s, " instead of ", r.n[s]);
    std::size_t N = r.N();
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j) {
            int si = i >= r.n[0], sj = j >= r.n[0];
            std::size_t a = i - (si ? r.n[0] : 0), b = j - (sj ? r.n[0] : 0);
            r.at(i, j).see(w(i, j), what, " entry ", i, ",", j);
            r.at(i, j).see(w(sides[si], sides[sj], a, b), what, " entry ", i, ",", j, " by sides");
            r.at(i, j).see(m.getElementMatrix(sides[si], sides[sj])(a, b), what, " entry ", i, ",", j, " in its block");
            r.at(i, j).see(w.getElementMatrix(sides[si], sides[sj])(a, b), what, " entry ", i, ",", j, " in its block");
        }
    for (int si = 0; si < 2; ++si)
        for (int sj = 0; sj < 2; ++sj) {
            auto& b = m.getElementMatrix(sides[si], sides[sj]);
            mc::require(b.getNumberOfRows() == r.n[si] && b.getNumberOfColumns() == r.n[sj], what, ": block ", si, sj, " is ", b.getNumberOfRows(), " by ", b.getNumberOfColumns());
        }
    Mat entire = m.getEntireMatrix();
    mc::require(entire.getNumberOfRows() == N && entire.getNumberOfColumns() == N, what, ": entire matrix is ", entire.getNumberOfRows(), " by ", entire.getNumberOfColumns());
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j) r.at(i, j).see(entire(i, j), what, " entire matrix entry ", i, ",", j);
}
static Base::FaceMatrix newFM(std::size_t l, std::size_t r, FMRef& ref) {
    ref.n[0] = l, ref.n[1] = r;
    ref.v.assign((l + r) * (l + r), Cell());
    Base::FaceMatrix m(l, r);
    Mat e(l + r, l + r);
    for (std::size_t i = 0; i < l + r; ++i)
        for (std::size_t j = 0; j < l + r; ++j) ref.at(i, j).v = e(i, j) = fresh();
    m.setEntireMatrix(e);
    return m;
}
static void faceMatrices() {
    int hi = mc::tier(3, 4);
    std::size_t l = mc::choose(hi, "left"), r = mc::choose(hi, "right");
    FMRef a, b;
    Base::FaceMatrix A = newFM(l, r, a), B = newFM(l, r, b);
    seeFM(A, a, "first");
    int depth = mc::tier(3, 4);
    for (int step = 0; step < depth; ++step) {
        int op = mc::choose(12, "operation");
        mc::step();
        std::size_t N = a.N();
        auto pick2 = [&](std::size_t n) -> std::size_t { return n < 2 ? 0 : mc::choose(2, "index") * (n - 1); };
        switch (op) {
            case 0: {  // one entry by global index
                if (!N) throw mc::Prune();
                std::size_t i = pick2(N), j = pick2(N);
                T v = fresh();
                A(i, j) = v;
                a.at(i, j).v = v;
            } break;
            case 1: {  // one entry by sides
                int si = mc::choose(2, "side"), sj = mc::choose(2, "side");
                if (!a.n[si] || !a.n[sj]) throw mc::Prune();
                std::size_t i = a.n[si] - 1, j = a.n[sj] - 1;
                T v = fresh();
                A(sides[si], sides[sj], i, j) = v;
                a.at(i + (si ? a.n[0] : 0), j + (sj ? a.n[0] : 0)).v = v;
            } break;
            case 2: {  // one block
                int si = mc::choose(2, "side"), sj = mc::choose(2, "side");
                MatCells c;
                Mat m = newMat(a.n[si], a.n[sj], c);
                A.setElementMatrix(m, sides[si], sides[sj]);
                for (std::size_t i = 0; i < a.n[si]; ++i)
                    for (std::size_t j = 0; j < a.n[sj]; ++j) a.at(i + (si ? a.n[0] : 0), j + (sj ? a.n[0] : 0)).v = m(i, j);
            } break;
            case 3: {
                MatCells c;
                Mat m = newMat(N, N, c);
                A.setEntireMatrix(m);
                a.v = c.v;
            } break;
            case 4:
                if (a.n[0] != b.n[0] || a.n[1] != b.n[1]) throw mc::Prune();
                A += B;
                for (std::size_t k = 0; k < a.v.size(); ++k) a.v[k].v = *a.v[k].v + *b.v[k].v;
                break;
            case 5:
                A *= T(2);
                for (auto& c : a.v) c.v = *c.v * T(2);
                break;
            case 6:
                if (a.n[0] != b.n[0] || a.n[1] != b.n[1]) throw mc::Prune();
                A.axpy(T(4), B);
                for (std::size_t k = 0; k < a.v.size(); ++k) a.v[k].v = *a.v[k].v + T(4) * *b.v[k].v;
                break;
            case 7:
                A = B;
                a = b;
                break;
            case 8: {
                Base::FaceMatrix C(A);
                FMRef c = a;
                if (N) A(0, 0) = fresh(), a.at(0, 0).v = A(0, 0);
                seeFM(C, c, "copy after a change of the original");
                if (N) C(N - 1, N - 1) = fresh();
            } break;
            case 9: {
                std::size_t nl = mc::choose(3, "left"), nr = mc::choose(3, "right");
                A.resize(nl, nr);
                a.n[0] = nl, a.n[1] = nr;
                a.v = unset((nl + nr) * (nl + nr));
            } break;
            case 10:
                std::swap(A, B);
                std::swap(a, b);
                break;
            case 11: {  // through the reference to a block
                int si = mc::choose(2, "side"), sj = mc::choose(2, "side");
                if (!a.n[si] || !a.n[sj]) throw mc::Prune();
                T v = fresh();
                A.getElementMatrix(sides[si], sides[sj])(0, 0) = v;
                a.at(si ? a.n[0] : 0, sj ? a.n[0] : 0).v = v;
            } break;
        }
        seeFM(A, a, mc::str("after operation ", op));
        seeFM(B, b, mc::str("other matrix after operation ", op));
    }
    mc::outcome("face matrix");
}
// ---------------------------------------------------------------- data on a mesh
struct ElRef {
    std::vector<Opt<Cells>> level;
    std::vector<Cells> tiv;
    std::vector<MatCells> mats;
    std::vector<Cells> vecs;
    Base::UserData* user = nullptr;
    Base::Zone* zone = nullptr;
};
struct FaRef {
    std::vector<FMRef> mats;
    std::vector<Cells> vecs;
    Cells residue;
    Base::UserData* user = nullptr;
};
static std::size_t index(const Base::Element* e, std::size_t b, std::size_t u) {
    std::size_t o = b;
    for (std::size_t i = 0; i < u; ++i) o += e->getNumberOfBasisFunctions(i);
    return o;
}
static void seeElement(Base::Element* w, ElRef& r, const std::string& what) {
    const Base::Element* e = w;
    std::size_t total = e->getTotalNumberOfBasisFunctions(), U = e->getNumberOfUnknowns();
    for (std::size_t l = 0; l < r.level.size(); ++l) {
        if (!r.level[l]) continue;
        std::string s = mc::str(what, " time level ", l);
        seeVec(e->getTimeLevelDataVector(l), *r.level[l], s);
        seeVec(w->getTimeLevelDataVector(l), *r.level[l], s + " (writable)");
        for (std::size_t u = 0; u < U; ++u) {
            Vec sub = e->getTimeLevelData(l, u);
            mc::require(sub.size() == e->getNumberOfBasisFunctions(u), s, " unknown ", u, " has ", sub.size(), " coefficients");
            for (std::size_t b = 0; b < sub.size(); ++b) {
                Cell& c = (*r.level[l])[e->convertToSingleIndex(b, u)];
                c.see(sub[b], s, " unknown ", u, " function ", b);
                c.see(e->getData(l, u, b), s, " unknown ", u, " function ", b, " by getData");
            }
        }
    }
    mc::require(w->getNumberOfTimeIntegrationVectors() == r.tiv.size(), what, ": number of time integration vectors");
    for (std::size_t k = 0; k < r.tiv.size(); ++k) {
        std::string s = mc::str(what, " time integration vector ", k);
        if (r.tiv[k].size() != total) r.tiv[k] = unset(total);
        seeVec(e->getTimeIntegrationVector(k), r.tiv[k], s);
        seeVec(w->getTimeIntegrationVector(k), r.tiv[k], s);
        for (std::size_t u = 0; u < U; ++u) {
            Vec sub = e->getTimeIntegrationSubvector(k, u);
            mc::require(sub.size() == e->getNumberOfBasisFunctions(u), s, " unknown ", u, " has ", sub.size(), " coefficients");
            for (std::size_t b = 0; b < sub.size(); ++b) {
                Cell& c = r.tiv[k][e->convertToSingleIndex(b, u)];
                c.see(sub[b], s, " unknown ", u, " function ", b);
                c.see(e->getTimeIntegrationData(k, u, b), s, " unknown ", u, " function ", b, " by index");
            }
        }
    }
    for (std::size_t k = 0; k < r.mats.size(); ++k) {
        seeMat(e->getElementMatrix(k), r.mats[k], mc::str(what, " matrix ", k));
        seeMat(w->getElementMatrix(k), r.mats[k], mc::str(what, " matrix ", k));
    }
    for (std::size_t k = 0; k < r.vecs.size(); ++k) seeVec(e->getElementVector(k), r.vecs[k], mc::str(what, " vector ", k));
    mc::require(e->getUserData() == r.user, what, ": user data changed");
    mc::require(&e->getZone() == r.zone, what, ": zone changed");
}
static void seeFace(Base::Face* w, FaRef& r, const std::string& what) {
    const Base::Face* f = w;
    mc::require(f->getNumberOfFaceMatrices() == r.mats.size(), what, ": ", f->getNumberOfFaceMatrices(), " face matrices instead of ", r.mats.size());
    mc::require(f->getNumberOfFaceVectors() == r.vecs.size(), what, ": ", f->getNumberOfFaceVectors(), " face vectors instead of ", r.vecs.size());
    for (std::size_t k = 0; k < r.mats.size(); ++k) {
        seeFM(f->getFaceMatrix(k), r.mats[k], mc::str(what, " matrix ", k));
        seeFM(w->getFaceMatrix(k), r.mats[k], mc::str(what, " matrix ", k));
        Mat m = f->getFaceMatrixMatrix(k);
        for (std::size_t i = 0; i < r.mats[k].N(); ++i)
            for (std::size_t j = 0; j < r.mats[k].N(); ++j) r.mats[k].at(i, j).see(m(i, j), what, " matrix ", k, " as a plain matrix");
    }
    for (std::size_t k = 0; k < r.vecs.size(); ++k) seeVec(f->getFaceVector(k), r.vecs[k], mc::str(what, " vector ", k));
    seeVec(f->getResidue(), r.residue, what + " residue");
    mc::require(f->getUserData() == r.user, what, ": user data changed");
}
static mg::Mesh theMesh(int k) {
    mg::Mesh m;
    if (k == 0) {
        m.dim = 1;
        m.elems = {mg::box(1, mg::pt(0), mg::pt(2)), mg::box(1, mg::pt(2), mg::pt(2))};
    } else if (k == 1) {
        m.dim = 2;
        m.elems = {mg::box(2, mg::pt(0, 0), mg::pt(2, 2)), mg::mk(mg::TRI, {mg::pt(2, 0), mg::pt(4, 0), mg::pt(2, 2)})};
    } else if (k == 2) {
        m.dim = 2;
        m.elems = {mg::mk(mg::TRI, {mg::pt(2, 0), mg::pt(4, 0), mg::pt(2, 2)}), mg::box(2, mg::pt(0, 0), mg::pt(2, 2))};
    } else {
        m.dim = 3;
        m.elems = {mg::mk(mg::TET, {mg::pt(0, 0, 0), mg::pt(2, 0, 0), mg::pt(0, 2, 0), mg::pt(0, 0, 2)}), mg::mk(mg::TET, {mg::pt(2, 2, 2), mg::pt(2, 0, 0), mg::pt(0, 2, 0), mg::pt(0, 0, 2)})};
    }
    m.phi = mg::family(m.dim, 0);
    m.zones = {"one", "two"};
    m.derive();
    return m;
}
template <std::size_t DIM>
struct World {
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<Base::Element*> el;
    std::vector<Base::Face*> fa;
    World(const mg::Mesh& m, std::size_t unknowns, std::size_t levels, std::size_t nm, std::size_t nv, std::size_t fm, std::size_t fv) : config(unknowns, levels) {
        std::string fn = "c22-" + std::to_string(getpid()) + ".hpgem";
        m.write(fn, std::vector<int>(m.elems.size(), 0), 1, 0);
        mesh.reset(new Base::MeshManipulator<DIM>(&config, nm, nv, fm, fv));
        mesh->readMesh(fn);
        std::remove(fn.c_str());
        for (auto* e : mesh->getElementsList()) el.push_back(e);
        for (auto* f : mesh->getFacesList()) fa.push_back(f);
    }
};
static Base::UserData users[3];
template <std::size_t DIM>
static void histories(const mg::Mesh& m, int basis, int unknowns, int depth) {
    std::size_t pre = mc::choose(2, "preallocated");
    World<DIM> w(m, unknowns, 2, pre, pre, pre, pre);
    if (basis == 0)
        w.mesh->useDefaultDGBasisFunctions(1);
    else if (basis == 1) {
        w.mesh->useDefaultDGBasisFunctions(0);
        for (int u = 1; u < unknowns; ++u) w.mesh->useDefaultDGBasisFunctions(u == 1 ? 2 : 1, u);
    } else {
        w.mesh->useDefaultConformingBasisFunctions(2);
        for (int u = 1; u < unknowns; ++u) w.mesh->useDefaultDGBasisFunctions(u - 1, u);
    }
    std::vector<Base::Element*> el = w.el;
    Base::Face* inner = nullptr;
    Base::Face* outer = nullptr;
    for (auto* f : w.fa) (f->isInternal() ? inner : outer) = f;
    mc::require(inner && outer && el.size() == 2, "unexpected mesh");
    Base::Face* fa[2] = {inner, outer};
    std::vector<ElRef> er(2);
    FaRef fr[2];
    std::vector<std::unique_ptr<Base::Element>> copies;
    for (int i = 0; i < 2; ++i) {
        er[i].level.resize(2);
        er[i].mats.resize(pre);
        er[i].vecs.resize(pre);
        er[i].zone = &el[i]->getZone();
        fr[i].mats.resize(pre);
        fr[i].vecs.resize(pre);
    }
    auto nOf = [&](Base::Element* e, int u) { return e->getNumberOfBasisFunctions(u); };
    auto faceN = [&](int f, int s) -> std::size_t { return s == 0 ? fa[f]->getPtrElementLeft()->getTotalNumberOfBasisFunctions() : fa[f]->isInternal() ? fa[f]->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0; };
    if (mc::choose(2, "filled")) {
        for (int i = 0; i < 2; ++i) {
            for (int l = 0; l < 2; ++l) {
                Cells c;
                Vec v = newVec(el[i]->getTotalNumberOfBasisFunctions(), c);
                el[i]->setTimeLevelDataVector(l, v);
                er[i].level[l] = c;
            }
            el[i]->setNumberOfTimeIntegrationVectors(2);
            er[i].tiv.resize(2);
            for (int k = 0; k < 2; ++k) {
                Vec v = newVec(el[i]->getTotalNumberOfBasisFunctions(), er[i].tiv[k]);
                el[i]->setTimeIntegrationVector(k, v);
            }
            er[i].mats.resize(2), er[i].vecs.resize(2), fr[i].mats.resize(2), fr[i].vecs.resize(2);
            for (int k = 0; k < 2; ++k) {
                el[i]->setElementMatrix(newMat(2, 3, er[i].mats[k]), k);
                el[i]->setElementVector(newVec(3, er[i].vecs[k]), k);
                fa[i]->setFaceMatrix(newFM(faceN(i, 0), faceN(i, 1), fr[i].mats[k]), k);
                fa[i]->setFaceVector(newVec(2, fr[i].vecs[k]), k);
            }
            Vec res = newVec(3, fr[i].residue);
            fa[i]->setResidue(res);
        }
    }
    auto seeAll = [&](const std::string& when) {
        for (std::size_t i = 0; i < el.size(); ++i) seeElement(el[i], er[i], mc::str(when, ": element ", i));
        for (int i = 0; i < 2; ++i) {
            seeFace(fa[i], fr[i], mc::str(when, ": face ", i));
            // the concatenation of the two sides
            Base::Element* L = fa[i]->getPtrElementLeft();
            Base::Element* R = fa[i]->isInternal() ? fa[i]->getPtrElementRight() : nullptr;
            std::size_t n = L->getNumberOfTimeIntegrationVectors();
            if (R) n = std::min(n, R->getNumberOfTimeIntegrationVectors());
            for (std::size_t k = 0; k < n; ++k)
                for (int u = 0; u < unknowns; ++u) {
                    Vec v = fa[i]->getTimeIntegrationVector(k, u);
                    std::vector<T> want;
                    for (std::size_t b = 0; b < nOf(L, u); ++b) want.push_back(L->getTimeIntegrationData(k, u, b));
                    if (R)
                        for (std::size_t b = 0; b < nOf(R, u); ++b) want.push_back(R->getTimeIntegrationData(k, u, b));
                    mc::require(v.size() == want.size(), when, ": time integration vector ", k, " of a face has ", v.size(), " entries instead of ", want.size());
                    for (std::size_t b = 0; b < want.size(); ++b) mc::require(v[b] == want[b], when, ": time integration vector ", k, " of face ", i, " unknown ", u, " entry ", b, " is ", v[b], " instead of ", want[b]);
                }
        }
    };
    seeAll("at the start");
    for (int step = 0; step < depth; ++step) {
        int op = mc::choose(20, "operation");
        mc::step();
        auto element = [&] { return mc::choose(el.size(), "element"); };
        auto unknown = [&] { return mc::choose(unknowns, "unknown"); };
        auto ends = [&](std::size_t n) -> std::size_t { return n < 2 ? 0 : mc::choose(2, "index") * (n - 1); };
        auto level = [&](int i, int l) -> Cells& {
            if (!er[i].level[l]) er[i].level[l] = unset(el[i]->getTotalNumberOfBasisFunctions());
            return *er[i].level[l];
        };
        std::string when = mc::str("after operation ", op);
        if (op < 14) {
            int i = element();
            Base::Element* e = el[i];
            ElRef& r = er[i];
            std::size_t total = e->getTotalNumberOfBasisFunctions();
            switch (op) {
                case 0: {
                    int l = mc::choose(2, "level"), u = unknown();
                    std::size_t b = ends(nOf(e, u));
                    T v = fresh();
                    e->setData(l, u, b, v);
                    level(i, l)[index(e, b, u)].v = v;
                } break;
                case 1: {
                    int l = mc::choose(2, "level"), u = unknown();
                    Cells c;
                    Vec v = newVec(nOf(e, u), c);
                    e->setTimeLevelData(l, u, v);
                    for (std::size_t b = 0; b < c.size(); ++b) level(i, l)[index(e, b, u)] = c[b];
                } break;
                case 2: {  // all unknowns of equal size: sets the first unknown
                    for (int u = 1; u < unknowns; ++u)
                        if (nOf(e, u) != nOf(e, 0)) throw mc::Prune();
                    int l = mc::choose(2, "level");
                    Cells c;
                    Vec v = newVec(nOf(e, 0), c);
                    e->setTimeLevelData(l, v);
                    for (std::size_t b = 0; b < c.size(); ++b) level(i, l)[b] = c[b];
                } break;
                case 3: {
                    int l = mc::choose(2, "level");
                    Cells c;
                    Vec v = newVec(total, c);
                    e->setTimeLevelDataVector(l, v);
                    level(i, l) = c;
                    for (std::size_t k = 0; k < v.size(); ++k) v[k] = -1;
                } break;
                case 4: {
                    int l = mc::choose(2, "level");
                    std::size_t k = ends(total);
                    T v = fresh();
                    e->getTimeLevelDataVector(l)[k] = v;
                    level(i, l)[k].v = v;
                } break;
                case 5: {
                    std::size_t n = mc::choose(4, "number");
                    e->setNumberOfTimeIntegrationVectors(n);
                    r.tiv.resize(n, unset(total));
                } break;
                case 6: {
                    if (r.tiv.empty()) throw mc::Prune();
                    std::size_t k = mc::choose(r.tiv.size(), "vector");
                    Vec v = newVec(total, r.tiv[k]);
                    e->setTimeIntegrationVector(k, v);
                    for (std::size_t q = 0; q < v.size(); ++q) v[q] = -1;
                } break;
                case 7: {
                    if (r.tiv.empty()) throw mc::Prune();
                    std::size_t k = mc::choose(r.tiv.size(), "vector");
                    int u = unknown();
                    Cells c;
                    e->setTimeIntegrationSubvector(k, u, newVec(nOf(e, u), c));
                    for (std::size_t b = 0; b < c.size(); ++b) r.tiv[k][index(e, b, u)] = c[b];
                } break;
                case 8: {
                    if (r.tiv.empty()) throw mc::Prune();
                    std::size_t k = mc::choose(r.tiv.size(), "vector");
                    int u = unknown();
                    std::size_t b = ends(nOf(e, u));
                    T v = fresh();
                    e->setTimeIntegrationData(k, u, b, v);
                    r.tiv[k][index(e, b, u)].v = v;
                } break;
                case 9: {
                    std::size_t k = mc::choose(4, "matrix");
                    if (k >= r.mats.size()) r.mats.resize(k + 1);
                    std::size_t rows = 1 + mc::choose(2, "rows");
                    e->setElementMatrix(newMat(rows, 2, r.mats[k]), k);
                } break;
                case 10: {
                    std::size_t k = mc::choose(4, "vector");
                    if (k >= r.vecs.size()) r.vecs.resize(k + 1);
                    e->setElementVector(newVec(2, r.vecs[k]), k);
                } break;
                case 11: {
                    std::size_t k = 0;
                    while (k < r.mats.size() && r.mats[k].v.empty()) ++k;
                    if (k == r.mats.size()) throw mc::Prune();
                    T v = fresh();
                    e->getElementMatrix(k)(0, 0) = v;
                    r.mats[k].v[0].v = v;
                } break;
                case 12: {
                    int c = mc::choose(3, "user data or zone");
                    if (c < 2) {
                        r.user = c == 0 ? &users[i] : nullptr;
                        e->setUserData(r.user);
                    } else {
                        auto& zs = w.mesh->getZones();
                        r.zone = zs[0].get() == r.zone ? zs[1].get() : zs[0].get();
                        e->setZone(*r.zone);
                    }
                } break;
                case 13: {
                    Base::Element* c = e->copyWithoutFacesEdgesNodes();
                    copies.emplace_back(c);
                    mc::require(c->getNumberOfUnknowns() == (std::size_t)unknowns && c->getTotalNumberOfBasisFunctions() == total, "a copied element has other basis functions");
                    for (int u = 0; u < unknowns; ++u) mc::require(nOf(c, u) == nOf(e, u), "a copied element has other basis functions");
                    ElRef copy = r;
                    el.push_back(c);
                    er.push_back(copy);
                } break;
            }
        } else {
            int i = mc::choose(2, "face");
            Base::Face* f = fa[i];
            FaRef& r = fr[i];
            std::size_t nl = faceN(i, 0), nr = faceN(i, 1);
            switch (op) {
                case 14: {
                    std::size_t k = mc::choose(4, "matrix");
                    if (k >= r.mats.size()) r.mats.resize(k + 1);
                    Base::FaceMatrix fm = newFM(nl, nr, r.mats[k]);
                    f->setFaceMatrix(fm, k);
                    if (nl) fm(0, 0) = -1;
                } break;
                case 15: {  // the plain-matrix form splits evenly
                    std::size_t k = mc::choose(3, "matrix"), n = 1 + mc::choose(4, "size");
                    if (k >= r.mats.size()) r.mats.resize(k + 1);
                    MatCells c;
                    Mat mat = newMat(n, n, c);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
                    f->setFaceMatrix(mat, k);
#pragma GCC diagnostic pop
                    r.mats[k].n[0] = n / 2, r.mats[k].n[1] = n - n / 2;
                    r.mats[k].v = c.v;
                } break;
                case 16: {
                    std::size_t k = 0;
                    while (k < r.mats.size() && r.mats[k].v.empty()) ++k;
                    if (k == r.mats.size()) throw mc::Prune();
                    T v = fresh();
                    std::size_t q = r.mats[k].N() - 1;
                    f->getFaceMatrix(k)(q, 0) = v;
                    r.mats[k].at(q, 0).v = v;
                } break;
                case 17: {
                    std::size_t k = mc::choose(4, "vector");
                    if (k >= r.vecs.size()) r.vecs.resize(k + 1);
                    std::size_t n = 1 + mc::choose(3, "size");
                    f->setFaceVector(newVec(n, r.vecs[k]), k);
                } break;
                case 18: {
                    Vec v = newVec(1 + mc::choose(2, "size"), r.residue);
                    f->setResidue(v);
                    v[0] = -1;
                } break;
                case 19:
                    r.user = mc::choose(2, "user data") ? &users[2] : nullptr;
                    f->setUserData(r.user);
                    break;
            }
        }
        seeAll(when);
    }
    mc::outcome("data");
}
// ---------------------------------------------------------------- local indices
template <std::size_t DIM>
static void checkIndices(World<DIM>& w, int unknowns) {
    for (auto* e : w.el) {
        std::set<std::size_t> seen;
        std::size_t total = 0;
        for (int u = 0; u < unknowns; ++u) {
            std::size_t n = e->getNumberOfBasisFunctions(u);
            total += n;
            for (std::size_t b = 0; b < n; ++b) {
                mc::step();
                std::size_t k = e->convertToSingleIndex(b, u);
                mc::require(seen.insert(k).second, "element: two (unknown, function) pairs share the index ", k);
            }
            // element, faces, edges and nodes partition the functions of one unknown
            std::vector<int> owner(n, 0);
            auto range = [&](std::size_t from, std::size_t count, const char* kind) {
                for (std::size_t k = from; k < from + count; ++k) {
                    mc::require(k < n, "the functions of a ", kind, " end at ", k, " of ", n);
                    ++owner[k];
                }
            };
            range(0, e->getLocalNumberOfBasisFunctions(u), "element interior");
            for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) {
                range(e->getBasisFunctionOffset(e->getFace(f), u), e->getFace(f)->getLocalNumberOfBasisFunctions(u), "face");
                mc::require(e->getFaceBasisFunctionOffset(f, u) == e->getBasisFunctionOffset(e->getFace(f), u), "two offsets for one face");
            }
            for (std::size_t f = 0; f < e->getNumberOfEdges(); ++f) range(e->getBasisFunctionOffset(e->getEdge(f), u), e->getEdge(f)->getLocalNumberOfBasisFunctions(u), "edge");
            if (DIM > 1)
                for (std::size_t f = 0; f < e->getNumberOfNodes(); ++f) range(e->getBasisFunctionOffset(e->getNode(f), u), e->getNode(f)->getLocalNumberOfBasisFunctions(u), "node");
            for (std::size_t k = 0; k < n; ++k) mc::require(owner[k] == 1, "function ", k, " of unknown ", u, " belongs to ", owner[k], " of the element, its faces, edges and nodes");
        }
        mc::require(e->getTotalNumberOfBasisFunctions() == total, "the total number of functions is not the sum over the unknowns");
        mc::require(seen.size() == total && (seen.empty() || *seen.rbegin() + 1 == total), "element: the indices do not fill 0..", total - 1);
    }
    for (auto* f : w.fa) {
        std::set<std::size_t> seen;
        std::size_t total = 0;
        for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
            const Base::Element* e = f->getPtrElement(sides[s]);
            total += e->getTotalNumberOfBasisFunctions();
            for (int u = 0; u < unknowns; ++u)
                for (std::size_t b = 0; b < e->getNumberOfBasisFunctions(u); ++b) {
                    mc::step();
                    std::size_t k = f->convertToSingleIndex(sides[s], b, u);
                    mc::require(seen.insert(k).second, "face: two (side, unknown, function) triples share the index ", k);
                    mc::require(f->getSide(k) == sides[s], "face index ", k, " of side ", s, " is attributed to the other side");
                    mc::require(f->getElementBasisFunctionId(k) == e->convertToSingleIndex(b, u), "face index ", k, " refers to element index ", f->getElementBasisFunctionId(k), " instead of ", e->convertToSingleIndex(b, u));
                }
        }
        mc::require(seen.size() == total && (seen.empty() || *seen.rbegin() + 1 == total), "face: the indices do not fill 0..", total - 1);
        for (int u = 0; u < unknowns; ++u) {
            std::size_t want = f->getPtrElementLeft()->getNumberOfBasisFunctions(u) + (f->isInternal() ? f->getPtrElementRight()->getNumberOfBasisFunctions(u) : 0);
            mc::require(f->getNumberOfBasisFunctions(u) == want, "face: ", f->getNumberOfBasisFunctions(u), " functions instead of ", want);
        }
    }
}
template <std::size_t DIM>
static void assign(World<DIM>& w, int what, int unknown) {
    switch (what) {
        case 0: w.mesh->useDefaultDGBasisFunctions(0, unknown); break;
        case 1: w.mesh->useDefaultDGBasisFunctions(2, unknown); break;
        case 2: w.mesh->useDefaultConformingBasisFunctions(1, unknown); break;
        case 3: w.mesh->useDefaultConformingBasisFunctions(DIM == 3 ? 3 : 4, unknown); break;
    }
}
template <std::size_t DIM>
static void indices(const mg::Mesh& m) {
    int unknowns = 1 + mc::choose(3, "unknowns");
    World<DIM> w(m, unknowns, 1, 0, 0, 0, 0);
    switch (mc::choose(4, "first basis")) {
        case 0: w.mesh->useDefaultDGBasisFunctions(0); break;
        case 1: w.mesh->useDefaultDGBasisFunctions(2); break;
        case 2: w.mesh->useDefaultConformingBasisFunctions(1); break;
        case 3: w.mesh->useDefaultConformingBasisFunctions(DIM == 3 ? 3 : 4); break;
    }
    checkIndices(w, unknowns);
    int more = mc::choose(unknowns > 1 ? mc::tier(4, 5) : 1, "changes");
    for (int k = 0; k < more; ++k) {
        int u = unknowns > 2 ? 1 + mc::choose(2, "unknown") : 1;
        assign(w, mc::choose(4, "basis"), u);
        checkIndices(w, unknowns);
    }
    mc::outcome("indices");
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    return mc::run([&] {
        switch (mc::choose(3, "part")) {
            case 0: faceMatrices(); break;
            case 1: {
                int k = mc::choose(4, "mesh");
                auto m = theMesh(k);
                if (m.dim == 1) indices<1>(m);
                if (m.dim == 2) indices<2>(m);
                if (m.dim == 3) indices<3>(m);
            } break;
            case 2: {
                int k = mc::choose(3, "mesh"), basis = mc::choose(3, "basis"), unknowns = 1 + mc::choose(3, "unknowns");
                int depth = unknowns == 2 && k < 2 ? 2 : 1;
                if (mc::thorough()) depth = k == 1 && basis == 1 && unknowns == 2 ? 3 : 2;
                auto m = theMesh(k);
                mc::note(mc::str("mesh ", k, " basis ", basis, " unknowns ", unknowns));
                if (m.dim == 1) histories<1>(m, basis, unknowns, depth);
                if (m.dim == 2) histories<2>(m, basis, unknowns, depth);
            } break;
        }
    });
}
