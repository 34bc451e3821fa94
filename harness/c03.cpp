// C03: ghost synchronisation and the MPI wrappers deliver exactly the data of the owner/root.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
#include "Base/HpgemAPIBase.h"
#include "Base/GlobalData.h"
#include "Base/MpiContainer.h"
using namespace hpgem;
typedef LinearAlgebra::MiddleSizeVector Vec;
struct Cfg {
    std::vector<int> basis;  // order per unknown, +10: conforming
    const char* name;
};
static const std::vector<Cfg> cfgs = {{{1}, "DG1"}, {{2, 0}, "DG2, DG0"}, {{0}, "DG0"}, {{11, 1}, "conforming 1, DG1"}};
static const int NV = 3;
// operations: >=0 synchronise that vector; -1 change the owned data of all vectors; -2 change the ghost copies of all vectors
static const std::vector<std::vector<int>> histories = {{0}, {2}, {1, 1}, {0, 2, 1}, {0, -1, 0}, {1, -2, 1}, {2, -1, 0, -2, 2}};

template <std::size_t DIM>
struct Api : Base::HpgemAPIBase<DIM> {
    Api(std::size_t unknowns) : Base::HpgemAPIBase<DIM>(new Base::GlobalData, new Base::ConfigurationData(unknowns, 1)) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
};
inline double value(int rank, long id, int v, int step, std::size_t i) { return rank + 1 + 10. * v + 100. * step + 10000. * id + i / 64.; }

template <std::size_t DIM>
std::string body(const std::string& fn, const Cfg& c, const std::vector<int>& hist) {
    int rank = mcmpi::rank();
    Api<DIM> api(c.basis.size());
    api.addMesh(fn);
    auto& mesh = api.mesh();
    for (std::size_t u = 0; u < c.basis.size(); ++u) {
        int o = c.basis[u];
        if (o >= 10)
            u == 0 ? mesh.useDefaultConformingBasisFunctions(o - 10) : mesh.useDefaultConformingBasisFunctions(o - 10, u);
        else
            u == 0 ? mesh.useDefaultDGBasisFunctions(o) : mesh.useDefaultDGBasisFunctions(o, u);
    }
    api.setNumberOfTimeIntegrationVectorsGlobally(NV);
    dist::Blob b;
    dist::capture(mesh, b);
    auto fill = [&](bool owned, int step) {
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            if (e->isOwnedByCurrentProcessor() != owned) continue;
            for (int v = 0; v < NV; ++v) {
                Vec& x = e->getTimeIntegrationVector(v);
                for (std::size_t i = 0; i < x.size(); ++i) x[i] = value(owned ? rank : rank + 50, e->getID(), v, step, i);
            }
        }
    };
    auto dump = [&] {
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            b.i(e->getID());
            for (int v = 0; v < NV; ++v) {
                const Vec& x = e->getTimeIntegrationVector(v);
                b.i(x.size());
                for (std::size_t i = 0; i < x.size(); ++i) b.d(std::real(x[i]));
            }
        }
    };
    int step = 0;
    fill(true, step);
    fill(false, step);
    dump();
    for (int op : hist) {
        ++step;
        if (op == -1)
            fill(true, step);
        else if (op == -2)
            fill(false, step);
        else
            api.synchronize(op);
        dump();
    }
    return b.s;
}
void check(const mg::Mesh& m, int P, const std::vector<int>& hist, const std::vector<std::string>& res) {
    std::vector<dist::Blob> bs;
    std::vector<dist::View> vs;
    for (auto& r : res) {
        bs.emplace_back(r);
        vs.push_back(dist::parse(bs.back()));
    }
    for (int p = 0; p < P; ++p)
        for (auto& e : vs[p].elems) e.mesh = dist::findElement(m, e.x);
    typedef std::vector<double> D;
    // model[p][mesh element][vector]
    std::vector<std::map<int, std::vector<D>>> model(P), now(P);
    auto read = [&] {
        for (int p = 0; p < P; ++p) {
            now[p].clear();
            for (std::size_t k = 0; k < vs[p].elems.size(); ++k) {
                long id = bs[p].gi();
                auto& t = now[p][vs[p].elems[vs[p].byId.at(id)].mesh];
                for (int v = 0; v < NV; ++v) {
                    D x(bs[p].gi());
                    for (auto& y : x) y = bs[p].gd();
                    t.push_back(x);
                }
            }
        }
    };
    std::vector<int> owner(m.elems.size(), -1);
    for (int p = 0; p < P; ++p)
        for (auto& e : vs[p].elems)
            if (e.owned) owner[e.mesh] = p;
    read();
    model = now;
    int step = 0;
    for (int op : hist) {
        ++step;
        read();
        for (int p = 0; p < P; ++p)
            for (auto& e : vs[p].elems)
                for (int v = 0; v < NV; ++v) {
                    auto& x = model[p][e.mesh][v];
                    if (op < 0) {
                        if (e.owned == (op == -1))
                            for (std::size_t i = 0; i < x.size(); ++i) x[i] = value(e.owned ? p : p + 50, e.id, v, step, i);
                    } else if (v == op && !e.owned)
                        x = model[owner[e.mesh]][e.mesh][v];
                }
        for (int p = 0; p < P; ++p)
            for (auto& e : vs[p].elems)
                for (int v = 0; v < NV; ++v)
                    mc::require(now[p][e.mesh][v] == model[p][e.mesh][v], "step ", step, " (operation ", op, "): process ", p, ", element ", e.mesh,
                                e.owned ? " (owned)" : " (ghost)", ", vector ", v, " does not hold the expected data");
    }
}

// the wrappers: every root, operation and payload
template <class T>
T val(int rank, int i) {
    return T((rank + 2) * (i % 3 + 1) + (rank == 1 ? -7 : 0));
}
template <>
std::complex<double> val(int rank, int i) {
    return {double(rank + 2 + i), double(i - rank)};
}
template <class T>
bool same(const T& a, const T& b) {
    return a == b;
}
static std::string wrappers(int P, int root, int len, int kind, int order) {
    auto& c = Base::MPIContainer::Instance();
    int me = c.getProcessorID();
    if (me != mcmpi::rank() || c.getNumberOfProcessors() != P) mc::fail("MPIContainer reports rank ", me, " of ", c.getNumberOfProcessors());
    if (kind == 0) {  // broadcast
        std::vector<double> v(len);
        for (int i = 0; i < len; ++i) v[i] = val<double>(me, i);
        c.broadcast(v, root);
        for (int i = 0; i < len; ++i) mc::require(v[i] == val<double>(root, i), "broadcast of a vector from ", root, " gave ", v[i]);
        std::size_t s = val<std::size_t>(me, 4);
        c.broadcast(s, root);
        mc::require(s == val<std::size_t>(root, 4), "broadcast of a scalar from ", root, " gave ", s);
        std::complex<double> z = val<std::complex<double>>(me, 1);
        c.broadcast(z, root);
        mc::require(z == val<std::complex<double>>(root, 1), "broadcast of a complex number gave ", z);
    } else if (kind == 1) {  // reduce
        int which = 0;
        for (MPI_Op op : {MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD}) {
            auto expect = [&](auto zero, int i) {
                typedef decltype(zero) T;
                T r = val<T>(0, i);
                for (int p = 1; p < P; ++p) {
                    T x = val<T>(p, i);
                    r = which == 0 ? r + x : which == 1 ? std::max(r, x) : which == 2 ? std::min(r, x) : r * x;
                }
                return r;
            };
            std::vector<double> v(len);
            for (int i = 0; i < len; ++i) v[i] = val<double>(me, i);
            c.reduce(v, op, root);
            if (me == root)
                for (int i = 0; i < len; ++i) mc::require(v[i] == expect(0., i), "reduction ", which, " of a vector to ", root, " gave ", v[i]);
            int s = val<int>(me, 3);
            c.reduce(s, op, root);
            if (me == root) mc::require(s == expect(0, 3), "reduction ", which, " of a scalar to ", root, " gave ", s);
            ++which;
        }
    } else {  // point to point, everyone to everyone, receives posted before or after the sends
        std::vector<std::vector<double>> out(P), in(P);
        std::vector<std::size_t> so(P), si(P);
        std::vector<std::complex<double>> zo(P), zi(P);
        auto sends = [&] {
            for (int q = 0; q < P; ++q) {
                if (q == me) continue;
                out[q].resize(len);
                for (int i = 0; i < len; ++i) out[q][i] = val<double>(me, i) + 100 * q;
                so[q] = me * 10 + q;
                zo[q] = {double(me), double(q)};
                c.send(out[q], q, 3);
                c.send(so[q], q, 4);
                c.send(zo[q], q, 5 + root);
            }
        };
        auto recvs = [&] {
            for (int k = 0; k < P; ++k) {
                int q = order & 2 ? P - 1 - k : k;
                if (q == me) continue;
                in[q].assign(len, -1);
                c.receive(zi[q], q, 5 + root);
                c.receive(si[q], q, 4);
                c.receive(in[q], q, 3);
            }
        };
        for (int round = 0; round < 2; ++round) {
            if (order & 1) {
                sends();
                recvs();
            } else {
                recvs();
                sends();
            }
            c.sync();
            for (int q = 0; q < P; ++q) {
                if (q == me) continue;
                for (int i = 0; i < len; ++i) mc::require(in[q][i] == val<double>(q, i) + 100 * me, "vector received from ", q, " is wrong");
                mc::require(si[q] == std::size_t(q * 10 + me), "scalar received from ", q, " is ", si[q]);
                mc::require(zi[q] == std::complex<double>(q, me), "complex number received from ", q, " is ", zi[q]);
            }
        }
    }
    int runs = 0;
    c.onlyOnOneProcessor(root, std::function<void()>([&] { ++runs; }));
    mc::require(runs == (me == root), "onlyOnOneProcessor ran ", runs, " times on ", me);
    return mc::str(me);
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 5;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        if (mc::choose(2, "part")) {
            int kind = mc::choose(3, "wrapper");
            int root = mc::choose(P, "root");
            int len = mc::choose(4, "length");
            int order = mc::choose(kind == 2 ? 4 : 1, "order");
            for (int mode = 0; mode < 2; ++mode) {
                mcmpi::Options o;
                o.mode = mode;
                mcmpi::explore(
                    P, o, [&](int) { return wrappers(P, root, len, kind, order); }, [&](const std::vector<std::string>& res) {
                        for (auto& x : res) mc::state(x + mc::str(kind, root, len, order));
                    });
            }
            return;
        }
        const mg::Mesh& m = mc::pick(cat, "mesh");
        std::size_t n = m.elems.size();
        if (P == 2 && n > (mc::thorough() ? 9 : 6)) throw mc::Prune();
        if (P == 3 && n > (mc::thorough() ? 5 : 4)) throw mc::Prune();
        if (P == 4 && n > 4) throw mc::Prune();
        mc::note(m.name);
        const Cfg& c = mc::pick(cfgs, "basis");
        for (auto& e : m.elems)  // functions on pyramids exist for order 1 only (documented)
            if (e.shape == mg::PYR)
                for (int o : c.basis)
                    if (o % 10 > 1) throw mc::Prune();
        const std::vector<int>& h = mc::pick(histories, "history");
        if (P > 2 && !mc::thorough() && (&h - &histories[0]) % 4 != (&c - &cfgs[0])) throw mc::Prune();
        auto part = mg::chooseParts(n, P);
        m.write(fn, part, P);
        for (int mode = 0; mode < (P == 1 ? 1 : 2); ++mode) {
            mcmpi::Options o;
            o.mode = mode;
            mcmpi::explore(
                P, o, [&](int) { return m.dim == 1 ? body<1>(fn, c, h) : m.dim == 2 ? body<2>(fn, c, h) : body<3>(fn, c, h); },
                [&](const std::vector<std::string>& res) {
                    std::string all;
                    for (auto& x : res) {
                        all += x;
                        mc::state(x);
                    }
                    mc::outcome(all);
                    check(m, P, h, res);
                });
        }
    });
    unlink(fn.c_str());
    return rc;
}
