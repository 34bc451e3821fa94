// A working stand-in for the part of PETSc that the global matrices and vectors of the kernel use, on top of the model-checking MPI.
// Vectors are replicated dense arrays; matrices keep what this process contributed.  Collective calls synchronise the processes, so that a
// process that skips one is reported as a deadlock.  Misuse that PETSc rejects or leaves undefined (mixing insert modes, indices out of range,
// using a destroyed object, reading an entry that was not scattered) is reported.
#ifndef VERIF_FAKE_PETSC6_H
#define VERIF_FAKE_PETSC6_H
#include "mpi.h"
#include "mc.h"
#include <cmath>
#include <complex>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
typedef int PetscInt;
typedef int PetscErrorCode;
#ifdef HPGEM_USE_COMPLEX_PETSC
typedef std::complex<double> PetscScalar;
#else
typedef double PetscScalar;
#endif
typedef double PetscReal;
enum PetscBool { PETSC_FALSE, PETSC_TRUE };
enum InsertMode { INSERT_VALUES, ADD_VALUES };
enum ScatterMode { SCATTER_FORWARD, SCATTER_REVERSE };
enum PetscCopyMode { PETSC_COPY_VALUES, PETSC_OWN_POINTER, PETSC_USE_POINTER };
#define PETSC_NULL nullptr
#define PETSC_DETERMINE -1
#define PETSC_DECIDE -1
#define PETSC_DEFAULT -2
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_COMM_SELF MPI_COMM_SELF
#define CHKERRV(e) fakepetsc::checked(e)
#define CHKERRQ(e) fakepetsc::checked(e)
#define CHKERRABORT(comm, e) fakepetsc::checked(e)
namespace fakepetsc {
inline void checked(int e) {
    if (e) throw mc::Violation{"PETSc call failed"};
}
inline void bad(const std::string& s) { throw mc::Violation{s}; }
inline void collective() { MPI_Barrier(MPI_COMM_WORLD); }
inline int total(int local) {
    int r = 0;
    MPI_Allreduce(&local, &r, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    return r;
}
struct Vec {
    bool shared = false, alive = true, skip = false;
    int local = 0;
    std::vector<PetscScalar> x;  // all entries
    std::map<int, PetscScalar> pending;
    int mode = -1;
};
struct IS {
    std::vector<int> i;
};
struct Scatter {
    bool toAll = false;
    std::vector<int> from, to;
};
inline Vec* use(Vec* v) {
    if (!v || !v->alive) bad("a vector is used after it was destroyed");
    return v;
}
}  // namespace fakepetsc
typedef fakepetsc::Vec* Vec;
typedef fakepetsc::IS* IS;
typedef fakepetsc::Scatter* VecScatter;
typedef void* PetscViewer;
#define PETSC_VIEWER_STDOUT_WORLD nullptr
enum PetscViewerFormat { PETSC_VIEWER_ASCII_MATLAB };
inline PetscErrorCode PetscViewerASCIIOpen(MPI_Comm, const char*, PetscViewer*) { return 0; }
inline PetscErrorCode PetscViewerPushFormat(PetscViewer, PetscViewerFormat) { return 0; }
inline PetscErrorCode PetscViewerPopFormat(PetscViewer) { return 0; }
inline PetscErrorCode PetscViewerDestroy(PetscViewer*) { return 0; }
inline PetscErrorCode PetscInitialized(PetscBool* b) {
    *b = PETSC_TRUE;
    return 0;
}
inline PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec* v) {
    *v = new fakepetsc::Vec;
    (*v)->local = n;
    (*v)->x.assign(n, 0.);
    return 0;
}
inline PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt, Vec* v) {
    *v = new fakepetsc::Vec;
    (*v)->shared = true;
    (*v)->local = n;
    (*v)->x.assign(fakepetsc::total(n), std::nan(""));  // a new vector has no defined content
    return 0;
}
inline PetscErrorCode VecDestroy(Vec* v) {
    if (!v || !*v) return 0;
    fakepetsc::use(*v)->alive = false;  // kept, to notice later use
    *v = nullptr;
    return 0;
}
inline PetscErrorCode VecZeroEntries(Vec v) {
    fakepetsc::use(v);
    if (!v->pending.empty()) fakepetsc::bad("a vector is zeroed before its values are assembled");
    std::fill(v->x.begin(), v->x.end(), 0.);
    return 0;
}
enum VecOption { VEC_IGNORE_OFF_PROC_ENTRIES, VEC_IGNORE_NEGATIVE_INDICES };
inline PetscErrorCode VecSetOption(Vec v, VecOption o, PetscBool b) {
    fakepetsc::use(v);
    if (o == VEC_IGNORE_NEGATIVE_INDICES) v->skip = b == PETSC_TRUE;
    if (o == VEC_IGNORE_OFF_PROC_ENTRIES && b == PETSC_TRUE) fakepetsc::bad("harness: entries of other processes are ignored");
    return 0;
}
inline PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt* i, const PetscScalar* y, InsertMode m) {
    fakepetsc::use(v);
    if (n == 0) return 0;
    if (v->mode >= 0 && v->mode != m) fakepetsc::bad("values are inserted and added without assembly in between");
    v->mode = m;
    for (int k = 0; k < n; ++k) {
        if (i[k] < 0 && v->skip) continue;
        if (i[k] < 0 || i[k] >= (int)v->x.size()) fakepetsc::bad(mc::str("index ", i[k], " of a vector of size ", v->x.size()));
        auto it = v->pending.emplace(i[k], 0.);
        if (m == ADD_VALUES)
            it.first->second += y[k];
        else {
            if (!it.second && it.first->second != y[k]) fakepetsc::bad(mc::str("different values are inserted at ", i[k]));
            it.first->second = y[k];
        }
    }
    return 0;
}
inline PetscErrorCode VecAssemblyBegin(Vec v) {
    fakepetsc::use(v);
    return 0;
}
inline PetscErrorCode VecAssemblyEnd(Vec v) {
    fakepetsc::use(v);
    int n = v->x.size(), modes[2] = {v->mode == INSERT_VALUES, v->mode == ADD_VALUES}, all[2];
    if (!v->shared) fakepetsc::bad("harness: assembly of a local vector");
    MPI_Allreduce(modes, all, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (all[0] && all[1]) fakepetsc::bad("one process inserts and another adds values");
    if (n) {
        // real and imaginary parts next to each other
        const int k = sizeof(PetscScalar) / sizeof(double);
        std::vector<double> s(k * n, 0.), t(k * n), hi(k * n, -1e300), h(k * n), lo(k * n, 1e300), l(k * n);
        for (auto& p : v->pending)
            for (int c = 0; c < k; ++c) {
                double y = reinterpret_cast<const double*>(&p.second)[c];
                s[k * p.first + c] = hi[k * p.first + c] = lo[k * p.first + c] = y;
            }
        double* x = reinterpret_cast<double*>(v->x.data());
        MPI_Allreduce(s.data(), t.data(), k * n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        if (all[1]) {
            for (int i = 0; i < k * n; ++i) x[i] += t[i];
        } else {
            MPI_Allreduce(hi.data(), h.data(), k * n, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
            MPI_Allreduce(lo.data(), l.data(), k * n, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
            for (int i = 0; i < k * n; ++i)
                if (h[i] > -1e300) {
                    if (h[i] != l[i]) fakepetsc::bad(mc::str("different processes insert ", l[i], " and ", h[i], " at ", i / k));
                    x[i] = h[i];
                }
        }
    }
    v->pending.clear();
    v->mode = -1;
    return 0;
}
inline PetscErrorCode VecScatterCreateToAll(Vec v, VecScatter* s, Vec* out) {
    fakepetsc::use(v);
    fakepetsc::collective();
    *s = new fakepetsc::Scatter;
    (*s)->toAll = true;
    if (out) {
        VecCreateSeq(PETSC_COMM_SELF, v->x.size(), out);
        std::fill((*out)->x.begin(), (*out)->x.end(), std::nan(""));
    }
    return 0;
}
inline PetscErrorCode VecScatterDestroy(VecScatter* s) {
    delete *s;
    *s = nullptr;
    return 0;
}
inline PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt* i, PetscCopyMode, IS* is) {
    *is = new fakepetsc::IS;
    (*is)->i.assign(i, i + n);
    return 0;
}
inline PetscErrorCode ISSortRemoveDups(IS is) {
    std::sort(is->i.begin(), is->i.end());
    is->i.erase(std::unique(is->i.begin(), is->i.end()), is->i.end());
    return 0;
}
inline PetscErrorCode ISSort(IS is) {
    std::sort(is->i.begin(), is->i.end());
    return 0;
}
inline PetscErrorCode ISDestroy(IS* is) {
    delete *is;
    *is = nullptr;
    return 0;
}
inline PetscErrorCode VecScatterCreate(Vec from, IS a, Vec to, IS b, VecScatter* s) {
    fakepetsc::use(from);
    fakepetsc::use(to);
    fakepetsc::collective();
    *s = new fakepetsc::Scatter;
    auto all = [](IS is, Vec v) {
        std::vector<int> r;
        if (is)
            r = is->i;
        else
            for (std::size_t i = 0; i < v->x.size(); ++i) r.push_back(i);
        return r;
    };
    (*s)->from = all(a, from);
    (*s)->to = all(b, to);
    if ((*s)->from.size() != (*s)->to.size()) fakepetsc::bad("scatter between index sets of different sizes");
    return 0;
}
inline PetscErrorCode VecScatterBegin(VecScatter s, Vec from, Vec to, InsertMode, ScatterMode) {
    fakepetsc::use(from);
    fakepetsc::use(to);
    fakepetsc::collective();
    if (s->toAll) {
        to->x = from->x;
        return 0;
    }
    for (std::size_t k = 0; k < s->from.size(); ++k) {
        if (s->from[k] < 0 || s->from[k] >= (int)from->x.size() || s->to[k] < 0 || s->to[k] >= (int)to->x.size()) fakepetsc::bad("scatter of an index out of range");
        to->x[s->to[k]] = from->x[s->from[k]];
    }
    return 0;
}
inline PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec, InsertMode, ScatterMode) { return 0; }
inline PetscErrorCode VecGetArray(Vec v, PetscScalar** a) {
    fakepetsc::use(v);
    if (v->shared) fakepetsc::bad("harness: array of a distributed vector");
    *a = v->x.data();
    return 0;
}
inline PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a) {
    *a = fakepetsc::use(v)->x.data();
    return 0;
}
inline PetscErrorCode VecRestoreArray(Vec, PetscScalar** a) {
    *a = nullptr;
    return 0;
}
inline PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar** a) {
    *a = nullptr;
    return 0;
}
inline PetscErrorCode VecChop(Vec, PetscReal) { return 0; }
inline PetscErrorCode VecScale(Vec v, PetscScalar a) {
    if (!fakepetsc::use(v)->pending.empty()) fakepetsc::bad("a vector is scaled before its values are assembled");
    for (auto& x : v->x) x *= a;
    return 0;
}
inline PetscErrorCode VecDuplicate(Vec v, Vec* r) {
    *r = new fakepetsc::Vec(*fakepetsc::use(v));
    (*r)->pending.clear();
    (*r)->mode = -1;
    if (v->shared) fakepetsc::collective();
    std::fill((*r)->x.begin(), (*r)->x.end(), std::nan(""));  // only the layout is copied
    return 0;
}
namespace fakepetsc {
inline void pair(Vec* a, Vec* b) {
    if (!use(a)->pending.empty() || !use(b)->pending.empty()) bad("a vector is used before its values are assembled");
    if (a->x.size() != b->x.size() || a->local != b->local) bad("vectors of different sizes are combined");
}
}  // namespace fakepetsc
inline PetscErrorCode VecCopy(Vec x, Vec y) {
    fakepetsc::pair(x, y);
    y->x = x->x;
    return 0;
}
inline PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x) {
    fakepetsc::pair(x, y);
    for (std::size_t i = 0; i < x->x.size(); ++i) y->x[i] += a * x->x[i];
    return 0;
}
inline PetscErrorCode VecAYPX(Vec y, PetscScalar a, Vec x) {
    fakepetsc::pair(x, y);
    for (std::size_t i = 0; i < x->x.size(); ++i) y->x[i] = a * y->x[i] + x->x[i];
    return 0;
}
inline PetscErrorCode VecAXPBY(Vec y, PetscScalar a, PetscScalar b, Vec x) {  // y = a x + b y
    fakepetsc::pair(x, y);
    for (std::size_t i = 0; i < x->x.size(); ++i) y->x[i] = a * x->x[i] + b * y->x[i];
    return 0;
}
inline PetscErrorCode VecWAXPY(Vec w, PetscScalar a, Vec x, Vec y) {  // w = a x + y
    fakepetsc::pair(x, y);
    fakepetsc::pair(x, w);
    for (std::size_t i = 0; i < x->x.size(); ++i) w->x[i] = a * x->x[i] + y->x[i];
    return 0;
}
inline PetscErrorCode VecAXPBYPCZ(Vec z, PetscScalar a, PetscScalar b, PetscScalar c, Vec x, Vec y) {
    fakepetsc::pair(x, y);
    fakepetsc::pair(x, z);
    for (std::size_t i = 0; i < x->x.size(); ++i) z->x[i] = a * x->x[i] + b * y->x[i] + c * z->x[i];
    return 0;
}
inline PetscErrorCode VecMAXPY(Vec y, PetscInt n, const PetscScalar* a, Vec* x) {
    for (int i = 0; i < n; ++i) VecAXPY(y, a[i], x[i]);
    return 0;
}
inline PetscErrorCode VecSwap(Vec x, Vec y) {
    fakepetsc::pair(x, y);
    std::swap(x->x, y->x);
    return 0;
}
inline PetscErrorCode VecSet(Vec v, PetscScalar a) {
    if (!fakepetsc::use(v)->pending.empty()) fakepetsc::bad("a vector is set before its values are assembled");
    std::fill(v->x.begin(), v->x.end(), a);
    return 0;
}
inline PetscErrorCode VecSetValue(Vec v, PetscInt i, PetscScalar y, InsertMode m) { return VecSetValues(v, 1, &i, &y, m); }
inline PetscErrorCode VecGetSize(Vec v, PetscInt* n) {
    *n = fakepetsc::use(v)->x.size();
    return 0;
}
inline PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) {
    *n = fakepetsc::use(v)->local;
    return 0;
}
inline PetscErrorCode VecView(Vec, PetscViewer) { return 0; }
#endif
