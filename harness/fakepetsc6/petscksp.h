// A linear solver for the stand-in: dense elimination on every process.
#ifndef VERIF_FAKE_PETSC6_KSP_H
#define VERIF_FAKE_PETSC6_KSP_H
#include "petscmat.h"
enum KSPConvergedReason { KSP_DIVERGED = -1, KSP_ITERATING = 0, KSP_CONVERGED = 1 };
static const char* const KSPConvergedReasons[] = {"iterating", "converged"};
namespace fakepetsc {
struct Ksp {
    bool alive = true, ready = false;
    Mat* a = nullptr;
};
inline Ksp* use(Ksp* k) {
    if (!k || !k->alive) bad("a solver is used after it was destroyed");
    return k;
}
// all contributions of all processes
inline std::vector<PetscScalar> dense(Mat* m) {
    std::vector<PetscScalar> r(std::size_t(m->rows) * m->cols, 0.), t(r.size());
    for (auto& e : m->entries) r[std::size_t(e.first.first) * m->cols + e.first.second] += e.second;
    MPI_Allreduce(r.data(), t.data(), r.size() * (sizeof(PetscScalar) / sizeof(double)), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    return t;
}
inline void eliminate(std::vector<PetscScalar> a, std::vector<PetscScalar>& b) {
    int n = b.size();
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int r = c; r < n; ++r)
            if (std::abs(a[r * n + c]) > std::abs(a[p * n + c])) p = r;
        if (!(std::abs(a[p * n + c]) > 1e-12)) bad("harness: the matrix is singular");
        for (int k = 0; k < n; ++k) std::swap(a[p * n + k], a[c * n + k]);
        std::swap(b[p], b[c]);
        for (int r = c + 1; r < n; ++r) {
            PetscScalar f = a[r * n + c] / a[c * n + c];
            if (f == 0.) continue;
            for (int k = c; k < n; ++k) a[r * n + k] -= f * a[c * n + k];
            b[r] -= f * b[c];
        }
    }
    for (int c = n - 1; c >= 0; --c) {
        for (int k = c + 1; k < n; ++k) b[c] -= a[c * n + k] * b[k];
        b[c] /= a[c * n + c];
    }
}
}  // namespace fakepetsc
typedef fakepetsc::Ksp* KSP;
inline PetscErrorCode KSPCreate(MPI_Comm, KSP* k) {
    fakepetsc::collective();
    *k = new fakepetsc::Ksp;
    return 0;
}
inline PetscErrorCode KSPDestroy(KSP* k) {
    if (!k || !*k) return 0;
    fakepetsc::use(*k)->alive = false;
    *k = nullptr;
    return 0;
}
inline PetscErrorCode KSPSetTolerances(KSP k, PetscReal, PetscReal, PetscReal, PetscInt) {
    fakepetsc::use(k);
    return 0;
}
inline PetscErrorCode KSPSetFromOptions(KSP k) {
    fakepetsc::use(k);
    return 0;
}
inline PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat) {
    fakepetsc::use(k)->a = fakepetsc::use(a);
    k->ready = false;
    return 0;
}
inline PetscErrorCode KSPSetUp(KSP k) {
    if (!fakepetsc::use(k)->a) fakepetsc::bad("a solver has no matrix");
    fakepetsc::use(k->a);
    fakepetsc::collective();
    k->ready = true;
    return 0;
}
inline PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    fakepetsc::use(k);
    fakepetsc::use(b);
    fakepetsc::use(x);
    if (!k->a) fakepetsc::bad("a solver has no matrix");
    if (fakepetsc::use(k->a)->open) fakepetsc::bad("a system is solved before its matrix is assembled");
    if (!b->pending.empty()) fakepetsc::bad("a system is solved before its right-hand side is assembled");
    if (k->a->rows != (int)b->x.size() || k->a->cols != (int)x->x.size()) fakepetsc::bad("sizes of a linear system do not match");
    std::vector<PetscScalar> y = b->x;
    fakepetsc::eliminate(fakepetsc::dense(k->a), y);
    x->x = y;
    return 0;
}
inline PetscErrorCode KSPGetIterationNumber(KSP, PetscInt* n) {
    *n = 1;
    return 0;
}
inline PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason* r) {
    *r = KSP_CONVERGED;
    return 0;
}
inline PetscErrorCode KSPGetConvergedReasonString(KSP, const char** s) {
    *s = "converged";
    return 0;
}
#endif
