// A recording stand-in for the few PETSc calls that the phase shifts of DG-Max make.
#ifndef VERIF_FAKE_PETSC_H
#define VERIF_FAKE_PETSC_H
#include <complex>
#include <map>
#include <vector>
#include <functional>
#include <set>
#include <numeric>
#include <memory>
typedef int PetscInt;
typedef int PetscErrorCode;
typedef std::complex<double> PetscScalar;
enum PetscBool { PETSC_FALSE, PETSC_TRUE };
enum MatOption { MAT_ROW_ORIENTED };
enum InsertMode { INSERT_VALUES, ADD_VALUES };
enum MatAssemblyType { MAT_FLUSH_ASSEMBLY, MAT_FINAL_ASSEMBLY };
struct FakeMat {
    struct Entry {
        PetscScalar value = 0;
        int writes = 0;
    };
    std::map<std::pair<int, int>, Entry> entries;
    bool rowOriented = true, open = false;
    int assemblies = 0;
};
typedef FakeMat* Mat;
#define PETSC_COMM_WORLD 0
#define CHKERRABORT(comm, e) (void)(e)
#define CHKERRQ(e) (void)(e)
inline PetscErrorCode MatSetOption(Mat m, MatOption, PetscBool b) {
    m->rowOriented = b == PETSC_TRUE;
    return 0;
}
inline PetscErrorCode MatGetOption(Mat m, MatOption, PetscBool* b) {
    *b = m->rowOriented ? PETSC_TRUE : PETSC_FALSE;
    return 0;
}
inline PetscErrorCode MatSetValue(Mat m, int r, int c, PetscScalar v, InsertMode mode) {
    auto& e = m->entries[{r, c}];
    e.value = mode == ADD_VALUES ? e.value + v : v;
    ++e.writes;
    m->open = true;
    return 0;
}
inline PetscErrorCode MatSetValues(Mat m, int nr, const int* r, int nc, const int* c, const PetscScalar* v, InsertMode mode) {
    for (int i = 0; i < nr; ++i)
        for (int j = 0; j < nc; ++j) MatSetValue(m, r[i], c[j], m->rowOriented ? v[i * nc + j] : v[i + nr * j], mode);
    return 0;
}
inline PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { return 0; }
inline PetscErrorCode MatAssemblyEnd(Mat m, MatAssemblyType) {
    m->open = false;
    ++m->assemblies;
    return 0;
}
#endif
