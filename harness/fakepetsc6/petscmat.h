#ifndef VERIF_FAKE_PETSC6_MAT_H
#define VERIF_FAKE_PETSC6_MAT_H
#include "petscvec.h"
enum MatOption { MAT_ROW_ORIENTED, MAT_KEEP_NONZERO_PATTERN, MAT_NEW_NONZERO_LOCATIONS, MAT_IGNORE_ZERO_ENTRIES, MAT_NEW_NONZERO_ALLOCATION_ERR, MAT_SYMMETRIC, MAT_HERMITIAN };
enum MatAssemblyType { MAT_FLUSH_ASSEMBLY, MAT_FINAL_ASSEMBLY };
enum MatInfoType { MAT_LOCAL, MAT_GLOBAL_MAX, MAT_GLOBAL_SUM };
struct MatInfo {
    double block_size, nz_used, nz_unneeded, assemblies, mallocs;
};
#define MATMPIAIJ "mpiaij"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
namespace fakepetsc {
struct Mat {
    bool alive = true, open = false, assembled = false, preallocated = false, rowOriented = true, ignoreZeros = false;
    std::string type;
    int localRows = 0, localCols = 0, rows = 0, cols = 0, mode = -1;
    std::vector<int> diagonal, offDiagonal;
    std::map<std::pair<int, int>, PetscScalar> entries;  // contributed by this process since the last MatZeroEntries
    std::set<std::pair<int, int>> touched;          // positions that take up space
};
inline Mat* use(Mat* v) {
    if (!v || !v->alive) bad("a matrix is used after it was destroyed");
    return v;
}
}  // namespace fakepetsc
typedef fakepetsc::Mat* Mat;
typedef const char* MatType;
inline PetscErrorCode MatCreate(MPI_Comm, Mat* m) {
    *m = new fakepetsc::Mat;
    return 0;
}
inline PetscErrorCode MatCreateSeqAIJ(MPI_Comm, PetscInt r, PetscInt c, PetscInt, const PetscInt*, Mat* m) {
    *m = new fakepetsc::Mat;
    (*m)->type = MATSEQAIJ;
    (*m)->localRows = (*m)->rows = r;
    (*m)->localCols = (*m)->cols = c;
    (*m)->preallocated = true;
    return 0;
}
inline PetscErrorCode MatDestroy(Mat* m) {
    if (!m || !*m) return 0;
    fakepetsc::use(*m)->alive = false;
    *m = nullptr;
    return 0;
}
inline PetscErrorCode MatSetType(Mat m, MatType t) {
    fakepetsc::use(m)->type = t;
    return 0;
}
inline PetscErrorCode MatSetSizes(Mat m, PetscInt r, PetscInt c, PetscInt, PetscInt) {
    fakepetsc::use(m);
    m->localRows = r;
    m->localCols = c;
    m->rows = fakepetsc::total(r);
    m->cols = fakepetsc::total(c);
    return 0;
}
inline PetscErrorCode MatMPIAIJSetPreallocation(Mat m, PetscInt, const PetscInt* d, PetscInt, const PetscInt* o) {
    fakepetsc::use(m);
    if (m->type == MATSEQAIJ) return 0;  // ignored for other types
    m->preallocated = true;
    if (d) m->diagonal.assign(d, d + m->localRows);
    if (o) m->offDiagonal.assign(o, o + m->localRows);
    return 0;
}
inline PetscErrorCode MatSeqAIJSetPreallocation(Mat m, PetscInt, const PetscInt* d) {
    fakepetsc::use(m);
    if (m->type == MATMPIAIJ) return 0;
    m->preallocated = true;
    if (d) m->diagonal.assign(d, d + m->localRows);
    return 0;
}
inline PetscErrorCode MatSetOption(Mat m, MatOption o, PetscBool b) {
    fakepetsc::use(m);
    if (o == MAT_ROW_ORIENTED) m->rowOriented = b == PETSC_TRUE;
    if (o == MAT_IGNORE_ZERO_ENTRIES) m->ignoreZeros = b == PETSC_TRUE;
    return 0;
}
inline PetscErrorCode MatZeroEntries(Mat m) {
    fakepetsc::use(m);
    if (m->open) fakepetsc::bad("a matrix is zeroed before its values are assembled");
    if (!m->preallocated) fakepetsc::bad("a matrix is used before it is set up");
    m->entries.clear();
    return 0;
}
inline PetscErrorCode MatSetValues(Mat m, PetscInt nr, const PetscInt* r, PetscInt nc, const PetscInt* c, const PetscScalar* v, InsertMode mode) {
    fakepetsc::use(m);
    if (!m->preallocated) fakepetsc::bad("values are set in a matrix before it is set up");
    if (nr == 0 || nc == 0) return 0;
    if (m->mode >= 0 && m->mode != mode) fakepetsc::bad("values are inserted and added without assembly in between");
    m->mode = mode;
    m->open = true;
    for (int i = 0; i < nr; ++i)
        for (int j = 0; j < nc; ++j) {
            if (r[i] < 0 || c[j] < 0) continue;
            if (r[i] >= m->rows || c[j] >= m->cols) fakepetsc::bad(mc::str("entry (", r[i], ",", c[j], ") of a ", m->rows, " by ", m->cols, " matrix"));
            PetscScalar y = m->rowOriented ? v[i * nc + j] : v[i + nr * j];
            if (y == 0. && m->ignoreZeros && mode == ADD_VALUES) continue;
            PetscScalar& e = m->entries[{r[i], c[j]}];
            e = mode == ADD_VALUES ? e + y : y;
            m->touched.insert({r[i], c[j]});
        }
    return 0;
}
inline PetscErrorCode MatAssemblyBegin(Mat m, MatAssemblyType) {
    fakepetsc::use(m);
    return 0;
}
inline PetscErrorCode MatAssemblyEnd(Mat m, MatAssemblyType) {
    fakepetsc::use(m);
    int mode[2] = {m->mode == INSERT_VALUES, m->mode == ADD_VALUES}, all[2];
    MPI_Allreduce(mode, all, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (all[0] && all[1]) fakepetsc::bad("one process inserts and another adds values");
    m->open = false;
    m->assembled = true;
    m->mode = -1;
    return 0;
}
enum MatDuplicateOption { MAT_DO_NOT_COPY_VALUES, MAT_COPY_VALUES, MAT_SHARE_NONZERO_PATTERN };
enum MatStructure { DIFFERENT_NONZERO_PATTERN, SUBSET_NONZERO_PATTERN, SAME_NONZERO_PATTERN, UNKNOWN_NONZERO_PATTERN };
#define PETSC_VERSION_GE(a, b, c) 1
#define PETSC_VERSION_LT(a, b, c) 0
inline PetscErrorCode MatDuplicate(Mat m, MatDuplicateOption o, Mat* r) {
    if (fakepetsc::use(m)->open || !m->assembled) fakepetsc::bad("a matrix is duplicated before it is assembled");
    fakepetsc::collective();
    *r = new fakepetsc::Mat(*m);
    if (o != MAT_COPY_VALUES)
        for (auto& e : (*r)->entries) e.second = 0.;
    return 0;
}
inline PetscErrorCode MatCopy(Mat a, Mat b, MatStructure) {
    if (fakepetsc::use(a)->open || fakepetsc::use(b)->open || !a->assembled) fakepetsc::bad("a matrix is copied before it is assembled");
    if (a->rows != b->rows || a->cols != b->cols || a->localRows != b->localRows) fakepetsc::bad("a matrix is copied to one of another size");
    fakepetsc::collective();
    b->entries = a->entries;
    b->assembled = true;
    return 0;
}
inline PetscErrorCode MatAXPY(Mat y, PetscScalar a, Mat x, MatStructure) {  // y += a x
    if (fakepetsc::use(x)->open || fakepetsc::use(y)->open || !x->assembled || !y->assembled) fakepetsc::bad("matrices are added before they are assembled");
    if (x->rows != y->rows || x->cols != y->cols || x->localRows != y->localRows) fakepetsc::bad("matrices of different sizes are added");
    fakepetsc::collective();
    for (auto& e : x->entries) y->entries[e.first] += a * e.second;
    return 0;
}
inline PetscErrorCode MatGetInfo(Mat, MatInfoType, MatInfo*) { return 0; }
inline PetscErrorCode MatChop(Mat, PetscReal) { return 0; }
inline PetscErrorCode MatScale(Mat m, PetscScalar a) {
    if (fakepetsc::use(m)->open || !m->assembled) fakepetsc::bad("a matrix is scaled before it is assembled");
    fakepetsc::collective();
    for (auto& e : m->entries) e.second *= a;
    return 0;
}
inline PetscErrorCode MatMult(Mat m, Vec x, Vec y) {
    if (fakepetsc::use(m)->open || !m->assembled) fakepetsc::bad("a matrix is applied before it is assembled");
    if (!fakepetsc::use(x)->pending.empty()) fakepetsc::bad("a matrix is applied to a vector that is not assembled");
    if (x == y) fakepetsc::bad("the result of a product overwrites its argument");
    if (m->cols != (int)x->x.size() || m->rows != (int)fakepetsc::use(y)->x.size()) fakepetsc::bad("sizes of a product do not match");
    std::vector<PetscScalar> r(m->rows, 0.), t(m->rows);
    for (auto& e : m->entries) r[e.first.first] += e.second * x->x[e.first.second];
    if (m->rows) MPI_Allreduce(r.data(), t.data(), m->rows * (sizeof(PetscScalar) / sizeof(double)), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    y->x = t;
    return 0;
}
inline PetscErrorCode MatMultAdd(Mat m, Vec x, Vec b, Vec y) {  // y = b + m x
    std::vector<PetscScalar> add = fakepetsc::use(b)->x;
    if (!b->pending.empty()) fakepetsc::bad("a vector is used before its values are assembled");
    MatMult(m, x, y);
    for (std::size_t i = 0; i < add.size(); ++i) y->x[i] += add[i];
    return 0;
}
inline PetscErrorCode MatSetValue(Mat m, PetscInt r, PetscInt c, PetscScalar v, InsertMode mode) { return MatSetValues(m, 1, &r, 1, &c, &v, mode); }
inline PetscErrorCode MatGetSize(Mat m, PetscInt* r, PetscInt* c) {
    if (r) *r = fakepetsc::use(m)->rows;
    if (c) *c = fakepetsc::use(m)->cols;
    return 0;
}
inline PetscErrorCode MatGetLocalSize(Mat m, PetscInt* r, PetscInt* c) {
    if (r) *r = fakepetsc::use(m)->localRows;
    if (c) *c = fakepetsc::use(m)->localCols;
    return 0;
}
inline PetscErrorCode MatView(Mat, PetscViewer) { return 0; }
#endif
