// Model-checking stand-in for <mpi.h>: every rank is a forked process, every call goes to the scheduler in mcmpi.cpp,
// which decides what completes when and explores all outcomes of the nondeterministic ones.
#ifndef VERIF_MCMPI_MPI_H
#define VERIF_MCMPI_MPI_H
#include <cstddef>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Request;
typedef int MPI_Op;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef int MPI_Group;
typedef std::ptrdiff_t MPI_Aint;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
struct MPI_Status {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    int bytes_;
};
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_TYPECLASS_REAL 1
#define MPI_TYPECLASS_INTEGER 2
#define MPI_TYPECLASS_COMPLEX 3
// datatypes: class * 256 + size; class 4: unsigned, 5: byte/char, 6: bool
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR (2 * 256 + 1)
#define MPI_SIGNED_CHAR (2 * 256 + 1)
#define MPI_UNSIGNED_CHAR (4 * 256 + 1)
#define MPI_BYTE (5 * 256 + 1)
#define MPI_SHORT (2 * 256 + 2)
#define MPI_INT (2 * 256 + 4)
#define MPI_LONG (2 * 256 + 8)
#define MPI_LONG_LONG (2 * 256 + 8)
#define MPI_LONG_LONG_INT (2 * 256 + 8)
#define MPI_UNSIGNED_SHORT (4 * 256 + 2)
#define MPI_UNSIGNED (4 * 256 + 4)
#define MPI_UNSIGNED_LONG (4 * 256 + 8)
#define MPI_UNSIGNED_LONG_LONG (4 * 256 + 8)
#define MPI_INT8_T MPI_CHAR
#define MPI_INT16_T MPI_SHORT
#define MPI_INT32_T MPI_INT
#define MPI_INT64_T MPI_LONG
#define MPI_UINT8_T MPI_UNSIGNED_CHAR
#define MPI_UINT16_T MPI_UNSIGNED_SHORT
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_UINT64_T MPI_UNSIGNED_LONG
#define MPI_FLOAT (1 * 256 + 4)
#define MPI_DOUBLE (1 * 256 + 8)
#define MPI_LONG_DOUBLE (1 * 256 + 16)
#define MPI_C_BOOL (6 * 256 + 1)
#define MPI_CXX_BOOL (6 * 256 + 1)
#define MPI_C_FLOAT_COMPLEX (3 * 256 + 8)
#define MPI_C_DOUBLE_COMPLEX (3 * 256 + 16)
#define MPI_CXX_DOUBLE_COMPLEX (3 * 256 + 16)
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MAX 3
#define MPI_MIN 4
#define MPI_LOR 5
#define MPI_LAND 6
#define MPI_BOR 7
#define MPI_BAND 8
#define MPI_LXOR 9
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime();
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_match_size(int, int, MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype,
                  MPI_Comm);
#endif
