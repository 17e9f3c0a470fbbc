// Message passing interface executed on the engine's channels (see rt/src/mpi.cpp for the semantics).
#pragma once
#include <cstddef>
struct hs_comm_t;
struct hs_req_t;
struct hs_op_t;
typedef hs_comm_t *MPI_Comm;
typedef hs_req_t *MPI_Request;
typedef hs_op_t *MPI_Op;
typedef int MPI_Datatype;
typedef long MPI_Aint;
typedef int MPI_Errhandler;
typedef int MPI_Fint;
typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long count; };
typedef void MPI_User_function(void *, void *, int *, MPI_Datatype *);
struct hs_op_t { int builtin; MPI_User_function *f; };
extern hs_comm_t hs_world_;
extern hs_op_t hs_ops_[];
#define MPI_COMM_WORLD (&hs_world_)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 64
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_ERRORS_RETURN = 1, MPI_ERRORS_ARE_FATAL = 2 };
enum {
    MPI_BYTE = 1, MPI_CHAR, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_INT64_T, MPI_UINT64_T, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
    MPI_C_BOOL, MPI_SHORT, MPI_C_FLOAT_COMPLEX, MPI_C_DOUBLE_COMPLEX, MPI_C_LONG_DOUBLE_COMPLEX, MPI_FLOAT_INT, MPI_DOUBLE_INT, MPI_LONG_INT, MPI_2INT,
    MPI_LONG_DOUBLE_INT, MPI_UNSIGNED_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_SHORT, MPI_UNSIGNED_LONG_LONG, MPI_INT32_T, MPI_UINT32_T, MPI_USER_TYPE0 = 100
};
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_CXX_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_SUM (&hs_ops_[0])
#define MPI_PROD (&hs_ops_[1])
#define MPI_MAX (&hs_ops_[2])
#define MPI_MIN (&hs_ops_[3])
#define MPI_MAXLOC (&hs_ops_[4])
#define MPI_MINLOC (&hs_ops_[5])
#define MPI_LOR (&hs_ops_[6])
#define MPI_LAND (&hs_ops_[7])
#define MPI_BOR (&hs_ops_[8])
extern "C" {
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Cancel(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Request_free(MPI_Request *);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Op_create(MPI_User_function *, int, MPI_Op *);
int MPI_Op_free(MPI_Op *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_processor_name(char *, int *);
double MPI_Wtime();
}
