// In-process MPI used by the model checker: ranks are fibers of one process
// and every nondeterministic MPI decision is a choice of the explorer.
#ifndef MINIMPI_MPI_H
#define MINIMPI_MPI_H
#include <stddef.h>

struct minimpi_comm;
struct minimpi_type;
struct minimpi_op;
struct minimpi_req;
struct minimpi_group;
typedef struct minimpi_comm* MPI_Comm;
typedef struct minimpi_type const* MPI_Datatype;
typedef struct minimpi_op* MPI_Op;
typedef struct minimpi_req* MPI_Request;
typedef struct minimpi_info* MPI_Info;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count;

typedef struct MPI_Status {
  int MPI_SOURCE;
  int MPI_TAG;
  int MPI_ERROR;
  long long minimpi_bytes;
} MPI_Status;

typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);

struct minimpi_type {
  int size;
  int kind;
};
struct minimpi_op {
  int kind;
  MPI_User_function* fn;
  int commute;
};
#ifdef __cplusplus
extern "C" {
#endif
extern struct minimpi_type const minimpi_types[];
extern struct minimpi_op minimpi_ops[];
struct minimpi_comm* minimpi_world_handle(void);
struct minimpi_comm* minimpi_self_handle(void);
#ifdef __cplusplus
}
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_STATUS_IGNORE ((MPI_Status*)1)
#define MPI_STATUSES_IGNORE ((MPI_Status*)1)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_COMM_WORLD (minimpi_world_handle())
#define MPI_COMM_SELF (minimpi_self_handle())
#define MPI_UNWEIGHTED ((int*)1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

#define MPI_CHAR (&minimpi_types[0])
#define MPI_SIGNED_CHAR (&minimpi_types[1])
#define MPI_UNSIGNED_CHAR (&minimpi_types[2])
#define MPI_BYTE (&minimpi_types[3])
#define MPI_SHORT (&minimpi_types[4])
#define MPI_UNSIGNED_SHORT (&minimpi_types[5])
#define MPI_INT (&minimpi_types[6])
#define MPI_UNSIGNED (&minimpi_types[7])
#define MPI_LONG (&minimpi_types[8])
#define MPI_UNSIGNED_LONG (&minimpi_types[9])
#define MPI_LONG_LONG_INT (&minimpi_types[10])
#define MPI_LONG_LONG MPI_LONG_LONG_INT
#define MPI_UNSIGNED_LONG_LONG (&minimpi_types[11])
#define MPI_FLOAT (&minimpi_types[12])
#define MPI_DOUBLE (&minimpi_types[13])
#define MPI_PACKED (&minimpi_types[14])
#define MPI_INT8_T (&minimpi_types[15])
#define MPI_INT16_T (&minimpi_types[16])
#define MPI_INT32_T (&minimpi_types[17])
#define MPI_INT64_T (&minimpi_types[18])
#define MPI_UINT8_T (&minimpi_types[19])
#define MPI_UINT16_T (&minimpi_types[20])
#define MPI_UINT32_T (&minimpi_types[21])
#define MPI_UINT64_T (&minimpi_types[22])
#define MPI_C_BOOL (&minimpi_types[23])
#define MPI_CXX_BOOL (&minimpi_types[23])

#define MPI_MAX (&minimpi_ops[0])
#define MPI_MIN (&minimpi_ops[1])
#define MPI_SUM (&minimpi_ops[2])
#define MPI_PROD (&minimpi_ops[3])
#define MPI_LAND (&minimpi_ops[4])
#define MPI_LOR (&minimpi_ops[5])
#define MPI_BAND (&minimpi_ops[6])
#define MPI_BOR (&minimpi_ops[7])
#define MPI_BXOR (&minimpi_ops[8])

#ifdef __cplusplus
extern "C" {
#endif
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int,
    MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm,
    MPI_Request*);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int,
    MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype,
    MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*,
    const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype,
    MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*,
    const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);
int MPI_Type_size(MPI_Datatype, int*);
#ifdef __cplusplus
}
#endif
#endif
