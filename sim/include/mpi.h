// generated by gen_mpi.py
#pragma once
#include <cstddef>

typedef int MPI_Comm, MPI_Request, MPI_Datatype, MPI_Message, MPI_Errhandler, MPI_Op, MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int sim_bytes; int sim_cancelled; };
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_MESSAGE_NULL 0
#define MPI_MESSAGE_NO_PROC (-7)
#define MPI_ANY_TAG (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_FILE_NULL 0
#define MPI_INFO_NULL 0
typedef int MPI_File;
typedef long long MPI_Offset;
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_MAX_ERROR_STRING 64
#define MPI_CHAR 101
#define MPI_SIGNED_CHAR 101
#define MPI_UNSIGNED_CHAR 101
#define MPI_BYTE 101
#define MPI_PACKED 101
#define MPI_CXX_BOOL 101
#define MPI_SHORT 102
#define MPI_INT 104
#define MPI_INTEGER 104
#define MPI_UNSIGNED 104
#define MPI_FLOAT 104
#define MPI_LONG 108
#define MPI_UNSIGNED_LONG 108
#define MPI_LONG_LONG 108
#define MPI_DOUBLE 108
#define MPI_UINT64_T 108
#define MPI_INT64_T 108
#define MPI_INT32_T 104
#define MPI_UINT32_T 104
#define MPI_INT8_T 101
#define MPI_UINT8_T 101

int sim_MPI_Init(int* argc, char*** argv);
static inline int MPI_Init(int* argc, char*** argv) { return sim_MPI_Init(argc, argv); }
int sim_MPI_Init_thread(int* argc, char*** argv, int required, int* provided);
static inline int MPI_Init_thread(int* argc, char*** argv, int required, int* provided) { return sim_MPI_Init_thread(argc, argv, required, provided); }
int sim_MPI_Initialized(int* flag);
static inline int MPI_Initialized(int* flag) { return sim_MPI_Initialized(flag); }
int sim_MPI_Finalize(void);
static inline int MPI_Finalize(void) { return sim_MPI_Finalize(); }
int sim_MPI_Finalized(int* flag);
static inline int MPI_Finalized(int* flag) { return sim_MPI_Finalized(flag); }
int sim_MPI_Abort(MPI_Comm comm, int code);
static inline int MPI_Abort(MPI_Comm comm, int code) { return sim_MPI_Abort(comm, code); }
int sim_MPI_Comm_rank(MPI_Comm comm, int* rank);
static inline int MPI_Comm_rank(MPI_Comm comm, int* rank) { return sim_MPI_Comm_rank(comm, rank); }
int sim_MPI_Comm_size(MPI_Comm comm, int* size);
static inline int MPI_Comm_size(MPI_Comm comm, int* size) { return sim_MPI_Comm_size(comm, size); }
int sim_MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out);
static inline int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out) { return sim_MPI_Comm_dup(comm, out); }
int sim_MPI_Comm_free(MPI_Comm* comm);
static inline int MPI_Comm_free(MPI_Comm* comm) { return sim_MPI_Comm_free(comm); }
int sim_MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* result);
static inline int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* result) { return sim_MPI_Comm_compare(a, b, result); }
int sim_MPI_Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler h);
static inline int MPI_Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler h) { return sim_MPI_Comm_set_errhandler(comm, h); }
int sim_MPI_Barrier(MPI_Comm comm);
static inline int MPI_Barrier(MPI_Comm comm) { return sim_MPI_Barrier(comm); }
int sim_MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status* status);
static inline int MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status* status) { return sim_MPI_Probe(source, tag, comm, status); }
int sim_MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* status);
static inline int MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* status) { return sim_MPI_Iprobe(source, tag, comm, flag, status); }
int sim_MPI_Mprobe(int source, int tag, MPI_Comm comm, MPI_Message* message, MPI_Status* status);
static inline int MPI_Mprobe(int source, int tag, MPI_Comm comm, MPI_Message* message, MPI_Status* status) { return sim_MPI_Mprobe(source, tag, comm, message, status); }
int sim_MPI_Improbe(int source, int tag, MPI_Comm comm, int* flag, MPI_Message* message, MPI_Status* status);
static inline int MPI_Improbe(int source, int tag, MPI_Comm comm, int* flag, MPI_Message* message, MPI_Status* status) { return sim_MPI_Improbe(source, tag, comm, flag, message, status); }
int sim_MPI_Mrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Status* status);
static inline int MPI_Mrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Status* status) { return sim_MPI_Mrecv(buf, count, type, message, status); }
int sim_MPI_Imrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Request* request);
static inline int MPI_Imrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Request* request) { return sim_MPI_Imrecv(buf, count, type, message, request); }
int sim_MPI_Send(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm);
static inline int MPI_Send(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm) { return sim_MPI_Send(buf, count, type, dest, tag, comm); }
int sim_MPI_Ssend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm);
static inline int MPI_Ssend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm) { return sim_MPI_Ssend(buf, count, type, dest, tag, comm); }
int sim_MPI_Isend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request);
static inline int MPI_Isend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request) { return sim_MPI_Isend(buf, count, type, dest, tag, comm, request); }
int sim_MPI_Issend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request);
static inline int MPI_Issend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request) { return sim_MPI_Issend(buf, count, type, dest, tag, comm, request); }
int sim_MPI_Recv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status);
static inline int MPI_Recv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status) { return sim_MPI_Recv(buf, count, type, source, tag, comm, status); }
int sim_MPI_Irecv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Request* request);
static inline int MPI_Irecv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Request* request) { return sim_MPI_Irecv(buf, count, type, source, tag, comm, request); }
int sim_MPI_Sendrecv(const void* sbuf, int scount, MPI_Datatype stype, int dest, int stag, void* rbuf, int rcount, MPI_Datatype rtype, int source, int rtag, MPI_Comm comm, MPI_Status* status);
static inline int MPI_Sendrecv(const void* sbuf, int scount, MPI_Datatype stype, int dest, int stag, void* rbuf, int rcount, MPI_Datatype rtype, int source, int rtag, MPI_Comm comm, MPI_Status* status) { return sim_MPI_Sendrecv(sbuf, scount, stype, dest, stag, rbuf, rcount, rtype, source, rtag, comm, status); }
int sim_MPI_Wait(MPI_Request* request, MPI_Status* status);
static inline int MPI_Wait(MPI_Request* request, MPI_Status* status) { return sim_MPI_Wait(request, status); }
int sim_MPI_Test(MPI_Request* request, int* flag, MPI_Status* status);
static inline int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status) { return sim_MPI_Test(request, flag, status); }
int sim_MPI_Waitall(int count, MPI_Request* requests, MPI_Status* statuses);
static inline int MPI_Waitall(int count, MPI_Request* requests, MPI_Status* statuses) { return sim_MPI_Waitall(count, requests, statuses); }
int sim_MPI_Waitany(int count, MPI_Request* requests, int* index, MPI_Status* status);
static inline int MPI_Waitany(int count, MPI_Request* requests, int* index, MPI_Status* status) { return sim_MPI_Waitany(count, requests, index, status); }
int sim_MPI_Testall(int count, MPI_Request* requests, int* flag, MPI_Status* statuses);
static inline int MPI_Testall(int count, MPI_Request* requests, int* flag, MPI_Status* statuses) { return sim_MPI_Testall(count, requests, flag, statuses); }
int sim_MPI_Request_get_status(MPI_Request request, int* flag, MPI_Status* status);
static inline int MPI_Request_get_status(MPI_Request request, int* flag, MPI_Status* status) { return sim_MPI_Request_get_status(request, flag, status); }
int sim_MPI_Request_free(MPI_Request* request);
static inline int MPI_Request_free(MPI_Request* request) { return sim_MPI_Request_free(request); }
int sim_MPI_Cancel(MPI_Request* request);
static inline int MPI_Cancel(MPI_Request* request) { return sim_MPI_Cancel(request); }
int sim_MPI_Test_cancelled(const MPI_Status* status, int* flag);
static inline int MPI_Test_cancelled(const MPI_Status* status, int* flag) { return sim_MPI_Test_cancelled(status, flag); }
int sim_MPI_Get_count(const MPI_Status* status, MPI_Datatype type, int* count);
static inline int MPI_Get_count(const MPI_Status* status, MPI_Datatype type, int* count) { return sim_MPI_Get_count(status, type, count); }
int sim_MPI_Get_elements(const MPI_Status* status, MPI_Datatype type, int* count);
static inline int MPI_Get_elements(const MPI_Status* status, MPI_Datatype type, int* count) { return sim_MPI_Get_elements(status, type, count); }
int sim_MPI_Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm);
static inline int MPI_Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm) { return sim_MPI_Bcast(buf, count, type, root, comm); }
int sim_MPI_Scatter(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm);
static inline int MPI_Scatter(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm) { return sim_MPI_Scatter(sbuf, scount, stype, rbuf, rcount, rtype, root, comm); }
int sim_MPI_Scatterv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm);
static inline int MPI_Scatterv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm) { return sim_MPI_Scatterv(sbuf, scounts, sdispls, stype, rbuf, rcount, rtype, root, comm); }
int sim_MPI_Gather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm);
static inline int MPI_Gather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm) { return sim_MPI_Gather(sbuf, scount, stype, rbuf, rcount, rtype, root, comm); }
int sim_MPI_Gatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, int root, MPI_Comm comm);
static inline int MPI_Gatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, int root, MPI_Comm comm) { return sim_MPI_Gatherv(sbuf, scount, stype, rbuf, rcounts, rdispls, rtype, root, comm); }
int sim_MPI_Allgather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm);
static inline int MPI_Allgather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm) { return sim_MPI_Allgather(sbuf, scount, stype, rbuf, rcount, rtype, comm); }
int sim_MPI_Allgatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm);
static inline int MPI_Allgatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm) { return sim_MPI_Allgatherv(sbuf, scount, stype, rbuf, rcounts, rdispls, rtype, comm); }
int sim_MPI_Alltoall(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm);
static inline int MPI_Alltoall(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm) { return sim_MPI_Alltoall(sbuf, scount, stype, rbuf, rcount, rtype, comm); }
int sim_MPI_Alltoallv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm);
static inline int MPI_Alltoallv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm) { return sim_MPI_Alltoallv(sbuf, scounts, sdispls, stype, rbuf, rcounts, rdispls, rtype, comm); }
int sim_MPI_Type_size(MPI_Datatype type, int* size);
static inline int MPI_Type_size(MPI_Datatype type, int* size) { return sim_MPI_Type_size(type, size); }
int sim_MPI_Error_string(int code, char* s, int* len);
static inline int MPI_Error_string(int code, char* s, int* len) { return sim_MPI_Error_string(code, s, len); }
double sim_MPI_Wtime(void);
static inline double MPI_Wtime(void) { return sim_MPI_Wtime(); }
