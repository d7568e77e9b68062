#!/usr/bin/env python3
"""Writes mpi.h: the message-passing seam.  Every MPI_X is an inline alias of sim_MPI_X (mpi_sim.cpp),
so that no symbol of a real MPI library is needed or pre-empted."""
decls = """
int Init(int* argc, char*** argv)
int Init_thread(int* argc, char*** argv, int required, int* provided)
int Initialized(int* flag)
int Finalize(void)
int Finalized(int* flag)
int Abort(MPI_Comm comm, int code)
int Comm_rank(MPI_Comm comm, int* rank)
int Comm_size(MPI_Comm comm, int* size)
int Comm_dup(MPI_Comm comm, MPI_Comm* out)
int Comm_free(MPI_Comm* comm)
int Comm_compare(MPI_Comm a, MPI_Comm b, int* result)
int Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler h)
int Barrier(MPI_Comm comm)
int Probe(int source, int tag, MPI_Comm comm, MPI_Status* status)
int Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* status)
int Mprobe(int source, int tag, MPI_Comm comm, MPI_Message* message, MPI_Status* status)
int Improbe(int source, int tag, MPI_Comm comm, int* flag, MPI_Message* message, MPI_Status* status)
int Mrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Status* status)
int Imrecv(void* buf, int count, MPI_Datatype type, MPI_Message* message, MPI_Request* request)
int Send(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
int Ssend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
int Isend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request)
int Issend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request)
int Recv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status)
int Irecv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Request* request)
int Sendrecv(const void* sbuf, int scount, MPI_Datatype stype, int dest, int stag, void* rbuf, int rcount, MPI_Datatype rtype, int source, int rtag, MPI_Comm comm, MPI_Status* status)
int Wait(MPI_Request* request, MPI_Status* status)
int Test(MPI_Request* request, int* flag, MPI_Status* status)
int Waitall(int count, MPI_Request* requests, MPI_Status* statuses)
int Waitany(int count, MPI_Request* requests, int* index, MPI_Status* status)
int Testall(int count, MPI_Request* requests, int* flag, MPI_Status* statuses)
int Request_get_status(MPI_Request request, int* flag, MPI_Status* status)
int Request_free(MPI_Request* request)
int Cancel(MPI_Request* request)
int Test_cancelled(const MPI_Status* status, int* flag)
int Get_count(const MPI_Status* status, MPI_Datatype type, int* count)
int Get_elements(const MPI_Status* status, MPI_Datatype type, int* count)
int Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm)
int Scatter(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm)
int Scatterv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm)
int Gather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, int root, MPI_Comm comm)
int Gatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, int root, MPI_Comm comm)
int Allgather(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm)
int Allgatherv(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm)
int Alltoall(const void* sbuf, int scount, MPI_Datatype stype, void* rbuf, int rcount, MPI_Datatype rtype, MPI_Comm comm)
int Alltoallv(const void* sbuf, const int* scounts, const int* sdispls, MPI_Datatype stype, void* rbuf, const int* rcounts, const int* rdispls, MPI_Datatype rtype, MPI_Comm comm)
int Type_size(MPI_Datatype type, int* size)
int Error_string(int code, char* s, int* len)
double Wtime(void)
""".strip().splitlines()
out = ["// generated by gen_mpi.py", "#pragma once", "#include <cstddef>", "",
"typedef int MPI_Comm, MPI_Request, MPI_Datatype, MPI_Message, MPI_Errhandler, MPI_Op, MPI_Info;",
"struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int sim_bytes; int sim_cancelled; };",
"#define MPI_SUCCESS 0", "#define MPI_ERR_OTHER 15", "#define MPI_COMM_NULL 0", "#define MPI_COMM_WORLD 1", "#define MPI_COMM_SELF 2",
"#define MPI_REQUEST_NULL 0", "#define MPI_MESSAGE_NULL 0", "#define MPI_MESSAGE_NO_PROC (-7)", "#define MPI_ANY_TAG (-1)", "#define MPI_ANY_SOURCE (-2)", "#define MPI_PROC_NULL (-3)", "#define MPI_UNDEFINED (-32766)",
"#define MPI_STATUS_IGNORE ((MPI_Status*)0)", "#define MPI_STATUSES_IGNORE ((MPI_Status*)0)", "#define MPI_IN_PLACE ((void*)-1)", "#define MPI_BOTTOM ((void*)0)",
"#define MPI_FILE_NULL 0", "#define MPI_INFO_NULL 0", "typedef int MPI_File;", "typedef long long MPI_Offset;", "#define MPI_IDENT 0", "#define MPI_CONGRUENT 1", "#define MPI_SIMILAR 2", "#define MPI_UNEQUAL 3",
"#define MPI_THREAD_SINGLE 0", "#define MPI_THREAD_FUNNELED 1", "#define MPI_THREAD_SERIALIZED 2", "#define MPI_THREAD_MULTIPLE 3",
"#define MPI_ERRORS_RETURN 1", "#define MPI_ERRORS_ARE_FATAL 2", "#define MPI_MAX_ERROR_STRING 64",
"#define MPI_CHAR 101", "#define MPI_SIGNED_CHAR 101", "#define MPI_UNSIGNED_CHAR 101", "#define MPI_BYTE 101", "#define MPI_PACKED 101", "#define MPI_CXX_BOOL 101", "#define MPI_SHORT 102", "#define MPI_INT 104", "#define MPI_INTEGER 104", "#define MPI_UNSIGNED 104", "#define MPI_FLOAT 104",
"#define MPI_LONG 108", "#define MPI_UNSIGNED_LONG 108", "#define MPI_LONG_LONG 108", "#define MPI_DOUBLE 108", "#define MPI_UINT64_T 108", "#define MPI_INT64_T 108", "#define MPI_INT32_T 104", "#define MPI_UINT32_T 104", "#define MPI_INT8_T 101", "#define MPI_UINT8_T 101", ""]
for d in decls:
    ret, rest = d.split(" ", 1); name, args = rest.split("(", 1); args = args.rstrip(")")
    call = ", ".join(a.split()[-1].lstrip("*") for a in args.split(",")) if args.strip() != "void" else ""
    out.append(f"{ret} sim_MPI_{name}({args});")
    out.append(f"static inline {ret} MPI_{name}({args}) {{ return sim_MPI_{name}({call}); }}")
open("mpi.h", "w").write("\n".join(out) + "\n")
