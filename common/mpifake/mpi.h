// A message-passing library inside one process, for model checking: ranks are threads
// of the controlled scheduler (explorer.h), every call is a scheduling point, and the
// rules of the standard (matching types and counts, same collectives in the same
// order, no aliased buffers) are checked. Implementation: mpifake.h, included once.
#pragma once
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
struct MPI_Status {
	int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes;
};
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 91
#define MPI_COMM_NULL 0
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_CHAR 1
#define MPI_INT 2
#define MPI_INTEGER 2
#define MPI_UNSIGNED 3
#define MPI_LONG 4
#define MPI_UNSIGNED_LONG 5
#define MPI_FLOAT 6
#define MPI_DOUBLE 7
#define MPI_LONG_LONG 8
#define MPI_BYTE 9
#define MPI_CXX_DOUBLE_COMPLEX 10
#define MPI_DOUBLE_COMPLEX 10
#define MPI_UNSIGNED_LONG_LONG 11
#define MPI_INT64_T 4
#define MPI_UINT64_T 5
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_MAX_ERROR_STRING 64
#define MPI_MAX_LIBRARY_VERSION_STRING 32
#define MPI_MAX_PROCESSOR_NAME 16
#define MPI_MAX_INFO_KEY 24
#define MPI_MAX_INFO_VAL 24
#define MPI_INFO_ENV 77
extern "C" {
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Get_version(int*, int*);
int MPI_Get_library_version(char*, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Info_get_nkeys(MPI_Info, int*);
int MPI_Info_get_nthkey(MPI_Info, int, char*);
int MPI_Info_get_valuelen(MPI_Info, const char*, int*, int*);
int MPI_Info_get(MPI_Info, const char*, int, char*, int*);
}
