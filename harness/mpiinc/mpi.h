// Stand-in for MPI: the processes of a run are simulated one after the other by the harness (nodes.h).
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_DOUBLE 8
#define MPI_INT 4
#define MPI_UNSIGNED 4
#define MPI_CHAR 1
#define MPI_BYTE 1
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
extern "C" {
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Initialized(int *); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Get_processor_name(char *, int *); double MPI_Wtime(void);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
}
