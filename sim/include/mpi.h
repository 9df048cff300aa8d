/* Simulated MPI interface.
 *
 * The repository's sources are compiled against this header instead of a real
 * MPI.  Every call goes to the deterministic simulator (mpi_sim.cc), which
 * decides all timing.  The functions are renamed (MPI_Send -> SIMMPI_Send) so
 * that they cannot be confused with the symbols of a real libmpi that HDF5
 * happens to pull in. */
#ifndef POLYSIM_MPI_H
#define POLYSIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef struct MPI_Status {
  int MPI_SOURCE;
  int MPI_TAG;
  int MPI_ERROR;
  int sim_bytes;
} MPI_Status;

#define MPI_COMM_NULL   0
#define MPI_COMM_WORLD  1
#define MPI_COMM_SELF   2
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL   0
#define MPI_GROUP_NULL  0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN    2
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG    (-1)
#define MPI_PROC_NULL  (-2)
#define MPI_ROOT       (-3)
#define MPI_UNDEFINED  (-32766)
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE   ((void*)-1)
#define MPI_BOTTOM     ((void*)0)
#define MPI_TAG_UB     1
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING   64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_SUCCESS      0
#define MPI_ERR_BUFFER   1
#define MPI_ERR_COUNT    2
#define MPI_ERR_TYPE     3
#define MPI_ERR_TAG      4
#define MPI_ERR_COMM     5
#define MPI_ERR_RANK     6
#define MPI_ERR_ROOT     7
#define MPI_ERR_OP       9
#define MPI_ERR_ARG      12
#define MPI_ERR_TRUNCATE 14
#define MPI_ERR_OTHER    15
#define MPI_ERR_PENDING  18
#define MPI_ERR_REQUEST  19

/* datatype handle = (id << 8) | size; derived (contiguous) types use a table */
#define POLYSIM_DT(id, type) ((MPI_Datatype)(((id) << 8) | (int)sizeof(type)))
#define MPI_DATATYPE_NULL      0
#define MPI_CHAR               POLYSIM_DT(1, char)
#define MPI_SIGNED_CHAR        POLYSIM_DT(2, signed char)
#define MPI_UNSIGNED_CHAR      POLYSIM_DT(3, unsigned char)
#define MPI_BYTE               POLYSIM_DT(4, char)
#define MPI_SHORT              POLYSIM_DT(5, short)
#define MPI_UNSIGNED_SHORT     POLYSIM_DT(6, unsigned short)
#define MPI_INT                POLYSIM_DT(7, int)
#define MPI_UNSIGNED           POLYSIM_DT(8, unsigned)
#define MPI_LONG               POLYSIM_DT(9, long)
#define MPI_UNSIGNED_LONG      POLYSIM_DT(10, unsigned long)
#define MPI_LONG_LONG          POLYSIM_DT(11, long long)
#define MPI_LONG_LONG_INT      MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG POLYSIM_DT(12, unsigned long long)
#define MPI_FLOAT              POLYSIM_DT(13, float)
#define MPI_DOUBLE             POLYSIM_DT(14, double)
#define MPI_LONG_DOUBLE        POLYSIM_DT(15, long double)
#define MPI_C_BOOL             POLYSIM_DT(16, char)
#define MPI_CXX_BOOL           MPI_C_BOOL
#define MPI_INT8_T             POLYSIM_DT(17, char)
#define MPI_UINT8_T            POLYSIM_DT(18, char)
#define MPI_INT16_T            POLYSIM_DT(19, short)
#define MPI_UINT16_T           POLYSIM_DT(20, short)
#define MPI_INT32_T            POLYSIM_DT(21, int)
#define MPI_UINT32_T           POLYSIM_DT(22, unsigned)
#define MPI_INT64_T            POLYSIM_DT(23, long)
#define MPI_UINT64_T           POLYSIM_DT(24, unsigned long)
#define MPI_PACKED             POLYSIM_DT(25, char)
#define MPI_DOUBLE_INT         ((MPI_Datatype)((26 << 8) | 16))
#define MPI_FLOAT_INT          ((MPI_Datatype)((27 << 8) | 8))
#define MPI_2INT               ((MPI_Datatype)((28 << 8) | 8))
#define MPI_2DOUBLE_PRECISION  ((MPI_Datatype)((29 << 8) | 16))
#define MPI_WCHAR              POLYSIM_DT(30, int)

#define MPI_OP_NULL 0
#define MPI_MAX  1
#define MPI_MIN  2
#define MPI_SUM  3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR  7
#define MPI_BOR  8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_MINLOC 11
#define MPI_MAXLOC 12

#define MPI_Init              SIMMPI_Init
#define MPI_Init_thread       SIMMPI_Init_thread
#define MPI_Initialized       SIMMPI_Initialized
#define MPI_Finalized         SIMMPI_Finalized
#define MPI_Finalize          SIMMPI_Finalize
#define MPI_Abort             SIMMPI_Abort
#define MPI_Wtime             SIMMPI_Wtime
#define MPI_Wtick             SIMMPI_Wtick
#define MPI_Get_processor_name SIMMPI_Get_processor_name
#define MPI_Error_string      SIMMPI_Error_string
#define MPI_Comm_rank         SIMMPI_Comm_rank
#define MPI_Comm_size         SIMMPI_Comm_size
#define MPI_Comm_dup          SIMMPI_Comm_dup
#define MPI_Comm_split        SIMMPI_Comm_split
#define MPI_Comm_free         SIMMPI_Comm_free
#define MPI_Comm_compare      SIMMPI_Comm_compare
#define MPI_Comm_set_errhandler SIMMPI_Comm_set_errhandler
#define MPI_Errhandler_set    SIMMPI_Comm_set_errhandler
#define MPI_Type_size         SIMMPI_Type_size
#define MPI_Type_contiguous   SIMMPI_Type_contiguous
#define MPI_Type_commit       SIMMPI_Type_commit
#define MPI_Type_free         SIMMPI_Type_free
#define MPI_Get_count         SIMMPI_Get_count
#define MPI_Get_elements      SIMMPI_Get_count
#define MPI_Send              SIMMPI_Send
#define MPI_Ssend             SIMMPI_Ssend
#define MPI_Bsend             SIMMPI_Bsend
#define MPI_Rsend             SIMMPI_Send
#define MPI_Isend             SIMMPI_Isend
#define MPI_Issend            SIMMPI_Issend
#define MPI_Ibsend            SIMMPI_Ibsend
#define MPI_Irsend            SIMMPI_Isend
#define MPI_Recv              SIMMPI_Recv
#define MPI_Irecv             SIMMPI_Irecv
#define MPI_Sendrecv          SIMMPI_Sendrecv
#define MPI_Probe             SIMMPI_Probe
#define MPI_Iprobe            SIMMPI_Iprobe
#define MPI_Wait              SIMMPI_Wait
#define MPI_Waitall           SIMMPI_Waitall
#define MPI_Waitany           SIMMPI_Waitany
#define MPI_Waitsome          SIMMPI_Waitsome
#define MPI_Test              SIMMPI_Test
#define MPI_Testall           SIMMPI_Testall
#define MPI_Testany           SIMMPI_Testany
#define MPI_Request_free      SIMMPI_Request_free
#define MPI_Cancel            SIMMPI_Cancel
#define MPI_Buffer_attach     SIMMPI_Buffer_attach
#define MPI_Buffer_detach     SIMMPI_Buffer_detach
#define MPI_Barrier           SIMMPI_Barrier
#define MPI_Ibarrier          SIMMPI_Ibarrier
#define MPI_Bcast             SIMMPI_Bcast
#define MPI_Ibcast            SIMMPI_Ibcast
#define MPI_Reduce            SIMMPI_Reduce
#define MPI_Allreduce         SIMMPI_Allreduce
#define MPI_Iallreduce        SIMMPI_Iallreduce
#define MPI_Scan              SIMMPI_Scan
#define MPI_Exscan            SIMMPI_Exscan
#define MPI_Gather            SIMMPI_Gather
#define MPI_Gatherv           SIMMPI_Gatherv
#define MPI_Scatter           SIMMPI_Scatter
#define MPI_Scatterv          SIMMPI_Scatterv
#define MPI_Allgather         SIMMPI_Allgather
#define MPI_Allgatherv        SIMMPI_Allgatherv
#define MPI_Alltoall          SIMMPI_Alltoall
#define MPI_Alltoallv         SIMMPI_Alltoallv

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int,
                 void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Buffer_attach(void*, int);
int MPI_Buffer_detach(void*, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype,
                  void*, const int*, const int*, MPI_Datatype, MPI_Comm);

#ifdef __cplusplus
}
#endif
#endif
