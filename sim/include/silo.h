/* Wraps the real Silo interface: the calls below go through the simulator
 * (io_sim.cc), which makes each of them a scheduling, crash and fault point
 * and then runs the real library. */
#ifndef POLYSIM_SILO_H
#define POLYSIM_SILO_H
#include_next <silo.h>
#ifdef __cplusplus
extern "C" {
#endif
DBfile* psim_DBCreate(const char*, int, int, const char*, int);
DBfile* psim_DBOpen(const char*, int, int);
int psim_DBClose(DBfile*);
int psim_DBMkDir(DBfile*, const char*);
int psim_DBMkDirP(DBfile*, const char*);
int psim_DBSetDir(DBfile*, const char*);
int psim_DBWrite(DBfile*, const char*, const void*, const int*, int, int);
int psim_DBPutCompoundarray(DBfile*, const char*, const char* const*, const int*, int, const void*, int, int, const DBoptlist*);
int psim_DBPutFacelist(DBfile*, const char*, int, int, const int*, int, int, const int*, const int*, const int*, int, const int*, const int*, int);
int psim_DBPutUcdmesh(DBfile*, const char*, int, const char* const*, DBVCP2_t, int, int, const char*, const char*, int, const DBoptlist*);
int psim_DBPutUcdvar1(DBfile*, const char*, const char*, DBVCP1_t, int, DBVCP1_t, int, int, int, const DBoptlist*);
int psim_DBPutUcdvar(DBfile*, const char*, const char*, int, const char* const*, DBVCP2_t, int, DBVCP2_t, int, int, int, const DBoptlist*);
int psim_DBPutZonelist2(DBfile*, const char*, int, int, const int*, int, int, int, int, const int*, const int*, const int*, int, const DBoptlist*);
int psim_DBPutPHZonelist(DBfile*, const char*, int, const int*, int, const int*, const char*, int, const int*, int, const int*, int, int, int, const DBoptlist*);
int psim_DBPutMultimesh(DBfile*, const char*, int, const char* const*, const int*, const DBoptlist*);
int psim_DBPutMultivar(DBfile*, const char*, int, const char* const*, const int*, const DBoptlist*);
#ifdef __cplusplus
}
#endif
#ifndef POLYSIM_SILO_RAW
#undef DBCreate
#undef DBOpen
#define DBCreate(NM, MD, TG, NF, DR) psim_DBCreate(NM, MD, TG, NF, DR)
#define DBOpen(NM, DR, MD)           psim_DBOpen(NM, DR, MD)
#define DBClose             psim_DBClose
#define DBMkDir             psim_DBMkDir
#define DBMkDirP            psim_DBMkDirP
#define DBSetDir            psim_DBSetDir
#define DBWrite             psim_DBWrite
#define DBPutCompoundarray  psim_DBPutCompoundarray
#define DBPutFacelist       psim_DBPutFacelist
#define DBPutUcdmesh        psim_DBPutUcdmesh
#define DBPutUcdvar1        psim_DBPutUcdvar1
#define DBPutUcdvar         psim_DBPutUcdvar
#define DBPutZonelist2      psim_DBPutZonelist2
#define DBPutPHZonelist     psim_DBPutPHZonelist
#define DBPutMultimesh      psim_DBPutMultimesh
#define DBPutMultivar       psim_DBPutMultivar
#endif
#endif
