/* The part of Maple's external-call interface (maplec.h) that flint-extras/src/mapml uses. Maple is not installed
   here: the functions are implemented in props/C44.cpp on objects that check every access and every type. */
#ifndef PML_MOCK_MAPLEC_H
#define PML_MOCK_MAPLEC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define M_DECL
typedef struct mock_alg * ALGEB;
typedef struct mock_kernel * MKernelVector;
typedef long M_INT; typedef unsigned long M_UINT; typedef int M_BOOL; typedef int INTEGER32; typedef long INTEGER64; typedef double FLOAT64;
enum { RTABLE_DAG = 0, RTABLE_INTEGER32 = 4, RTABLE_INTEGER64 = 6 };
enum { RTABLE_ARRAY = 0, RTABLE_MATRIX = 1, RTABLE_COLUMN = 2, RTABLE_ROW = 3 };
enum { RTABLE_FORTRAN = 1, RTABLE_C = 2 };
typedef struct { int data_type; ALGEB maple_type; int subtype, storage; M_INT p1, p2; int order; M_BOOL read_only, foreign; int num_dimensions; ALGEB index_functions, attributes; M_INT transpose; } RTableSettings;
typedef union { INTEGER32 int32; INTEGER64 int64; FLOAT64 float64; ALGEB dag; } RTableData;
ALGEB ToMapleInteger(MKernelVector kv, M_INT i); ALGEB ToMapleInteger64(MKernelVector kv, INTEGER64 i); ALGEB ToMapleString(MKernelVector kv, const char * s); ALGEB ToMapleFloat(MKernelVector kv, double f); ALGEB ToMapleBoolean(MKernelVector kv, long b);
M_INT MapleToM_INT(MKernelVector kv, ALGEB s); INTEGER32 MapleToInteger32(MKernelVector kv, ALGEB s); INTEGER64 MapleToInteger64(MKernelVector kv, ALGEB s); char * MapleToString(MKernelVector kv, ALGEB s);
M_BOOL IsMapleInteger(MKernelVector kv, ALGEB s); M_BOOL IsMapleString(MKernelVector kv, ALGEB s); M_BOOL IsMapleList(MKernelVector kv, ALGEB s); M_BOOL IsMapleRTable(MKernelVector kv, ALGEB s);
M_INT MapleNumArgs(MKernelVector kv, ALGEB expr); ALGEB MapleListAlloc(MKernelVector kv, M_INT n); void MapleListAssign(MKernelVector kv, ALGEB list, M_INT i, ALGEB val); ALGEB MapleListSelect(MKernelVector kv, ALGEB list, M_INT i);
void RTableGetDefaults(MKernelVector kv, RTableSettings * s); void RTableGetSettings(MKernelVector kv, RTableSettings * s, ALGEB rt); ALGEB RTableCreate(MKernelVector kv, RTableSettings * s, void * data, M_INT * bounds); RTableData RTableSelect(MKernelVector kv, ALGEB rt, M_INT * index); RTableData RTableAssign(MKernelVector kv, ALGEB rt, M_INT * index, RTableData val); M_INT RTableUpperBound(MKernelVector kv, ALGEB rt, M_INT dim); M_INT RTableLowerBound(MKernelVector kv, ALGEB rt, M_INT dim); M_INT RTableNumDimensions(MKernelVector kv, ALGEB rt); M_INT RTableNumElements(MKernelVector kv, ALGEB rt);
void MapleALGEB_Printf(MKernelVector kv, const char * fmt, ...); void MaplePrintf(MKernelVector kv, const char * fmt, ...); void MapleRaiseError(MKernelVector kv, const char * msg);
#ifdef __cplusplus
}
#endif
#endif
