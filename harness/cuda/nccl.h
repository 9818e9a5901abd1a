#ifndef CUEMU_NCCL_H
#define CUEMU_NCCL_H
#include "cuda_runtime.h"
enum ncclResult_t { ncclSuccess = 0, ncclInvalidUsage = 5 };
enum ncclDataType_t { ncclFloat32 = 7, ncclFloat64 = 8, ncclNumTypes = 10 };
enum ncclRedOp_t { ncclSum, ncclProd, ncclMax, ncclMin };
typedef struct cuemu_comm* ncclComm_t;
const char* ncclGetErrorString(ncclResult_t);
ncclResult_t ncclCommInitAll(ncclComm_t*, int, const int*);
ncclResult_t ncclCommDestroy(ncclComm_t);
ncclResult_t ncclGroupStart();
ncclResult_t ncclGroupEnd();
ncclResult_t ncclAllGather(const void*, void*, size_t, ncclDataType_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
#endif
