// Stub runtime: only what event timing needs, backed by evstub.
#pragma once
#include <cstddef>
#include "evstub.h"
typedef enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600 } cudaError_t;
typedef struct cudaEventStub *cudaEvent_t;
typedef struct cudaStreamStub *cudaStream_t;
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
static inline cudaError_t cuda_conv(int r) { return r == evstub::OK ? cudaSuccess : r == evstub::NOT_READY ? cudaErrorNotReady : cudaErrorInvalidResourceHandle; }
static inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { return cuda_conv(evstub::create((void **)e, 1)); }
static inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return cuda_conv(evstub::create((void **)e, 1)); }
static inline cudaError_t cudaEventDestroy(cudaEvent_t e) { return cuda_conv(evstub::destroy((void *)e)); }
static inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = 0) { (void)s; return cuda_conv(evstub::record((void *)e)); }
static inline cudaError_t cudaEventQuery(cudaEvent_t e) { return cuda_conv(evstub::query((void *)e)); }
static inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return cuda_conv(evstub::sync((void *)e)); }
static inline cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t s, cudaEvent_t e) { return cuda_conv(evstub::elapsed(ms, (void *)s, (void *)e)); }
static inline cudaError_t cudaGetLastError() { return cudaSuccess; }
static inline const char *cudaGetErrorString(cudaError_t) { return "stub error"; }
