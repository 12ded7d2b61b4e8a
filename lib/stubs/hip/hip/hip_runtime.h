// Stub runtime: only what event timing needs, backed by evstub.
#pragma once
#include <cstddef>
#include "evstub.h"
typedef enum hipError { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorInvalidResourceHandle = 400, hipErrorNotReady = 600 } hipError_t;
typedef struct hipEventStub *hipEvent_t;
typedef struct hipStreamStub *hipStream_t;
enum { hipEventDefault = 0, hipEventBlockingSync = 1, hipEventDisableTiming = 2 };
static inline hipError_t hip_conv(int r) { return r == evstub::OK ? hipSuccess : r == evstub::NOT_READY ? hipErrorNotReady : hipErrorInvalidResourceHandle; }
static inline hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned) { return hip_conv(evstub::create((void **)e, 2)); }
static inline hipError_t hipEventCreate(hipEvent_t *e) { return hip_conv(evstub::create((void **)e, 2)); }
static inline hipError_t hipEventDestroy(hipEvent_t e) { return hip_conv(evstub::destroy((void *)e)); }
static inline hipError_t hipEventRecord(hipEvent_t e, hipStream_t s = 0) { (void)s; return hip_conv(evstub::record((void *)e)); }
static inline hipError_t hipEventQuery(hipEvent_t e) { return hip_conv(evstub::query((void *)e)); }
static inline hipError_t hipEventSynchronize(hipEvent_t e) { return hip_conv(evstub::sync((void *)e)); }
static inline hipError_t hipEventElapsedTime(float *ms, hipEvent_t s, hipEvent_t e) { return hip_conv(evstub::elapsed(ms, (void *)s, (void *)e)); }
static inline hipError_t hipGetLastError() { return hipSuccess; }
static inline const char *hipGetErrorString(hipError_t) { return "stub error"; }
