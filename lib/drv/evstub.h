// Stub event runtime shared by the fake cuda_runtime.h / hip_runtime.h.
#pragma once
#include <string>
namespace evstub {
enum { OK = 0, INVALID = 1, NOT_READY = 2 };
int create(void **e, int kind);
int destroy(void *e);
int record(void *e);
int query(void *e);
int sync(void *e);
int elapsed(float *ms, void *s, void *e);
void complete(int op, float ms);
void plan(int op, float ms);
std::string stat();
int records();
extern int drain_polls;  // >=0: an operation completes after that many polls (or syncs)
}
