// Each recorded stop event (an event recorded last, whose elapsed time is asked
// with respect to a start event) forms a device operation. Operation ids are
// given by the order in which events pairs are recorded as "stop": the n-th
// record of an event that is not a first record of its timer. Since only the
// elapsed() call tells start and stop apart, each event keeps its record
// sequence number and completion; ids are per *record* call.
#include "evstub.h"
#include <cstdio>
#include <map>
#include <set>
void drv_log(const char *fmt, ...);
namespace evstub {
struct Ev { int id; int kind; bool alive; bool recorded; bool done; float ms; int polls; };
static std::map<void *, Ev> evs;       // live and dead events
static std::map<int, void *> by_rec;   // record number -> event
static std::map<int, float> planned;   // record number -> ms
static int n_created = 0, n_destroyed = 0, n_rec = 0, n_bad = 0, n_notready = 0;
int drain_polls = -1;
static std::map<void *, int> rec_of;
static void bad(const char *w, void *e) { ++n_bad; drv_log("0 evbad %s %d\n", w, evs.count(e) ? evs[e].id : -1); }
int create(void **e, int kind)
{
  char *p = new char[1];
  // never reuse addresses: keep the byte allocated for ever
  evs[p] = Ev{n_created, kind, true, false, false, 0.f, 0};
  *e = p;
  drv_log("0 evcreate %d\n", n_created);
  ++n_created;
  return OK;
}
static Ev *get(void *e, const char *w)
{
  auto it = evs.find(e);
  if (it == evs.end() || !it->second.alive) { bad(w, e); return nullptr; }
  return &it->second;
}
int destroy(void *e)
{
  Ev *v = get(e, "destroy");
  if (!v) return INVALID;
  v->alive = false;
  ++n_destroyed;
  drv_log("0 evdestroy %d %d\n", v->id, rec_of.count(e) ? rec_of[e] : -1);
  return OK;
}
int record(void *e)
{
  Ev *v = get(e, "record");
  if (!v) return INVALID;
  v->recorded = true;
  v->done = false;
  v->polls = 0;
  v->ms = 0;
  rec_of[e] = n_rec;
  by_rec[n_rec] = e;
  drv_log("0 evrecord %d %d\n", v->id, n_rec);
  ++n_rec;
  return OK;
}
static bool step(Ev *v, void *e)
{
  if (v->done) return true;
  ++v->polls;
  if (drain_polls >= 0 && v->polls > drain_polls) {
    v->done = true;
    int r = rec_of[e];
    v->ms = planned.count(r) ? planned[r] : 1000.f + r;
    drv_log("0 evdone %d %a\n", r, (double)v->ms);
    return true;
  }
  return false;
}
int query(void *e)
{
  Ev *v = get(e, "query");
  if (!v) return INVALID;
  if (!v->recorded) return OK;
  if (step(v, e)) return OK;
  ++n_notready;
  return NOT_READY;
}
int sync(void *e)
{
  Ev *v = get(e, "sync");
  if (!v) return INVALID;
  if (v->recorded && !v->done) {
    int r = rec_of[e];
    v->done = true;
    v->ms = planned.count(r) ? planned[r] : 1000.f + r;
    drv_log("0 evdone %d %a\n", r, (double)v->ms);
  }
  return OK;
}
int elapsed(float *ms, void *s, void *e)
{
  Ev *a = get(s, "elapsed-start"), *b = get(e, "elapsed-stop");
  if (!a || !b) return INVALID;
  if (!a->recorded || !b->recorded) { bad("elapsed-unrecorded", e); return INVALID; }
  if (rec_of[s] > rec_of[e]) { bad("elapsed-order", e); return INVALID; }
  if (!step(b, e)) { ++n_notready; drv_log("0 evpoll %d notready\n", rec_of[e]); return NOT_READY; }
  *ms = b->ms;
  drv_log("0 evpoll %d ready %a\n", rec_of[e], (double)b->ms);
  return OK;
}
void complete(int rec, float ms)
{
  auto it = by_rec.find(rec);
  if (it == by_rec.end()) { drv_log("0 evbad complete %d\n", rec); return; }
  Ev &v = evs[it->second];
  if (rec_of[it->second] != rec || !v.alive) return;
  v.done = true;
  v.ms = ms;
  drv_log("0 evdone %d %a\n", rec, (double)ms);
}
void plan(int rec, float ms) { planned[rec] = ms; }
int records() { return n_rec; }
std::string stat()
{
  return std::to_string(n_created) + " " + std::to_string(n_destroyed) + " " + std::to_string(n_rec) + " " + std::to_string(n_bad) + " " + std::to_string(n_notready);
}
struct AtExit { ~AtExit() { drv_log("0 evfinal %s\n", stat().c_str()); } };
// Constructed during static initialisation, hence destroyed after the library's
// function-local singleton.
static AtExit at_exit;
}
