#include "ctl.h"
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <dlfcn.h>
extern "C" char __data_start, _end;
namespace ctl {
namespace {
struct Thread {
  int id;
  sem_t go;
  bool done = false;
  std::vector<Point> stops;
  size_t next = 0;
  std::unordered_map<uintptr_t, int> nent, nacc;
};
Thread *T[2];
__thread Thread *me = nullptr;
Trace *rec = nullptr;
int rec_occ = 0;
std::unordered_map<uintptr_t, int> rec_ent, rec_acc;
const std::set<uintptr_t> *watched = nullptr;
int nswitch;
__thread bool busy = false;
void yield_to_other() {
  Thread *o = T[1 - me->id];
  if (o->done) return;
  nswitch++;
  sem_post(&o->go);
  sem_wait(&me->go);
}
void hit(uintptr_t pc, bool entry) {
  int n = ++(entry ? me->nent : me->nacc)[pc];
  if (me->next < me->stops.size()) {
    const Point &p = me->stops[me->next];
    if (p.entry == entry && p.pc == pc && p.n == n) { me->next++; yield_to_other(); }
  }
}
bool is_global(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
void access(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  if (busy || !is_global(a)) return;
  busy = true;
  if (rec) {
    int occ = ++rec_acc[pc];
    for (uintptr_t w = a & ~7ul; w < a + size; w += 8) {
      rec->access[w] |= write ? 2 : 1;
      if (occ <= rec_occ) rec->shared.push_back({Point{pc, occ, false}, w});
    }
  } else if (me && watched) {
    bool w = false;
    for (uintptr_t x = a & ~7ul; x < a + size; x += 8) w = w || watched->count(x);
    if (w) hit(pc, false);
    else ++me->nacc[pc];
  }
  busy = false;
}
void entry(uintptr_t pc) {
  if (busy) return;
  busy = true;
  if (rec) {
    rec->events++;
    if (++rec_ent[pc] == 1) rec->entries.push_back(Point{pc, 1, true});
  } else if (me) hit(pc, true);
  busy = false;
}
struct Arg { Thread *t; const std::function<void()> *f; };
void *body(void *p) {
  Arg *a = (Arg *)p;
  me = a->t;
  sem_wait(&me->go);
  (*a->f)();
  me->done = true;
  Thread *o = T[1 - me->id];
  if (!o->done) sem_post(&o->go);
  return nullptr;
}
} // namespace
Trace record(const std::function<void()> &f, int occurrences) {
  Trace t;
  rec_ent.clear();
  rec_acc.clear();
  rec_occ = occurrences;
  rec = &t;
  f();
  rec = nullptr;
  return t;
}
void run(const std::function<void()> &f0, const std::function<void()> &f1, const std::vector<Point> &p0, const std::vector<Point> &p1, const std::set<uintptr_t> &w, int &switches) {
  Thread a, b;
  a.id = 0;
  b.id = 1;
  a.stops = p0;
  b.stops = p1;
  T[0] = &a;
  T[1] = &b;
  watched = &w;
  nswitch = 0;
  sem_init(&a.go, 0, 1);
  sem_init(&b.go, 0, 0);
  Arg x{&a, &f0}, y{&b, &f1};
  pthread_t t0, t1;
  pthread_create(&t0, nullptr, body, &x);
  pthread_create(&t1, nullptr, body, &y);
  pthread_join(t0, nullptr);
  pthread_join(t1, nullptr);
  switches = nswitch;
  watched = nullptr;
  sem_destroy(&a.go);
  sem_destroy(&b.go);
}
std::string where(uintptr_t pc) {
  Dl_info i;
  if (dladdr((void *)pc, &i) && i.dli_sname) return i.dli_sname;
  char b[40];
  snprintf(b, sizeof b, "%#lx", (unsigned long)pc);
  return b;
}
} // namespace ctl
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { ctl::entry(PC); }
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { ctl::access((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void *a) { ctl::access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { ctl::access((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { ctl::access((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { ctl::access((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { ctl::access((uintptr_t)a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { ctl::access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { ctl::access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { ctl::access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { ctl::access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { ctl::access((uintptr_t)a, 8, false, PC); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int) { ctl::access((uintptr_t)a, n / 8, false, PC); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_fetch_and(a, v, 5); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { ctl::access((uintptr_t)a, n / 8, true, PC); return __atomic_compare_exchange_n(a, e, v, true, 5, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
