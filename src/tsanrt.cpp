#include "tsanrt.hpp"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <unistd.h>
namespace rt {
enum { OFF, RECORD, SCHED };
struct Table {
    static constexpr size_t N = 1 << 15; std::vector<uintptr_t> k; std::vector<unsigned char> r, w; size_t used = 0;
    Table() : k(N, 0), r(N, 0), w(N, 0) {}
    size_t at(uintptr_t g) { size_t h = (g * 0x9E3779B97F4A7C15ull) >> 49; while (k[h] && k[h] != g) h = (h + 1) & (N - 1); if (!k[h]) { k[h] = g; if (++used > N / 2) { std::fprintf(stderr, "access table full\n"); _exit(4); } } return h; }
};
struct T { int mode = OFF; int me = 0; uintptr_t lo = 0, hi = 0; Table* tab = nullptr; unsigned long long n = 0; };
static thread_local T t;
static struct { sem_t sem[2]; bool done[2]; int left; std::vector<int> plan; size_t next; Granules c; Outcome out; bool spin; } s;

static int take() { return s.next < s.plan.size() ? s.plan[s.next++] : INT_MAX; }
static void over(bool consume) {                 // let the other thread run
    int o = 1 - t.me; if (s.done[o]) return;
    if (consume) s.left = take();
    sem_post(&s.sem[o]); while (sem_wait(&s.sem[t.me])) {}
}
static void hit() {
    ++s.out.hits[t.me];
    while (s.left == 0) { if (s.done[1 - t.me]) { s.left = INT_MAX; break; } over(true); }
    if (s.left != INT_MAX) --s.left;
}
static inline void access(uintptr_t a, size_t n, bool wr) {
    if (!t.mode || (a >= t.lo && a < t.hi) || !n) return;
    if (t.mode == RECORD) {
        ++t.n;
        for (uintptr_t g = a >> 3, e = (a + n - 1) >> 3; g <= e; ++g) {
            unsigned m = 0xff; if (g == a >> 3) m &= 0xffu << (a & 7); if (g == e) m &= 0xffu >> (7 - ((a + n - 1) & 7));
            size_t i = t.tab->at(g); (wr ? t.tab->w : t.tab->r)[i] |= m;
        }
    } else {
        uintptr_t g = a >> 3, e = (a + n - 1) >> 3; auto it = std::lower_bound(s.c.begin(), s.c.end(), g);
        if (it != s.c.end() && *it <= e) hit();
    }
}
static void stack_bounds() { pthread_attr_t a; void* p; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); t.lo = (uintptr_t)p; t.hi = t.lo + n; }
// the part of the thread's stack mapping above the frames holds its TLS: keep that visible
static void frame_top(void* f) { t.hi = (uintptr_t)f; }
std::pair<Log, Log> record(const std::function<void()>& f, const std::function<void()>& g) {
    Log l[2]; Table tab[2]; sem_t go[2], end[2]; std::vector<std::thread> th;
    for (int i = 0; i < 2; ++i) { sem_init(&go[i], 0, 0); sem_init(&end[i], 0, 0); }
    for (int i = 0; i < 2; ++i) th.emplace_back([&, i] {
        while (sem_wait(&go[i])) {}
        char top; stack_bounds(); frame_top(&top + 256); t.tab = &tab[i]; t.n = 0; t.mode = RECORD; (i ? g : f)(); t.mode = OFF; l[i].accesses = t.n;
        sem_post(&end[i]); while (sem_wait(&go[i])) {}          // stays alive: its stack, TLS and heap arena are not reused
    });
    for (int i = 0; i < 2; ++i) { sem_post(&go[i]); while (sem_wait(&end[i])) {} }
    for (int i = 0; i < 2; ++i) { sem_post(&go[i]); th[i].join(); }
    for (int q = 0; q < 2; ++q) for (size_t i = 0; i < Table::N; ++i) if (tab[q].k[i]) { l[q].addr.push_back(tab[q].k[i]); l[q].r.push_back(tab[q].r[i]); l[q].w.push_back(tab[q].w[i]); }
    return {std::move(l[0]), std::move(l[1])};
}
Granules conflicts(const Log& a, const Log& b) {
    std::vector<std::pair<uintptr_t, int>> v; Granules c;
    for (size_t i = 0; i < b.addr.size(); ++i) v.push_back({b.addr[i], (int)i});
    std::sort(v.begin(), v.end());
    for (size_t i = 0; i < a.addr.size(); ++i) {
        auto it = std::lower_bound(v.begin(), v.end(), std::make_pair(a.addr[i], 0)); if (it == v.end() || it->first != a.addr[i]) continue; int j = it->second;
        if ((a.w[i] & (b.r[j] | b.w[j])) | (b.w[j] & a.r[i])) c.push_back(a.addr[i]);
    }
    std::sort(c.begin(), c.end()); return c;
}
Outcome schedule(const std::function<void()>& f, const std::function<void()>& g, const Granules& c, int first, const std::vector<int>& plan) {
    s.c = c; s.plan = plan; s.next = 0; s.out = Outcome(); s.left = take(); s.spin = false;
    for (int i = 0; i < 2; ++i) { sem_init(&s.sem[i], 0, 0); s.done[i] = false; }
    auto run = [&](int me, const std::function<void()>& fn) {
        char top; stack_bounds(); frame_top(&top + 256); t.me = me; while (sem_wait(&s.sem[me])) {}
        t.mode = SCHED; fn(); t.mode = OFF;
        s.done[me] = true; if (!s.done[1 - me]) { s.left = take(); sem_post(&s.sem[1 - me]); }
    };
    std::thread a([&] { run(0, f); }), b([&] { run(1, g); });
    sem_post(&s.sem[first]); a.join(); b.join(); return s.out;
}
static void blocked() {                          // a lock is held by the other thread
    if (s.done[1 - t.me]) { std::printf("deadlock\n"); std::fflush(stdout); _exit(5); }
    over(false);
}
}
using rt::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); } void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true); }
void* __tsan_memcpy(void* d, const void* q, size_t n) { access((uintptr_t)q, n, false); access((uintptr_t)d, n, true); return std::memcpy(d, q, n); }
void* __tsan_memmove(void* d, const void* q, size_t n) { access((uintptr_t)q, n, false); access((uintptr_t)d, n, true); return std::memmove(d, q, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true); return std::memset(d, c, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { access((uintptr_t)p, b / 8, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access((uintptr_t)p, b / 8, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((uintptr_t)p, b / 8, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((uintptr_t)p, b / 8, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((uintptr_t)p, b / 8, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// initialisation of function-local statics: byte 0 = done, byte 1 = in progress
int __cxa_guard_acquire(char* g) {
    for (;;) { if (__atomic_load_n(g, __ATOMIC_SEQ_CST)) return 0; char z = 0; if (__atomic_compare_exchange_n(g + 1, &z, (char)1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1; if (rt::t.mode == rt::SCHED) rt::blocked(); else usleep(50); }
}
void __cxa_guard_release(char* g) { __atomic_store_n(g, (char)1, __ATOMIC_SEQ_CST); __atomic_store_n(g + 1, (char)0, __ATOMIC_SEQ_CST); }
void __cxa_guard_abort(char* g) { __atomic_store_n(g + 1, (char)0, __ATOMIC_SEQ_CST); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (rt::t.mode == rt::SCHED) { while (pthread_mutex_trylock(m)) rt::blocked(); return 0; }
    if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real(m);
}
}
