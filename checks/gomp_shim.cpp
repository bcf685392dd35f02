// A stand-in for libgomp built with the same instrumentation as the code under
// test, so that ThreadSanitizer sees exactly the ordering OpenMP promises (fork,
// join, barriers, critical sections) and nothing more.  Work distribution uses
// relaxed atomics, which order nothing.
#include <pthread.h>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <chrono>

namespace {
constexpr int kShares = 4096;
struct Team {
    int n; pthread_barrier_t bar;
    std::vector<std::atomic<unsigned long long>> next; std::vector<std::atomic<int>> single;
    void* copy = nullptr;
    explicit Team(int k) : n(k), next(kShares), single(kShares) { pthread_barrier_init(&bar, nullptr, unsigned(k)); }
    ~Team() { pthread_barrier_destroy(&bar); }
};
struct Share { bool up = true; unsigned long long first = 0, count = 0, chunk = 1; long incr = 1; int id = 0; };
thread_local Team* team = nullptr;
thread_local int tid = 0, shares = 0, singles = 0;
thread_local Share cur;
thread_local int g_threads = 4;   // like OpenMP: per thread of the program

void setup(unsigned long long start, unsigned long long count, long incr, unsigned long long chunk) {
    cur.first = start; cur.count = count; cur.incr = incr; cur.chunk = chunk ? chunk : 1; cur.id = shares++ % kShares;
}
unsigned long long trips(long s, long e, long i) { if (i > 0) return s < e ? (unsigned long long)(e - s + i - 1) / (unsigned long long)i : 0; return s > e ? (unsigned long long)(s - e - i - 1) / (unsigned long long)(-i) : 0; }
unsigned long long utrips(bool up, unsigned long long s, unsigned long long e, unsigned long long i) { if (up) return s < e ? (e - s + i - 1) / i : 0; unsigned long long d = 0 - i; return s > e ? (s - e + d - 1) / d : 0; }
template <class T> bool grab(T* a, T* b) {
    unsigned long long k;
    if (team) k = team->next[cur.id].fetch_add(cur.chunk, std::memory_order_relaxed);
    else { k = cur.up ? 0 : cur.count; if (cur.up) { cur.up = false; if (!cur.count) return false; *a = T(cur.first); *b = T(cur.first + cur.count * (unsigned long long)cur.incr); return true; } return false; }
    if (k >= cur.count) return false;
    unsigned long long e = k + cur.chunk < cur.count ? k + cur.chunk : cur.count;
    *a = T(cur.first + k * (unsigned long long)cur.incr); *b = T(cur.first + e * (unsigned long long)cur.incr);
    return true;
}
struct Init { bool set = false; Share s; };
void region(void (*fn)(void*), void* data, unsigned nt, const Init& in) {
    int n = team ? 1 : int(nt ? nt : unsigned(g_threads));
    auto body = [&](Team* t, int id) {
        Team* ot = team; int oi = tid, os = shares, og = singles; Share oc = cur;
        team = t; tid = id; shares = 0; singles = 0; cur = Share(); if (in.set) { cur = in.s; cur.id = shares++; }
        fn(data);
        team = ot; tid = oi; shares = os; singles = og; cur = oc;
    };
    auto t = std::make_unique<Team>(n);
    std::vector<std::thread> th;
    for (int i = 1; i < n; ++i) th.emplace_back([&, i] { body(t.get(), i); });
    body(t.get(), 0);
    for (auto& x : th) x.join();
}
Init init(unsigned long long start, unsigned long long count, long incr, unsigned long long chunk) { Init i; i.set = true; i.s.first = start; i.s.count = count; i.s.incr = incr; i.s.chunk = chunk ? chunk : 1; return i; }
std::mutex g_crit, g_atomic;
void bar() { if (team && team->n > 1) pthread_barrier_wait(&team->bar); }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { region(fn, data, nt, Init()); }
void GOMP_barrier() { bar(); }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_critical_start() { g_crit.lock(); }
void GOMP_critical_end() { g_crit.unlock(); }
void GOMP_critical_name_start(void** p) { static std::mutex m; std::mutex* q; { std::lock_guard<std::mutex> l(m); if (!*p) *p = new std::mutex; q = static_cast<std::mutex*>(*p); } q->lock(); }
void GOMP_critical_name_end(void** p) { static_cast<std::mutex*>(*p)->unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
bool GOMP_single_start() { if (!team) return true; return team->single[singles++ % kShares].exchange(1, std::memory_order_relaxed) == 0; }
void* GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; bar(); void* r = team->copy; bar(); return r; }
void GOMP_single_copy_end(void* d) { if (team) { team->copy = d; bar(); bar(); } }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
    if (cpy) { std::vector<char> b(size_t(size + align)); char* a = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(b.data()) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1)); cpy(a, data); fn(a); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_loop_end() { bar(); }
bool GOMP_loop_end_cancel() { bar(); return false; }
void GOMP_loop_end_nowait() {}

#define LOOP(K)                                                                                             \
    bool GOMP_loop_##K##_next(long* a, long* b) { return grab(a, b); }                                       \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { setup((unsigned long long)s, trips(s, e, i), i, (unsigned long long)c); return grab(a, b); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return grab(a, b); }        \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { setup(s, utrips(up, s, e, i), long(i), c); return grab(a, b); } \
    void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { region(fn, d, nt, init((unsigned long long)s, trips(s, e, i), i, (unsigned long long)c)); }
#define LOOPR(K)                                                                                            \
    bool GOMP_loop_##K##_next(long* a, long* b) { return grab(a, b); }                                       \
    bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { setup((unsigned long long)s, trips(s, e, i), i, 1); return grab(a, b); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return grab(a, b); }        \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { setup(s, utrips(up, s, e, i), long(i), 1); return grab(a, b); } \
    void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { region(fn, d, nt, init((unsigned long long)s, trips(s, e, i), i, 1)); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)

unsigned GOMP_sections_start(unsigned n) { setup(1, n, 1, 1); long a, b; return grab(&a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_next() { long a, b; return grab(&a, &b) ? unsigned(a) : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { region(fn, d, nt, init(1, n, 1, 1)); }
void GOMP_sections_end() { bar(); }
bool GOMP_sections_end_cancel() { bar(); return false; }
void GOMP_sections_end_nowait() {}

void omp_set_num_threads(int n) { g_threads = n < 1 ? 1 : n; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_thread_num() { return tid; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return team ? 1 : 0; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct omp_lk { std::mutex* m; };
void omp_init_lock(omp_lk* l) { l->m = new std::mutex; }
void omp_destroy_lock(omp_lk* l) { delete l->m; }
void omp_set_lock(omp_lk* l) { l->m->lock(); }
void omp_unset_lock(omp_lk* l) { l->m->unlock(); }
int omp_test_lock(omp_lk* l) { return l->m->try_lock(); }
}
