// Controlled execution of parallel algorithms: every element of a parallel algorithm is a task run on a fiber; the memory accesses of
// the tasks (compiler instrumentation of -fsanitize=thread, whose callbacks are defined here) are recorded with the locks held.
//   VERIF_ORDER   index of the task permutation (0 = forward, 1 = reverse, otherwise the Lehmer code of a permutation)
//   VERIF_TREE    1: reductions grouped as trees
//   VERIF_PREEMPT "all:q" every task is preempted at each q-th synchronization point; "r:i:p" in the r-th region that has
//                 synchronizations, task i is preempted at its p-th synchronization point until all the others have finished
// Reports, to the trace: "P race ...", "P deadlock ...", and "P stat regions tasks accesses syncregions maxsync ntasks"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <set>
#include <string>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace feellgood_verif { void record(const char *fmt, ...); }

namespace verif_par
{
struct Rec { int task; int locks; uint8_t r, w; };
struct Fiber
    {
    ucontext_t ctx;
    char *stack = nullptr;
    int task = -1;
    int syncs = 0;
    bool done = true, parked = false;
    void *waiting = nullptr;          // mutex it waits for
    std::vector<void *> held;
    int lockset = 0;
    };
constexpr size_t STK = 512 * 1024;

static bool recording = false;         // inside a task
static int rt_depth = 0;               // inside the runtime itself
static Fiber *cur = nullptr;
static ucontext_t main_ctx;
static std::vector<Fiber *> fibers;
static std::unordered_map<uintptr_t, std::vector<Rec>> shadow;
static std::map<std::vector<void *>, int> lockset_ids;
static std::vector<std::vector<void *>> locksets;
static std::vector<void *> deferred;
static std::map<void *, std::pair<int, int>> owners;   // mutex -> (task, depth)
static std::set<std::pair<void *, void *>> lock_edges;
static long n_regions, n_tasks, n_access, n_sync_regions, n_switch;
static std::string sync_info;
static int guard_depth = 0;
static long order_idx = -1;
static int tree_mode, pre_all, pre_r = -1, pre_i, pre_p;
static int reports;
static std::set<std::string> seen;
static void (*task_fn)(void *, size_t);
static void *task_arg;
static char *tls_lo, *tls_hi;
static bool region_sync;

struct In { In() { rt_depth++; } ~In() { rt_depth--; } };

static void report(const char *kind, const char *fmt, ...)
    {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (!seen.insert(std::string(kind) + std::to_string(n_regions)).second || reports++ > 20) return;
    feellgood_verif::record("P %s %s\n", kind, b);
    }

static void configure()
    {
    if (order_idx >= 0) return;
    const char *s = getenv("VERIF_ORDER");
    order_idx = s ? atol(s) : 0;
    s = getenv("VERIF_TREE");
    tree_mode = s ? atoi(s) : 0;
    s = getenv("VERIF_PREEMPT");
    if (s && !strncmp(s, "all:", 4)) pre_all = atoi(s + 4);
    else if (s) sscanf(s, "%d:%d:%d", &pre_r, &pre_i, &pre_p);
    }

std::vector<size_t> order(size_t n)
    {
    configure();
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = i;
    if (order_idx == 1) std::reverse(v.begin(), v.end());
    else if (order_idx > 1)
        {   // Lehmer code, cyclically extended to any number of tasks
        unsigned long x = order_idx;
        std::vector<size_t> o, left = v;
        unsigned long code = x;
        for (size_t i = 0; i < n; i++)
            {
            size_t k = left.size();
            size_t j = code % k;
            code /= k;
            if (code == 0) code = x + i;
            o.push_back(left[j]);
            left.erase(left.begin() + j);
            }
        v = o;
        }
    return v;
    }
bool tree() { configure(); return tree_mode; }

static int set_id(const std::vector<void *> &h)
    {
    std::vector<void *> k(h);
    std::sort(k.begin(), k.end());
    auto it = lockset_ids.find(k);
    if (it != lockset_ids.end()) return it->second;
    int id = locksets.size();
    locksets.push_back(k);
    lockset_ids[k] = id;
    return id;
    }
static bool disjoint(int a, int b)
    {
    for (void *x : locksets[a])
        for (void *y : locksets[b])
            if (x == y) return false;
    return true;
    }

static void access(void *addr, size_t size, bool write)
    {
    if (!recording || rt_depth || guard_depth) return;
    char *p = static_cast<char *>(addr);
    if (p >= cur->stack && p < cur->stack + STK) return;
    if (p >= tls_lo && p < tls_hi) return;
    In in;
    n_access++;
    uintptr_t a = reinterpret_cast<uintptr_t>(addr), e = a + size;
    while (a < e)
        {
        uintptr_t g = a >> 3, ge = std::min(e, (g + 1) << 3);
        uint8_t m = 0;
        for (; a < ge; a++) m |= 1 << (a & 7);
        auto &v = shadow[g];
        int same = 0;
        bool mine = false;
        for (Rec &r : v)
            {
            if (r.task == cur->task)
                {
                if (r.locks == cur->lockset)
                    {
                    uint8_t &f = write ? r.w : r.r;
                    if ((f & m) == m) { mine = true; }
                    else { f |= m; mine = true; }
                    }
                continue;
                }
            if (((r.w & m) || (write && (r.r & m))) && disjoint(r.locks, cur->lockset))
                report("race", "region %ld (of %s): tasks %d and %d both access %p, %s without a common lock", n_regions, "the run",
                       r.task, cur->task, addr, write ? (r.w & m ? "both writing" : "the second writing") : "the first writing");
            if (r.locks == cur->lockset && ((write ? r.w : r.r) & m) == m) same++;
            }
        // two tasks per kind of access are enough to expose any conflict with a third one
        if (!mine && same < 2) v.push_back({cur->task, cur->lockset, (uint8_t) (write ? 0 : m), (uint8_t) (write ? m : 0)});
        }
    }

static void yield_to_main()
    {
    n_switch++;
    recording = false;
    Fiber *f = cur;
    int depth = rt_depth, guard = guard_depth;
    guard_depth = 0;
    swapcontext(&f->ctx, &main_ctx);
    rt_depth = depth;
    guard_depth = guard;
    recording = true;
    cur = f;
    }

/** a synchronization point of the current task */
static void sync_point()
    {
    int p = cur->syncs++;
    region_sync = true;
    if (pre_all > 0 && p % pre_all == 0) { cur->parked = false; yield_to_main(); }
    else if (pre_r == n_sync_regions && cur->task == pre_i && p == pre_p) { cur->parked = true; yield_to_main(); }
    }

static void entry(unsigned lo, unsigned hi)
    {
    Fiber *f = reinterpret_cast<Fiber *>(((uintptr_t) hi << 32) | lo);
    recording = true;
    task_fn(task_arg, f->task);
    recording = false;
    f->done = true;
    if (!f->held.empty()) { In in; report("deadlock", "region %ld: task %d ends with a lock held", n_regions, f->task); }
    setcontext(&main_ctx);
    }

static Fiber *start(size_t task)
    {
    Fiber *f = nullptr;
    for (Fiber *x : fibers) if (x->done) f = x;
    if (!f)
        {
        f = new Fiber;
        f->stack = static_cast<char *>(memalign(4096, STK));
        fibers.push_back(f);
        }
    f->task = task;
    f->syncs = 0;
    f->done = f->parked = false;
    f->waiting = nullptr;
    f->held.clear();
    f->lockset = set_id(f->held);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STK;
    f->ctx.uc_link = nullptr;
    uintptr_t a = reinterpret_cast<uintptr_t>(f);
    makecontext(&f->ctx, (void (*)()) entry, 2, (unsigned) a, (unsigned) (a >> 32));
    return f;
    }

static void resume(Fiber *f)
    {
    cur = f;
    int d = rt_depth;
    rt_depth = 0;
    swapcontext(&main_ctx, &f->ctx);
    rt_depth = d;
    recording = false;
    cur = nullptr;
    }

void run_tasks(size_t n, void (*task)(void *, size_t), void *arg, bool parallel)
    {
    if (!parallel || recording || !n)
        {   // sequential policy, or nested parallelism: part of the present task
        for (size_t i = 0; i < n; i++) task(arg, i);
        return;
        }
    In in;
    configure();
    if (!tls_hi)
        {
        char *fs;
        asm("mov %%fs:0, %0" : "=r"(fs));
        tls_hi = fs + 4096;
        tls_lo = fs - 65536;
        }
    n_regions++;
    n_tasks += n;
    region_sync = false;
    task_fn = task;
    task_arg = arg;
    shadow.clear();
    owners.clear();
    lock_edges.clear();
    std::vector<size_t> o = order(n);
    std::vector<Fiber *> live, parked;
    size_t next = 0;
    int max_sync = 0;
    long stalled = 0;
    while (next < n || !live.empty() || !parked.empty())
        {
        Fiber *f;
        // under "all:q" keep up to 4 tasks in flight, round robin
        if (next < n && (live.empty() || (pre_all > 0 && live.size() < 4))) { f = start(o[next++]); live.push_back(f); }
        else if (!live.empty()) { f = live.front(); std::rotate(live.begin(), live.begin() + 1, live.end()); }
        else { live = parked; parked.clear(); for (Fiber *x : live) x->parked = false; continue; }
        if (f->waiting && owners.count(f->waiting))
            {
            // blocked; if its owner is parked, wake it up
            if (++stalled > (long) (live.size() + parked.size()) * 2 + 4)
                {
                if (!parked.empty()) { live.insert(live.end(), parked.begin(), parked.end()); parked.clear(); for (Fiber *x : live) x->parked = false; stalled = 0; continue; }
                if (next < n && live.size() < 4) { live.push_back(start(o[next++])); stalled = 0; continue; }
                report("deadlock", "region %ld: task %d waits forever for a lock held by task %d", n_regions, f->task, owners[f->waiting].first);
                _exit(99);
                }
            continue;
            }
        stalled = 0;
        resume(f);
        if (f->done || f->parked)
            {
            max_sync = std::max(max_sync, f->syncs);
            if (f->parked) parked.push_back(f);
            live.erase(std::find(live.begin(), live.end(), f));
            }
        }
    // a cycle in the order of acquisition is a deadlock under some schedule
    std::map<void *, std::set<void *>> g;
    for (auto &e : lock_edges) g[e.first].insert(e.second);
    for (bool more = true; more;)
        {
        more = false;
        for (auto &x : g)
            for (void *y : std::set<void *>(x.second))
                if (g.count(y))
                    for (void *z : std::set<void *>(g[y]))
                        if (x.second.insert(z).second) more = true;
        }
    for (auto &x : g)
        if (x.second.count(x.first)) report("deadlock", "region %ld: locks are acquired in conflicting orders", n_regions);
    if (region_sync)
        {
        sync_info += " " + std::to_string(n) + "x" + std::to_string(max_sync);
        n_sync_regions++;
        }
    for (void *p : deferred) free(p);
    deferred.clear();
    }

static void finish()
    {
    static bool done;
    if (done) return;
    done = true;
    In in;
    feellgood_verif::record("P stat %ld %ld %ld %ld %ld |%s\n", n_regions, n_tasks, n_access, n_sync_regions, n_switch, sync_info.substr(0, 400).c_str());
    }
struct Fin { Fin() { atexit(finish); } } fin;
}

using namespace verif_par;

// ------------------------------------------------------------------ locks, memory, script engine
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
    {
    if (!recording) return __real_pthread_mutex_lock(m);
    rt_depth++;
    sync_point();
    if (owners.count(m) && owners[m].first == cur->task)
        report("deadlock", "region %ld: task %d locks twice the same mutex", n_regions, cur->task);
    else
        {
        while (owners.count(m)) { cur->waiting = m; yield_to_main(); }
        cur->waiting = nullptr;
        for (void *h : cur->held) lock_edges.insert({h, m});
        owners[m] = {cur->task, 1};
        cur->held.push_back(m);
        cur->lockset = set_id(cur->held);
        sync_point();
        }
    rt_depth--;
    return 0;
    }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
    {
    if (!recording) return __real_pthread_mutex_lock(m);
    if (owners.count(m)) return 16;
    return __wrap_pthread_mutex_lock(m);
    }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
    {
    if (!recording) return __real_pthread_mutex_unlock(m);
    rt_depth++;
    auto it = std::find(cur->held.begin(), cur->held.end(), (void *) m);
    if (it == cur->held.end()) report("deadlock", "region %ld: task %d unlocks a mutex it does not hold", n_regions, cur->task);
    else
        {
        cur->held.erase(it);
        owners.erase(m);
        cur->lockset = set_id(cur->held);
        sync_point();
        }
    rt_depth--;
    return 0;
    }

int __real___cxa_guard_acquire(int64_t *);
void __real___cxa_guard_release(int64_t *);
int __wrap___cxa_guard_acquire(int64_t *g) { int r = __real___cxa_guard_acquire(g); if (r && recording) guard_depth++; return r; }
void __wrap___cxa_guard_release(int64_t *g) { if (guard_depth) guard_depth--; __real___cxa_guard_release(g); }

void *__real_malloc(size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void *p)
    {
    if (!p) return;
    if (recording && !rt_depth) { access(p, 1, true); rt_depth++; deferred.push_back(p); rt_depth--; }
    else __real_free(p);
    }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access((void *) s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access((void *) s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }
static int rand_state;
int __real_rand();
int __wrap_rand() { access(&rand_state, 4, true); return __real_rand(); }
int __real_duk_pcall(void *, int);
int __wrap_duk_pcall(void *c, int n) { access(c, 8, true); return __real_duk_pcall(c, n); }
void __real_duk_push_number(void *, double);
void __wrap_duk_push_number(void *c, double x) { access(c, 8, true); __real_duk_push_number(c, x); }

// ------------------------------------------------------------------ callbacks of the instrumentation
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int) { return __atomic_load_n(a, 5); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int) { __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
}

void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
