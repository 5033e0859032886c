#include "fiber.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <algorithm>
#include <openssl/crypto.h>
#include <pthread.h>
#include <errno.h>

namespace sched {
struct Fiber { ucontext_t ctx; const std::function<void()>* body; bool done = false; void* wait = nullptr; int wmode = 0; };
struct Lock { int writer = -1; int readers = 0; int once = 0; };
enum { MAXF = 4, STACK = 1 << 20 };
static Fiber F[MAXF];
static char* stacks[MAXF];
static ucontext_t main_ctx;
static int cur = -1, nf = 0;
static const std::vector<Preempt>* pre;
static size_t next_pre;
static const std::vector<int>* order;
static Result* R;
static std::map<void*, Lock> locks;
static long since;
bool (*filter)(const void*, long, bool) = nullptr;
bool (*ext_filter)(const uintptr_t*, int) = nullptr;

int self() { return cur; }
long now() { return R ? R->points : 0; }
void reset_locks() { locks.clear(); }

static bool can(int i)
{
    Fiber& f = F[i];
    if (f.done) return false;
    if (!f.wait) return true;
    Lock& l = locks[f.wait];
    if (f.wmode == 1) return l.writer < 0 && l.readers == 0;
    if (f.wmode == 2) return l.writer < 0;
    return l.once != 1;
}
static void go(int to)
{
    int from = cur;
    if (to == from) return;
    cur = to; R->switches++; since = 0;
    R->trace = mc::mix(R->trace, mc::mix(R->points, to));
    swapcontext(&F[from].ctx, &F[to].ctx);
}
static int pick(int except)
{
    for (int i : *order) if (i != except && can(i)) return i;
    return -1;
}
void point()
{
    if (cur < 0) return;
    long p = R->points++;
    if (next_pre < pre->size() && (*pre)[next_pre].pos == p) {
        int to = (cur + (*pre)[next_pre++].to) % nf;
        if (to != cur && can(to)) go(to);
        return;
    }
    if (++since > 2000000) { since = 0; int to = pick(cur); if (to >= 0) go(to); }   // a spinning fiber must not starve the others
}
static void die_deadlock()
{
    R->deadlock = true;
    int from = cur; cur = -1;
    swapcontext(&F[from].ctx, &main_ctx);
    abort();
}
static void block(void* l, int mode)
{
    F[cur].wait = l; F[cur].wmode = mode;
    while (!can(cur)) {
        int to = pick(cur);
        if (to < 0) die_deadlock();
        go(to);
    }
    F[cur].wait = nullptr;
}
static void tramp(int i)
{
    try { (*F[i].body)(); }
    catch (mc::Violation& v) { R->error = v.msg; }
    F[i].done = true;
    int to = pick(i);
    if (to < 0) {
        bool all = true;
        for (int k = 0; k < nf; k++) all = all && F[k].done;
        if (!all) R->deadlock = true;
        cur = -1;
        setcontext(&main_ctx);
    }
    cur = to; R->switches++; since = 0;
    R->trace = mc::mix(R->trace, mc::mix(R->points, to));
    setcontext(&F[to].ctx);
}
Result run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& ord, const std::vector<Preempt>& pr)
{
    Result r;
    R = &r; pre = &pr; next_pre = 0; order = &ord; nf = (int)bodies.size(); since = 0;
    for (int i = 0; i < nf; i++) {
        if (!stacks[i]) stacks[i] = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        F[i].done = false; F[i].wait = nullptr; F[i].body = &bodies[i];
        getcontext(&F[i].ctx);
        F[i].ctx.uc_stack.ss_sp = stacks[i]; F[i].ctx.uc_stack.ss_size = STACK; F[i].ctx.uc_link = nullptr;
        makecontext(&F[i].ctx, (void (*)())tramp, 1, i);
    }
    cur = ord[0];
    swapcontext(&main_ctx, &F[cur].ctx);
    cur = -1; R = nullptr;
    return r;
}
void explore(mc::Ctx& c, int n, int bound, uint64_t key, const World& w)
{
    std::vector<int> ord;
    for (int i = 0; i < n; i++) ord.push_back(i);
    int fact = n == 3 ? 6 : 2;
    int k = c.choose(fact, "order");
    for (int i = 0; i < k; i++) std::next_permutation(ord.begin(), ord.end());
    key = mc::mix(key, k);
    static std::map<uint64_t, long> memo;
    std::vector<Preempt> pr;
    long from = 0;
    for (int b = 0; b < bound; b++) {
        auto it = memo.find(key);
        long total;
        if (it == memo.end()) {
            w.fresh();
            auto bodies = w.bodies();
            total = memo[key] = run(bodies, ord, pr).points;
            if (memo.size() > 200000) memo.clear();
        } else total = it->second;
        long room = std::max(0l, total - from);
        int p = c.choose((int)room + 1, "preempt at");
        if (b == 0) c.shard();
        if (p == 0) break;                     // no further preemption
        long pos = from + p - 1;
        int to = n > 2 ? 1 + c.choose(n - 1, "to") : 1;   // relative to the running fiber
        pr.push_back({pos, to});
        key = mc::mix(key, mc::mix(pos + 1, to + 1));
        from = pos + 1;
    }
    c.shard();
    w.fresh();
    auto bodies = w.bodies();
    Result r = run(bodies, ord, pr);
    c.step(r.switches + r.points);
    c.state(mc::mix(r.trace, key >> 40));
    std::string s; for (auto& p : pr) s += mc::fmt(" point %ld -> thread +%d", p.pos, p.to);
    c.note("order %d,%d%s; preemptions:%s; %ld points, %ld switches", ord[0], ord[1], n > 2 ? mc::fmt(",%d", ord[2]).c_str() : "", s.empty() ? " none" : s.c_str(), r.points, r.switches);
    if (r.deadlock) c.fail("deadlock: every thread waits for a lock");
    if (!r.error.empty()) c.fail("%s", r.error.c_str());
    w.judge(r);
}
} // namespace sched

// ---- what the code under test calls -----------------------------------------
using namespace sched;
extern "C" {
void __sanitizer_cov_trace_pc() { if (cur >= 0) point(); }

static int lk(void* l, int mode)
{
    point();
    if (cur < 0) { Lock& q = locks[l]; if (mode == 1) q.writer = 99; else q.readers++; return 1; }
    Lock& q = locks[l];
    if (mode == 1 && q.writer == cur) { block(l, 1); return 0; }   // self deadlock
    block(l, mode);
    Lock& z = locks[l];
    if (mode == 1) z.writer = cur; else z.readers++;
    return 1;
}
static int unlk(void* l)
{
    Lock& q = locks[l];
    if (q.writer >= 0) q.writer = -1; else if (q.readers > 0) q.readers--; else return 0;
    point();
    return 1;
}
static int once(void* o, int* flag, void (*f)(void))
{
    point();
    if (*flag) return 1;
    Lock& q = locks[o];
    if (q.once == 1) { block(o, 3); return 1; }
    locks[o].once = 1;
    f();
    point();
    locks[o].once = 2; *flag = 2;
    locks.erase(o);
    return 1;
}
CRYPTO_RWLOCK* __wrap_CRYPTO_THREAD_lock_new() { return (CRYPTO_RWLOCK*)malloc(56); }
void __wrap_CRYPTO_THREAD_lock_free(CRYPTO_RWLOCK* l) { locks.erase(l); free(l); }
int __wrap_CRYPTO_THREAD_write_lock(CRYPTO_RWLOCK* l) { return l ? lk(l, 1) : 0; }
int __wrap_CRYPTO_THREAD_read_lock(CRYPTO_RWLOCK* l) { return l ? lk(l, 2) : 0; }
int __wrap_CRYPTO_THREAD_unlock(CRYPTO_RWLOCK* l) { return l ? unlk(l) : 0; }
int __wrap_CRYPTO_THREAD_run_once(CRYPTO_ONCE* o, void (*f)(void)) { return once(o, (int*)o, f); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { lk(m, 1); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { unlk(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { lk(m, 1); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { lk(m, 2); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { unlk(m); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { return once(o, (int*)o, f), 0; }
}

// -fsanitize=thread instrumentation without its runtime: every access to memory
// that is not on the running fiber's stack is a scheduling point.
static inline void acc(const void* p, long n, bool write)
{
    if (cur < 0) return;
    const char* q = (const char*)p;
    if (q >= stacks[cur] && q < stacks[cur] + STACK) return;
    if (filter && !filter(p, n, write)) return;
    point();
}
extern "C" {
// before every call that leaves the code under test (see check.py, "ext"): rax, r9, r8, rcx, rdx, rsi, rdi
void sched_ext(const uintptr_t* regs)
{
    if (cur < 0 || (ext_filter && !ext_filter(regs, 7))) return;
    point();
}
void __tsan_init() {}
void __tsan_func_entry(void*) { if (cur >= 0 && !filter) point(); }
void __tsan_func_exit() { if (cur >= 0 && !filter) point(); }
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false); } void __tsan_write##n(void* p) { acc(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_volatile_write##n(void* p) { acc(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { acc(p, n, false); }
void __tsan_write_range(void* p, long n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { point(); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
}
