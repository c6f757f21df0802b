// A deterministic, single-OS-thread implementation of the OpenMP runtime entry points GCC emits.
//
// It is linked into a build of TreeCorr's own C++ sources *instead of* libgomp.  Every member of an
// OpenMP team is a fiber (its own stack, switched by the few instructions below), all fibers of a
// team live on the one OS thread that called into the extension, and which fiber runs next is
// decided here -- from a seeded generator, or from an explicit list of preemptions when a recorded
// schedule is replayed.  TreeCorr's sources are compiled with -fsanitize=thread, but the
// ThreadSanitizer runtime is not linked: the __tsan_* callbacks, which the compiler places at every
// load and store, are defined here and are the points at which a fiber can be preempted.
//
// Nothing in this file reads a clock, an address or any other source that differs between two runs.

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <pthread.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define HOT __attribute__((hot))
#define NOINLINE __attribute__((noinline))

typedef unsigned long long ull;

// ------------------------------------------------------------------------------------------------
// PRNG (splitmix / xorshift*), owned by the scheduler alone.
struct Rng {
    uint64_t s;
    void seed(uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static inline uint64_t mix(uint64_t h, uint64_t v)
{ h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

// ------------------------------------------------------------------------------------------------
// Configuration / statistics, set and read from Python through ctypes.
enum { M_EXPLICIT=0, M_RANDOM=1, M_SITE=2, M_PCT=3, M_STALL=4 };
struct Config {
    int mode;            // see above
    int max_team;        // the runtime grants at most this many threads (0: what was asked for)
    int perm;            // hand out chunks of dynamic loops in a permuted order
    int vary_team;       // grant a random number of threads 1..n in each region
    uint64_t seed;
    double mean;         // M_RANDOM: mean number of accesses between preemptions
    int site_mod;        // M_SITE: 1 in site_mod access sites preempts
    int pct_depth;       // M_PCT: number of priority change points
    uint64_t pct_range;  // M_PCT / M_STALL: change points are drawn from [0, pct_range) steps
    uint64_t step_limit; // liveness bound: more yield points than this in one region is a hang
};
static Config cfg;
static Rng rng;          // schedule decisions
static Rng teamrng;      // team sizes and loop permutations: independent of the schedule decisions

struct Stats {
    uint64_t regions, multi_regions, steps, switches, forced, criticals, contended, barriers,
             loops, chunks, maxteam, hash, iters_hash, denied, stalls, sites;
};
static Stats st;

struct Preempt { uint64_t step; int target; };
static std::vector<Preempt> plan;      // explicit schedule to follow
static size_t plan_pos;
static std::vector<Preempt> trace;     // schedule actually taken (switches that are not the default)
static size_t trace_cap = 2000000;
static int nthreads_var = 1;

static uint64_t step;                  // yield points passed since simomp_configure
static uint64_t next_preempt;          // fast path: no decision needed before this step
static uint64_t region_start;
static uintptr_t module_base;
static std::vector<uint64_t> change_points; static size_t change_pos;

// ------------------------------------------------------------------------------------------------
// Fibers
struct Fiber { void* sp; void* stack; size_t size; };
asm(R"(
.text
.globl simomp_switch
.hidden simomp_switch
.type simomp_switch,@function
simomp_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq (%rsi), %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size simomp_switch,.-simomp_switch
)");
extern "C" void simomp_switch(void** save_sp, void** load_sp);

static const int MAXT = 64;
enum State { RUN, BLOCK_LOCK, BLOCK_BARRIER, BLOCK_ORDERED, DONE };

struct WorkShare {
    bool init; bool up; bool is_ull;
    long start, end, incr, chunk; long next_idx, nchunks;
    std::vector<long> order;
    int left; int single_taken; long sections; void* copydata;
};

struct Team {
    int n; void (*fn)(void*); void* data;
    Fiber fib[MAXT]; State state[MAXT]; void* waitlock[MAXT];
    uint64_t prio[MAXT];
    int cur; int ndone; int at_barrier; int barrier_gen;
    int wsgen[MAXT];                   // how many worksharing constructs each thread has entered
    std::vector<WorkShare*> ws;        // indexed by generation
    void* main_sp;
    Team* parent;
    int stalled;
    char* tls[MAXT]; char* tls_main;
};
static Team* team = 0;                 // innermost *multi-threaded* team, or 0
static bool active = false;            // true while a team of >1 fibers is running
static int serial_level = 0;           // nested / one-thread regions
static std::vector<WorkShare*> serial_ws;

static std::vector<std::pair<void*,size_t> > stack_pool;
static const size_t STACK = 16u << 20;

static void* get_stack()
{
    if (!stack_pool.empty()) { void* p = stack_pool.back().first; stack_pool.pop_back(); return p; }
    void* p = mmap(0, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "SIMOMP-HARNESS: cannot map a fiber stack\n"); _exit(90); }
    mprotect(p, 4096, PROT_NONE);
    return p;
}

static void die(const char* what, int code)
{
    fprintf(stderr, "SIMOMP-%s step=%llu\n", what, (ull)step);
    fflush(stderr);
    _exit(code);
}

// locks: critical sections (unnamed, named), atomic fallback, omp locks
struct Lock { void* key; int owner; int depth; };
static std::vector<Lock> locks;
static Lock& get_lock(void* key)
{
    for (size_t i=0;i<locks.size();++i) if (locks[i].key == key) return locks[i];
    Lock l; l.key = key; l.owner = -1; l.depth = 0; locks.push_back(l); return locks.back();
}

static inline bool runnable(int i) { return team->state[i] == RUN; }

static void set_next_preempt()
{
    switch (cfg.mode) {
      case M_EXPLICIT:
        next_preempt = plan_pos < plan.size() ? plan[plan_pos].step : ~0ull; break;
      case M_RANDOM: {
        double m = cfg.mean;
        if (m <= 1.) next_preempt = step + 1;
        else {
            // geometric with mean m, by inversion without libm: draw in blocks
            uint64_t k = 1; uint64_t lim = (uint64_t)(4294967296.0 / m);
            if (m <= 64.) { while ((rng.next() & 0xffffffffull) >= lim && k < 4096) ++k; }
            else k = 1 + rng.below((uint64_t)(2.*m));
            next_preempt = step + k;
        }
        break; }
      case M_SITE: next_preempt = step + 1; break;
      case M_PCT: case M_STALL:
        next_preempt = change_pos < change_points.size() ? change_points[change_pos] : ~0ull; break;
    }
}

static void record(int target)
{
    if (trace.size() < trace_cap) { Preempt p; p.step = step; p.target = target; trace.push_back(p); }
    st.hash = mix(st.hash, step * 64 + target);
}

// thread_local / threadprivate data of this module: every fiber has its own copy of the module's
// TLS block, exchanged on each switch (all fibers share one OS thread, hence one real block).
static size_t tls_size = 0, tls_init_size = 0; static const void* tls_image = 0; static size_t tls_modid = 0;
struct TlsIndex { size_t mod, off; };
extern "C" void* __tls_get_addr(TlsIndex*);
static int tls_cb(struct dl_phdr_info* info, size_t, void* self)
{
    bool mine = false;
    for (int i=0;i<info->dlpi_phnum;++i)
        if (info->dlpi_phdr[i].p_type == PT_LOAD) {
            uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            if ((uintptr_t)self >= a && (uintptr_t)self < a + info->dlpi_phdr[i].p_memsz) mine = true;
        }
    if (!mine) return 0;
    for (int i=0;i<info->dlpi_phnum;++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tls_size = info->dlpi_phdr[i].p_memsz; tls_init_size = info->dlpi_phdr[i].p_filesz;
            tls_image = (const void*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
            tls_modid = info->dlpi_tls_modid;
        }
    return 1;
}
static void* tls_block() { TlsIndex ix = { tls_modid, 0 }; return __tls_get_addr(&ix); }
static void tls_swap(int from, int to)
{
    if (!tls_size) return;
    void* b = tls_block();
    if (from >= 0) memcpy(team->tls[from], b, tls_size);
    if (to >= 0) memcpy(b, team->tls[to], tls_size);
}

static void switch_to(int t)
{
    Team* tm = team;
    int c = tm->cur;
    if (t == c) return;
    ++st.switches;
    tm->cur = t;
    tls_swap(c, t);
    simomp_switch(&tm->fib[c].sp, &tm->fib[t].sp);
}

static int lowest_runnable()
{ for (int i=0;i<team->n;++i) if (runnable(i)) return i; return -1; }

static int nth_runnable(int k, int except)
{
    for (int i=0;i<team->n;++i) if (i != except && runnable(i)) { if (k == 0) return i; --k; }
    return -1;
}
static int count_runnable(int except)
{ int c=0; for (int i=0;i<team->n;++i) if (i != except && runnable(i)) ++c; return c; }
static int highest_prio()
{
    int b = -1;
    for (int i=0;i<team->n;++i) if (runnable(i) && (b < 0 || team->prio[i] > team->prio[b])) b = i;
    return b;
}

// The current fiber cannot continue (blocked or done): somebody else must run.
static void forced_switch(bool from_done)
{
    Team* tm = team;
    int c = tm->cur;
    ++step;
    int def = lowest_runnable();
    if (def < 0) {
        if (from_done && tm->ndone == tm->n) {       // all finished: back to the caller's stack
            void* dummy; simomp_switch(&dummy, &tm->main_sp);
        }
        die("DEADLOCK", 97);
    }
    int t = def;
    if (cfg.mode == M_EXPLICIT) {
        while (plan_pos < plan.size() && plan[plan_pos].step < step) ++plan_pos;
        if (plan_pos < plan.size() && plan[plan_pos].step == step) {
            int w = plan[plan_pos].target; ++plan_pos;
            if (w >= 0 && w < tm->n && runnable(w)) t = w;
        }
    } else if (cfg.mode == M_PCT || cfg.mode == M_STALL) t = highest_prio();
    else t = nth_runnable(rng.below(count_runnable(-1)), -1);
    if (t != def) record(t);
    st.hash = mix(st.hash, 1000003ull * (t + 1));
    ++st.forced; ++st.switches;
    set_next_preempt();
    tm->cur = t;
    tls_swap(c, t);
    simomp_switch(&tm->fib[c].sp, &tm->fib[t].sp);
}

// A point at which the scheduler may preempt; sync is true at synchronisation operations.
static void NOINLINE decide(bool sync, uintptr_t pc)
{
    Team* tm = team;
    int c = tm->cur;
    int t = c;
    if (step - region_start > cfg.step_limit) die("LIVELOCK", 98);
    switch (cfg.mode) {
      case M_EXPLICIT:
        while (plan_pos < plan.size() && plan[plan_pos].step < step) ++plan_pos;
        if (plan_pos < plan.size() && plan[plan_pos].step == step) {
            int w = plan[plan_pos].target; ++plan_pos;
            if (w >= 0 && w < tm->n && runnable(w)) t = w;
        }
        break;
      case M_RANDOM:
        if (sync ? (rng.next() & 1) : true) {
            int k = count_runnable(c);
            if (k > 0) t = nth_runnable(rng.below(k), c);
        }
        break;
      case M_SITE: {
        bool hit = sync;
        if (!sync) {
            uint64_t h = mix(cfg.seed, pc - module_base);
            hit = (h >> 20) % (uint64_t)cfg.site_mod == 0;
            if (hit) ++st.sites;
        }
        if (hit && (rng.next() & 1)) {
            int k = count_runnable(c);
            if (k > 0) t = nth_runnable(rng.below(k), c);
        }
        break; }
      case M_PCT: case M_STALL:
        while (change_pos < change_points.size() && change_points[change_pos] <= step) {
            tm->prio[c] = change_points.size() - change_pos;   // below every initial priority
            ++change_pos; ++st.stalls;
        }
        t = highest_prio();
        break;
    }
    set_next_preempt();
    if (t != c) { record(t); switch_to(t); }
}

static inline void HOT access_point(void* pc)
{
    if (__builtin_expect(!active, 1)) return;
    ++step;
    if (__builtin_expect(step >= next_preempt, 0)) decide(false, (uintptr_t)pc);
    else if (__builtin_expect((step & 0xfffff) == 0, 0) && step - region_start > cfg.step_limit)
        die("LIVELOCK", 98);
}
static void sync_point()
{
    if (!active) return;
    ++step;
    decide(true, 0);
}

// ------------------------------------------------------------------------------------------------
static void fiber_main()
{
    Team* tm = team;
    int me = tm->cur;
    tm->fn(tm->data);
    // implicit end: the join
    tm->state[me] = DONE; ++tm->ndone;
    forced_switch(true);
    die("RESUMED-DONE-FIBER", 91);
}

static void make_fiber(Fiber& f)
{
    f.stack = get_stack(); f.size = STACK;
    uintptr_t top = ((uintptr_t)f.stack + STACK) & ~(uintptr_t)63;
    uint64_t* sp = (uint64_t*)top;
    *--sp = 0;                          // fake return address / alignment
    *--sp = (uint64_t)&fiber_main;      // ret target
    for (int i=0;i<6;++i) *--sp = 0;    // rbp rbx r12-r15
    *--sp = 0;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mx; ((uint16_t*)sp)[2] = cw;
    f.sp = sp;
}

static void run_serial(void (*fn)(void*), void* data)
{
    bool was = active; active = false;
    ++serial_level;
    std::vector<WorkShare*> saved; saved.swap(serial_ws);
    fn(data);
    for (size_t i=0;i<serial_ws.size();++i) delete serial_ws[i];
    serial_ws.swap(saved);
    --serial_level;
    active = was;
}

EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned)
{
    ++st.regions;
    if (active || serial_level) { run_serial(fn, data); return; }   // nested: one thread, as libgomp
    int want = num_threads ? (int)num_threads : nthreads_var;
    if (want < 1) want = 1;
    if (want > MAXT) want = MAXT;
    int n = want;
    if (cfg.max_team > 0 && n > cfg.max_team) n = cfg.max_team;
    if (cfg.vary_team && n > 1) n = 1 + (int)teamrng.below(n);
    if (n < want) ++st.denied;
    if ((uint64_t)n > st.maxteam) st.maxteam = n;
    st.hash = mix(st.hash, 77 + n);
    if (n == 1) { run_serial(fn, data); return; }
    ++st.multi_regions;

    Team* tm = new Team();
    tm->n = n; tm->fn = fn; tm->data = data; tm->cur = 0; tm->ndone = 0; tm->at_barrier = 0;
    tm->barrier_gen = 0; tm->parent = 0; tm->stalled = -1;
    for (int i=0;i<n;++i) { tm->state[i] = RUN; tm->wsgen[i] = 0; tm->waitlock[i] = 0; make_fiber(tm->fib[i]); }
    // priorities for the PCT-style modes: a random permutation, all above every change point's
    for (int i=0;i<n;++i) tm->prio[i] = 1000000 + i;
    if (cfg.mode == M_PCT || cfg.mode == M_STALL) {
        for (int i=n-1;i>0;--i) { int j = rng.below(i+1); std::swap(tm->prio[i], tm->prio[j]); }
        change_points.clear(); change_pos = 0;
        std::vector<uint64_t> cps;
        for (int i=0;i<cfg.pct_depth;++i) cps.push_back(step + 1 + rng.below(cfg.pct_range));
        for (size_t i=1;i<cps.size();++i) for (size_t j=i;j>0 && cps[j-1]>cps[j];--j) std::swap(cps[j-1], cps[j]);
        change_points = cps;
    }
    team = tm; active = true; region_start = step;
    locks.clear();
    set_next_preempt();
    int first = 0;
    ++step;
    if (cfg.mode == M_EXPLICIT) {
        while (plan_pos < plan.size() && plan[plan_pos].step < step) ++plan_pos;
        if (plan_pos < plan.size() && plan[plan_pos].step == step) {
            int w = plan[plan_pos].target; ++plan_pos; if (w >= 0 && w < n) first = w;
        }
        set_next_preempt();
    } else if (cfg.mode == M_PCT || cfg.mode == M_STALL) first = highest_prio();
    else first = rng.below(n);
    if (first != 0) record(first);
    tm->cur = first;
    if (tls_size) {
        // Thread 0 of the team is the encountering thread and keeps its thread-local data.
        for (int i=0;i<n;++i) {
            tm->tls[i] = (char*)calloc(1, tls_size);
            if (i == 0) memcpy(tm->tls[i], tls_block(), tls_size);
            else memcpy(tm->tls[i], tls_image, tls_init_size);
        }
        tls_swap(-1, first);
    }
    simomp_switch(&tm->main_sp, &tm->fib[first].sp);
    if (tls_size) {
        memcpy(tm->tls[tm->cur], tls_block(), tls_size);
        memcpy(tls_block(), tm->tls[0], tls_size);
        for (int i=0;i<n;++i) free(tm->tls[i]);
    }
    active = false; team = 0;
    st.steps += step - region_start;
    for (int i=0;i<n;++i) stack_pool.push_back(std::make_pair(tm->fib[i].stack, tm->fib[i].size));
    for (size_t i=0;i<tm->ws.size();++i) delete tm->ws[i];
    delete tm;
}

// ------------------------------------------------------------------------------------------------
// identity
EXPORT int omp_get_thread_num() { return active ? team->cur : 0; }
EXPORT int omp_get_num_threads() { return active ? team->n : 1; }
EXPORT int omp_get_max_threads() { return nthreads_var; }
EXPORT int omp_get_num_procs() { return 8; }
EXPORT int omp_in_parallel() { return active; }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) nthreads_var = n > MAXT ? MAXT : n; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_schedule(int, int) {}
EXPORT void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
EXPORT int omp_get_level() { return (active ? 1 : 0) + serial_level; }
EXPORT int omp_get_active_level() { return active; }
EXPORT int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
EXPORT int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
EXPORT double omp_get_wtime() { return step * 1e-9; }        // simulated time
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT int omp_in_final() { return 0; }
EXPORT int omp_get_cancellation() { return 0; }
EXPORT int omp_get_num_teams() { return 1; }
EXPORT int omp_get_team_num() { return 0; }
EXPORT int omp_get_proc_bind() { return 0; }
EXPORT int omp_get_num_places() { return 0; }
EXPORT int omp_get_place_num() { return -1; }

// ------------------------------------------------------------------------------------------------
// locks
static void lock_acquire(void* key, bool nest)
{
    ++st.criticals;
    if (!active) return;
    sync_point();
    while (true) {
        Lock& l = get_lock(key);
        if (l.owner < 0) { l.owner = team->cur; l.depth = 1; st.hash = mix(st.hash, 5000 + team->cur); return; }
        if (nest && l.owner == team->cur) { ++l.depth; return; }
        ++st.contended;
        team->state[team->cur] = BLOCK_LOCK; team->waitlock[team->cur] = key;
        forced_switch(false);
    }
}
static void lock_release(void* key)
{
    if (!active) return;
    Lock& l = get_lock(key);
    if (--l.depth > 0) return;
    l.owner = -1;
    for (int i=0;i<team->n;++i)
        if (team->state[i] == BLOCK_LOCK && team->waitlock[i] == key) team->state[i] = RUN;
    sync_point();
}
static char unnamed_critical, atomic_lock;
EXPORT void GOMP_critical_start() { lock_acquire(&unnamed_critical, false); }
EXPORT void GOMP_critical_end() { lock_release(&unnamed_critical); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acquire(p, false); }
EXPORT void GOMP_critical_name_end(void** p) { lock_release(p); }
EXPORT void GOMP_atomic_start() { lock_acquire(&atomic_lock, false); }
EXPORT void GOMP_atomic_end() { lock_release(&atomic_lock); }
EXPORT void omp_init_lock(void*) {}
EXPORT void omp_destroy_lock(void*) {}
EXPORT void omp_set_lock(void* p) { lock_acquire(p, false); }
EXPORT void omp_unset_lock(void* p) { lock_release(p); }
EXPORT int omp_test_lock(void* p)
{ if (!active) return 1; Lock& l = get_lock(p); if (l.owner >= 0) { sync_point(); return 0; } lock_acquire(p,false); return 1; }
EXPORT void omp_init_nest_lock(void*) {}
EXPORT void omp_destroy_nest_lock(void*) {}
EXPORT void omp_set_nest_lock(void* p) { lock_acquire(p, true); }
EXPORT void omp_unset_nest_lock(void* p) { lock_release(p); }

// Function-local statics: the C++ runtime would put the (only) OS thread to sleep if a second fiber
// reached a static being initialised by the first.
EXPORT int __cxa_guard_acquire(char* g)
{
    if (*g) return 0;
    lock_acquire(g, false);
    if (*g) { lock_release(g); return 0; }
    return 1;
}
EXPORT void __cxa_guard_release(char* g) { *g = 1; lock_release(g); }
EXPORT void __cxa_guard_abort(char* g) { lock_release(g); }
// Likewise for pthread mutexes (std::mutex) taken by code inside a region.
template <typename F> static F real(const char* name, F& f)
{ if (!f) f = (F)dlsym(RTLD_NEXT, name); if (!f) f = (F)dlsym(RTLD_DEFAULT, name); return f; }
typedef int (*mfn)(pthread_mutex_t*);
static mfn r_lock, r_trylock, r_unlock;
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{ if (active) { lock_acquire(m, false); return 0; } return real("pthread_mutex_lock", r_lock)(m); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{ if (active) return omp_test_lock(m) ? 0 : 16; return real("pthread_mutex_trylock", r_trylock)(m); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{ if (active) { lock_release(m); return 0; } return real("pthread_mutex_unlock", r_unlock)(m); }

static void do_barrier()
{
    if (!active) return;
    ++st.barriers;
    Team* tm = team;
    sync_point();
    ++tm->at_barrier;
    if (tm->at_barrier == tm->n) {
        tm->at_barrier = 0; ++tm->barrier_gen;
        for (int i=0;i<tm->n;++i) if (tm->state[i] == BLOCK_BARRIER) tm->state[i] = RUN;
        sync_point();
    } else {
        tm->state[tm->cur] = BLOCK_BARRIER;
        forced_switch(false);
    }
}
EXPORT void GOMP_barrier() { do_barrier(); }
EXPORT bool GOMP_barrier_cancel() { do_barrier(); return false; }

// ------------------------------------------------------------------------------------------------
// work sharing
static WorkShare* enter_ws()
{
    if (!active) { WorkShare* w = new WorkShare(); serial_ws.push_back(w); w->init = false; w->left = 0; w->single_taken = 0; return w; }
    int me = team->cur; size_t g = team->wsgen[me]++;
    while (team->ws.size() <= g) {
        WorkShare* w = new WorkShare(); w->init = false; w->left = 0; w->single_taken = 0; w->copydata = 0;
        team->ws.push_back(w);
    }
    return team->ws[g];
}
static WorkShare* current_ws()
{
    if (!active) return serial_ws.empty() ? 0 : serial_ws.back();
    return team->ws[team->wsgen[team->cur]-1];
}
static void ws_init(WorkShare* w, long start, long end, long incr, long chunk)
{
    if (w->init) return;
    w->init = true; ++st.loops;
    w->start = start; w->end = end; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; w->next_idx = 0;
    long n = 0;
    if (incr > 0 ? start < end : start > end)
        n = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / (-incr);
    w->nchunks = (n + w->chunk - 1) / w->chunk;
    if (active && cfg.perm && w->nchunks > 1) {
        w->order.resize(w->nchunks);
        for (long i=0;i<w->nchunks;++i) w->order[i] = i;
        for (long i=w->nchunks-1;i>0;--i) { long j = teamrng.below(i+1); std::swap(w->order[i], w->order[j]); }
    }
}
static bool ws_next(WorkShare* w, long* istart, long* iend)
{
    sync_point();
    if (!w || w->next_idx >= w->nchunks) return false;
    long k = w->next_idx++;
    if (!w->order.empty()) k = w->order[k];
    ++st.chunks;
    long s = w->start + k * w->chunk * w->incr;
    long e = s + w->chunk * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *istart = s; *iend = e;
    if (active) st.iters_hash = mix(st.iters_hash, (uint64_t)k * 64 + team->cur);
    return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie)
{ WorkShare* w = enter_ws(); ws_init(w, start, end, incr, chunk); return ws_next(w, is, ie); }
static bool loop_next(long* is, long* ie) { return ws_next(current_ws(), is, ie); }

#define LOOPS(NAME) \
EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s,e,i,c,is,ie); } \
EXPORT bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is,ie); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided)
EXPORT bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s,e,i,1,is,ie); }
EXPORT bool GOMP_loop_runtime_next(long* is, long* ie) { return loop_next(is,ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s,e,i,1,is,ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loop_next(is,ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s,e,i,1,is,ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return loop_next(is,ie); }
// GCC expands static schedules inline; these entry points exist for ordered / reduction variants.
EXPORT bool GOMP_loop_static_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s,e,i,c,is,ie); }
EXPORT bool GOMP_loop_static_next(long* is, long* ie) { return loop_next(is,ie); }

EXPORT void GOMP_loop_end() { if (!active) { if (!serial_ws.empty()) { delete serial_ws.back(); serial_ws.pop_back(); } return; } do_barrier(); }
EXPORT void GOMP_loop_end_nowait() { if (!active && !serial_ws.empty()) { delete serial_ws.back(); serial_ws.pop_back(); } else sync_point(); }
EXPORT bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }

static bool ull_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie)
{ (void)up; return loop_start((long)s,(long)e,(long)i,(long)c,(long*)is,(long*)ie); }
#define ULOOPS(NAME) \
EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return ull_start(up,s,e,i,c,is,ie); } \
EXPORT bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return loop_next((long*)is,(long*)ie); }
ULOOPS(dynamic) ULOOPS(nonmonotonic_dynamic) ULOOPS(guided) ULOOPS(nonmonotonic_guided) ULOOPS(static)
EXPORT bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return ull_start(up,s,e,i,1,is,ie); }
EXPORT bool GOMP_loop_ull_runtime_next(ull* is, ull* ie) { return loop_next((long*)is,(long*)ie); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return ull_start(up,s,e,i,1,is,ie); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull* is, ull* ie) { return loop_next((long*)is,(long*)ie); }

// Combined parallel loops: every thread's outlined body calls *_next directly.
struct PLoop { void (*fn)(void*); void* data; long s, e, i, c; };
static void ploop_body(void* p) { PLoop* l = (PLoop*)p; WorkShare* w = enter_ws(); ws_init(w, l->s, l->e, l->i, l->c); l->fn(l->data); }
static void ploop(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned fl)
{ PLoop l = { fn, data, s, e, i, c }; GOMP_parallel(ploop_body, &l, nt, fl); }
#define PLOOPS(NAME) \
EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) { ploop(fn,d,nt,s,e,i,c,fl); }
PLOOPS(dynamic) PLOOPS(nonmonotonic_dynamic) PLOOPS(guided) PLOOPS(nonmonotonic_guided) PLOOPS(static)
EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { ploop(fn,d,nt,s,e,i,1,fl); }
EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { ploop(fn,d,nt,s,e,i,1,fl); }
EXPORT void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { ploop(fn,d,nt,s,e,i,1,fl); }

// sections: handed out like a dynamic loop 1..n
EXPORT unsigned GOMP_sections_start(unsigned n) { long a,b; return loop_start(1, (long)n+1, 1, 1, &a, &b) ? (unsigned)a : 0; }
EXPORT unsigned GOMP_sections_next() { long a,b; return loop_next(&a,&b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end() { GOMP_loop_end(); }
EXPORT void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned fl) { ploop(fn,d,nt,1,(long)n+1,1,1,fl); }

EXPORT bool GOMP_single_start()
{ if (!active) return true; WorkShare* w = enter_ws(); sync_point(); if (w->single_taken) return false; w->single_taken = 1; return true; }
EXPORT void* GOMP_single_copy_start()
{
    if (!active) return 0;
    WorkShare* w = enter_ws(); sync_point();
    if (!w->single_taken) { w->single_taken = 1; return 0; }
    do_barrier(); return w->copydata;
}
EXPORT void GOMP_single_copy_end(void* d) { if (!active) return; current_ws()->copydata = d; do_barrier(); }
EXPORT void GOMP_ordered_start() { sync_point(); }
EXPORT void GOMP_ordered_end() { sync_point(); }

// tasks: undeferred (legal for any implementation)
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align,
                      bool, unsigned, void**, int, void*)
{
    sync_point();
    if (cpyfn) {
        std::vector<char> buf(size + align);
        char* p = (char*)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
        cpyfn(p, data); fn(p);
    } else fn(data);
    sync_point();
}
EXPORT void GOMP_taskwait() { sync_point(); }
EXPORT void GOMP_taskyield() { sync_point(); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() { sync_point(); }
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

// ------------------------------------------------------------------------------------------------
// Compiler instrumentation callbacks
#define PC __builtin_return_address(0)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(N) \
EXPORT void HOT __tsan_read##N(void*) { access_point(PC); } \
EXPORT void HOT __tsan_write##N(void*) { access_point(PC); } \
EXPORT void HOT __tsan_unaligned_read##N(void*) { access_point(PC); } \
EXPORT void HOT __tsan_unaligned_write##N(void*) { access_point(PC); } \
EXPORT void HOT __tsan_volatile_read##N(void*) { access_point(PC); } \
EXPORT void HOT __tsan_volatile_write##N(void*) { access_point(PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void*, long) { access_point(PC); }
EXPORT void __tsan_write_range(void*, long) { access_point(PC); }
EXPORT void __tsan_vptr_update(void**, void*) {}
EXPORT void __tsan_vptr_read(void**) {}
#define ATOM(BITS, T) \
EXPORT T __tsan_atomic##BITS##_load(const volatile T* a, int) { access_point(PC); return *a; } \
EXPORT void __tsan_atomic##BITS##_store(volatile T* a, T v, int) { access_point(PC); *a = v; } \
EXPORT T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=v; return o; } \
EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=o+v; return o; } \
EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=o-v; return o; } \
EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=o&v; return o; } \
EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=o|v; return o; } \
EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int) { access_point(PC); T o=*a; *a=o^v; return o; } \
EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access_point(PC); if (*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access_point(PC); if (*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access_point(PC); T o=*a; if (o==e) *a=v; return o; }
ATOM(8, int8_t) ATOM(16, int16_t) ATOM(32, int32_t) ATOM(64, int64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------
// Allocation failures.  Only allocations made outside parallel regions are counted and can fail: an
// exception cannot leave an OpenMP region, so inside one any failure ends the process.
static uint64_t alloc_count, alloc_fail_at, alloc_failed;
static void* do_alloc(size_t n)
{
    if (!active && !serial_level) {
        ++alloc_count;
        if (alloc_fail_at && alloc_count >= alloc_fail_at) { alloc_fail_at = 0; ++alloc_failed; throw std::bad_alloc(); }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return do_alloc(n); }
void* operator new[](size_t n) { return do_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
EXPORT void simomp_alloc_plan(uint64_t at) { alloc_count = 0; alloc_fail_at = at; alloc_failed = 0; }
EXPORT uint64_t simomp_alloc_count() { return alloc_count; }
EXPORT uint64_t simomp_alloc_failed() { return alloc_failed; }

// ------------------------------------------------------------------------------------------------
// Control interface
EXPORT void simomp_configure(int mode, uint64_t seed, int max_team, int vary_team, int perm, double mean,
                             int site_mod, int pct_depth, uint64_t pct_range, uint64_t step_limit)
{
    cfg.mode = mode; cfg.seed = seed; cfg.max_team = max_team; cfg.vary_team = vary_team; cfg.perm = perm;
    cfg.mean = mean; cfg.site_mod = site_mod < 1 ? 1 : site_mod; cfg.pct_depth = pct_depth;
    cfg.pct_range = pct_range < 1 ? 1 : pct_range; cfg.step_limit = step_limit;
    rng.seed(seed); teamrng.seed(seed ^ 0x5bd1e995ull);
    memset(&st, 0, sizeof st);
    plan.clear(); plan_pos = 0; trace.clear(); step = 0; next_preempt = ~0ull;
    change_points.clear(); change_pos = 0;
    if (!module_base) { dl_iterate_phdr(tls_cb, (void*)&simomp_switch); Dl_info di; if (dladdr((void*)&simomp_switch, &di) || dladdr((void*)&GOMP_parallel, &di)) module_base = (uintptr_t)di.dli_fbase; }
}
EXPORT void simomp_plan(const uint64_t* steps, const int* targets, long n)
{ plan.clear(); plan_pos = 0; for (long i=0;i<n;++i) { Preempt p; p.step = steps[i]; p.target = targets[i]; plan.push_back(p); } }
EXPORT long simomp_trace(uint64_t* steps, int* targets, long n)
{ long m = (long)trace.size(); for (long i=0;i<m && i<n;++i) { steps[i] = trace[i].step; targets[i] = trace[i].target; } return m; }
EXPORT void simomp_stats(uint64_t* out) { memcpy(out, &st, sizeof st); }
EXPORT int simomp_nstats() { return sizeof(st)/sizeof(uint64_t); }
EXPORT uint64_t simomp_steps() { return step; }
EXPORT int simomp_active() { return active; }
