// Runtime of the simulated threads. The world is a shared object instrumented with -fsanitize=thread; the entry points the
// instrumentation calls are defined here (the real sanitizer runtime is not linked). They give the simulator control over
// every access to shared memory: possible preemption, happens-before bookkeeping, data race detection.
#include "conc.hpp"
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>

namespace
{
using namespace conc;

constexpr int         kT          = kMaxThreads + 1;
constexpr std::size_t kArena      = 1U << 20;
constexpr std::size_t kStack      = 256U << 10;
constexpr std::size_t kMaxStatics = 64U << 10;
constexpr int         kMaxSync    = 512;

struct Clock
{
    std::uint32_t c[kT];
    void          join(const Clock& o)
    {
        for (int i = 0; i < kT; ++i)
        {
            c[i] = o.c[i] > c[i] ? o.c[i] : c[i];
        }
    }
};

enum Acc : int
{
    A_READ,
    A_WRITE,
    A_AREAD,
    A_AWRITE,
    A_KINDS
};
const char* const acc_names[A_KINDS] = {"read", "write", "atomic read", "atomic write"};

/// Last access of each kind by each thread to one byte.
struct ByteShadow
{
    std::uint32_t at[A_KINDS][kT];
    std::int8_t   op[A_KINDS][kT];
};
struct Cell
{
    std::uint32_t gen;
    std::uint8_t  used;  // bytes with any access
    std::uint8_t  dead;  // 0, or 1 + the byte at which a destroyed object begins, or 9: released memory
    ByteShadow    b[8];
};

struct SyncVar
{
    std::uintptr_t addr;
    Clock          rel;
};

enum class St : int
{
    idle,
    ready,
    blocked,
    done
};

struct Exit
{
    void (*f)(void*);
    void* arg;
};

struct Thread
{
    ucontext_t                   uc;
    char*                        stack{nullptr};
    St                           st{St::idle};
    const void*                  waits{nullptr};
    Clock                        clk;
    Clock                        pending_acq;
    Clock                        fence_rel;
    std::vector<int>             steps;  // plan indices
    std::size_t                  next{0};
    bool                         in_step{false};
    const sim::Step*             cur{nullptr};
    int                          cur_index{-1};
    std::size_t                  fpos{0};
    std::uint32_t                ordinal{0};
    bool                         sticky{false};
    std::uint32_t                spin{0};
    bool                         preempted{false};
    int                          open_call{-1};
    int                          hidden{0};
    void*                        eh[2]{nullptr, nullptr};
    std::vector<char>            tls;
    std::vector<Exit>            exits;  // of its thread-local objects
};

bool                 active = false;  // a simulated execution is running
int                  cur    = 0;      // running thread
int                  rt     = 0;      // depth of runtime code
int                  nthreads;
Thread               th[kT];
ucontext_t           sched;
const sim::Plan*     plan;
const Program*       prog;
std::uint32_t        gen = 0;
std::uint32_t        now_tick;
char*                arena = nullptr;
std::size_t          arena_pos;
std::uint8_t*        arena_owner = nullptr;
std::vector<std::size_t>* arena_blocks = nullptr;  // sizes by start granule
Cell*                arena_cells  = nullptr;
Cell*                static_cells = nullptr;
char*                statics_lo = nullptr;
char*                statics_hi = nullptr;
std::vector<char>    statics_image;
char*                tls_lo = nullptr;
std::size_t          tls_size = 0;
std::vector<char>    tls_image;
SyncVar              sync_vars[kMaxSync];
int                  sync_n;
std::vector<Call>    calls;
int                  quota;
std::vector<std::uint32_t> step_pts;

std::vector<Exit>  exits;
std::vector<Cell*> dead_statics;

struct InRt
{
    InRt()
    {
        ++rt;
    }
    ~InRt()
    {
        --rt;
    }
};

// ---------------------------------------------------------------------------------------------------- statics of the world
int find_world(struct dl_phdr_info* i, std::size_t, void* data)
{
    const auto key = reinterpret_cast<std::uintptr_t>(data);
    bool       hit = false;
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        const auto& p = i->dlpi_phdr[k];
        hit |= p.p_type == PT_LOAD && key >= i->dlpi_addr + p.p_vaddr && key < i->dlpi_addr + p.p_vaddr + p.p_memsz;
    }
    if (!hit)
    {
        return 0;
    }
    std::uintptr_t lo = 0, hi = 0, relro = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        const auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W) != 0)
        {
            if (hi != 0)
            {
                lo = lo < i->dlpi_addr + p.p_vaddr ? lo : i->dlpi_addr + p.p_vaddr;
            }
            else
            {
                lo = i->dlpi_addr + p.p_vaddr;
            }
            const auto e = i->dlpi_addr + p.p_vaddr + p.p_memsz;
            hi           = e > hi ? e : hi;
        }
        if (p.p_type == PT_GNU_RELRO)
        {
            relro = (i->dlpi_addr + p.p_vaddr + p.p_memsz + 4095) / 4096 * 4096;
        }
        if (p.p_type == PT_TLS && i->dlpi_tls_data != nullptr)
        {
            tls_lo   = static_cast<char*>(i->dlpi_tls_data);
            tls_size = p.p_memsz;
            tls_image.assign(p.p_memsz, 0);
            std::memcpy(tls_image.data(), reinterpret_cast<const void*>(i->dlpi_addr + p.p_vaddr), p.p_filesz);
        }
    }
    statics_lo = reinterpret_cast<char*>(relro > lo && relro < hi ? relro : lo);
    statics_hi = reinterpret_cast<char*>(hi);
    return 1;
}

void init_once()
{
    if (arena != nullptr)
    {
        return;
    }
    auto map = [](std::size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            std::abort();
        }
        return static_cast<char*>(p);
    };
    arena        = map(kArena);
    arena_owner  = reinterpret_cast<std::uint8_t*>(map(kArena / 16));
    arena_cells  = reinterpret_cast<Cell*>(map(kArena / 8 * sizeof(Cell)));
    static_cells = reinterpret_cast<Cell*>(map(kMaxStatics / 8 * sizeof(Cell)));
    arena_blocks = new std::vector<std::size_t>(kArena / 16, 0);
    dl_iterate_phdr(&find_world, reinterpret_cast<void*>(&sim::world));
    if (statics_lo == nullptr || static_cast<std::size_t>(statics_hi - statics_lo) > kMaxStatics)
    {
        std::fprintf(stderr, "cannot find the writable data of the world (%zu bytes)\n", static_cast<std::size_t>(statics_hi - statics_lo));
        std::_Exit(3);
    }
    statics_image.assign(statics_lo, statics_hi);
    for (auto& t : th)
    {
        t.stack = map(kStack);
    }
}

// ---------------------------------------------------------------------------------------------------- switching
void save_thread(Thread& t)
{
    std::memcpy(t.eh, abi::__cxa_get_globals(), sizeof(t.eh));
    if (tls_size > 0)
    {
        std::memcpy(t.tls.data(), tls_lo, tls_size);
    }
}
void load_thread(Thread& t)
{
    std::memcpy(abi::__cxa_get_globals(), t.eh, sizeof(t.eh));
    if (tls_size > 0)
    {
        std::memcpy(tls_lo, t.tls.data(), tls_size);
    }
}

/// Gives control back to the scheduler.
void yield()
{
    Thread&   t = th[cur];
    const int d = rt;
    save_thread(t);
    swapcontext(&t.uc, &sched);
    rt = d;
    load_thread(t);
}

const char* op_name(int op)
{
    return op >= 0 && op < static_cast<int>(sim::world().ops.size()) ? sim::world().ops[static_cast<std::size_t>(op)].name : "start/end";
}

void set_context(const Thread& t)
{
    sim::ctx.op   = t.cur != nullptr ? t.cur->op : -1;
    sim::ctx.step = t.cur_index;
}

/// Possible preemption.
void preempt_point()
{
    if (cur == 0)
    {
        return;
    }
    Thread& t = th[cur];
    if (!t.in_step || t.hidden > 0)
    {
        return;
    }
    sim::tick();
    const std::uint32_t o   = t.ordinal++;
    bool                hit = t.sticky;
    const auto&         f   = t.cur->f;
    while (t.fpos < f.size() && f[t.fpos].at < o)
    {
        ++t.fpos;
    }
    if (t.fpos < f.size() && f[t.fpos].at == o)
    {
        hit = true;
        t.sticky |= f[t.fpos].sticky;
        ++t.fpos;
    }
    sim::count_fault(sim::K_PREEMPT, hit);
    if (++t.spin > 400)
    {
        t.spin = 0;
        hit    = true;  // somebody may be spinning on a value another thread has to provide
    }
    if (hit)
    {
        sim::trace("    thread %d is preempted in step %d (%s) at its access %u", cur, t.cur_index, op_name(t.cur->op), o);
        t.preempted = true;
        yield();
    }
}

void block_on(const void* what)
{
    Thread& t = th[cur];
    if (cur == 0)
    {
        sim::violation("hang", "the main thread waits for something nobody provides");
    }
    sim::trace("    thread %d waits", cur);
    sim::ev(0x7700 + static_cast<unsigned>(cur));
    t.st    = St::blocked;
    t.waits = what;
    sim::probe("waited");
    yield();
}
void wake(const void* what)
{
    for (int i = 1; i <= nthreads; ++i)
    {
        if (th[i].st == St::blocked && th[i].waits == what)
        {
            th[i].st = St::ready;
        }
    }
}

// ---------------------------------------------------------------------------------------------------- happens-before
void tick_clock()
{
    ++th[cur].clk.c[cur];
}
SyncVar& sync_var(std::uintptr_t a)
{
    for (int i = 0; i < sync_n; ++i)
    {
        if (sync_vars[i].addr == a)
        {
            return sync_vars[i];
        }
    }
    if (sync_n == kMaxSync)
    {
        std::fprintf(stderr, "too many synchronisation variables\n");
        std::_Exit(3);
    }
    sync_vars[sync_n]      = SyncVar{};
    sync_vars[sync_n].addr = a;
    return sync_vars[sync_n++];
}

Cell* cell_of(std::uintptr_t a)
{
    const auto A = reinterpret_cast<std::uintptr_t>(arena);
    if (a - A < kArena)
    {
        return &arena_cells[(a - A) / 8];
    }
    const auto S = reinterpret_cast<std::uintptr_t>(statics_lo);
    if (a - S < static_cast<std::uintptr_t>(statics_hi - statics_lo))
    {
        return &static_cells[a / 8 - S / 8];
    }
    return nullptr;
}
void fresh(Cell& c)
{
    if (c.gen != gen)
    {
        std::memset(&c, 0, sizeof(c));
        c.gen = gen;
    }
}

void race(Acc mine, Acc theirs, int their_tid, int their_op, bool is_static)
{
    (void) their_tid;
    sim::violation("race",
                   "data race on %s: %s in %s and concurrent %s in %s",
                   is_static ? "static data" : "an object",
                   acc_names[mine],
                   op_name(th[cur].cur != nullptr ? th[cur].cur->op : -1),
                   acc_names[theirs],
                   op_name(their_op));
}

void used_dead(Cell& c, std::uintptr_t a, Acc k)
{
    if (c.dead == 9)
    {
        sim::violation("asan", "memory is used after it was released");
    }
    if (c.dead != 1 + (a & 7U))
    {
        return;  // a neighbour
    }
    if (k != A_WRITE)
    {
        sim::violation("lifetime", "a static object of the library is used after it was destroyed");
    }
    c.dead = 0;  // made anew
}

void access(std::uintptr_t a, std::size_t n, Acc k)
{
    Thread& me = th[cur];
    if (me.hidden > 0)
    {
        return;
    }
    for (; n > 0; ++a, --n)
    {
        Cell* const c = cell_of(a);
        if (c == nullptr)
        {
            continue;
        }
        fresh(*c);
        if (c->dead != 0)
        {
            used_dead(*c, a, k);
        }
        const unsigned i = static_cast<unsigned>(a & 7U);
        ByteShadow&    b = c->b[i];
        if ((c->used & (1U << i)) != 0)
        {
            for (int q = 0; q < A_KINDS; ++q)
            {
                const bool write  = k == A_WRITE || k == A_AWRITE || q == A_WRITE || q == A_AWRITE;
                const bool atomic = (k == A_AREAD || k == A_AWRITE) && (q == A_AREAD || q == A_AWRITE);
                if (!write || atomic)
                {
                    continue;
                }
                for (int t = 0; t <= nthreads; ++t)
                {
                    if (t != cur && b.at[q][t] > me.clk.c[t])
                    {
                        race(k, static_cast<Acc>(q), t, b.op[q][t], a - reinterpret_cast<std::uintptr_t>(arena) >= kArena);
                    }
                }
            }
        }
        c->used = static_cast<std::uint8_t>(c->used | (1U << i));
        b.at[k][cur] = me.clk.c[cur];
        b.op[k][cur] = static_cast<std::int8_t>(me.cur != nullptr ? me.cur->op : -1);
    }
}

/// Memory that no other thread knows yet needs no preemption point.
bool shared(std::uintptr_t a)
{
    const auto A = reinterpret_cast<std::uintptr_t>(arena);
    if (a - A < kArena)
    {
        return arena_owner[(a - A) / 16] != cur;
    }
    return a - reinterpret_cast<std::uintptr_t>(statics_lo) < static_cast<std::uintptr_t>(statics_hi - statics_lo);
}

void plain(const void* p, std::size_t n, bool write)
{
    if (!active || rt > 0 || n == 0)
    {
        return;
    }
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    InRt       g;
    if (shared(a))
    {
        preempt_point();
    }
    access(a, n, write ? A_WRITE : A_READ);
}

// memory orders as passed by the instrumentation
enum : int
{
    MO_RELAXED,
    MO_CONSUME,
    MO_ACQUIRE,
    MO_RELEASE,
    MO_ACQ_REL,
    MO_SEQ_CST
};
bool acquires(int mo)
{
    return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST;
}
bool releases(int mo)
{
    return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST;
}

/// Before an atomic operation.
void atomic_begin(const volatile void* p, std::size_t n, bool write, unsigned what)
{
    preempt_point();
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    if (th[cur].hidden == 0)
    {
        access(a, n, write ? A_AWRITE : A_AREAD);
        sim::ev(0x5000 + what * 16 + static_cast<unsigned>(cur));
    }
}
void atomic_read_sync(const volatile void* p, int mo)
{
    SyncVar& v = sync_var(reinterpret_cast<std::uintptr_t>(p));
    if (acquires(mo))
    {
        th[cur].clk.join(v.rel);
    }
    else
    {
        th[cur].pending_acq.join(v.rel);
    }
}
void atomic_write_sync(const volatile void* p, int mo, bool rmw)
{
    SyncVar& v = sync_var(reinterpret_cast<std::uintptr_t>(p));
    if (releases(mo))
    {
        if (rmw)
        {
            v.rel.join(th[cur].clk);
        }
        else
        {
            v.rel = th[cur].clk;
        }
        tick_clock();
    }
    else
    {
        if (rmw)
        {
            v.rel.join(th[cur].fence_rel);
        }
        else
        {
            v.rel = th[cur].fence_rel;
        }
    }
}

template <typename T>
T a_load(const volatile T* p, int mo)
{
    if (!active || rt > 0)
    {
        return *p;
    }
    InRt g;
    atomic_begin(p, sizeof(T), false, 1);
    atomic_read_sync(p, mo);
    return *p;
}
template <typename T>
void a_store(volatile T* p, T v, int mo)
{
    if (!active || rt > 0)
    {
        *p = v;
        return;
    }
    InRt g;
    atomic_begin(p, sizeof(T), true, 2);
    *p = v;
    atomic_write_sync(p, mo, false);
}
template <typename T, typename F>
T a_rmw(volatile T* p, int mo, F f)
{
    if (!active || rt > 0)
    {
        const T old = *p;
        *p          = f(old);
        return old;
    }
    InRt g;
    atomic_begin(p, sizeof(T), true, 3);
    atomic_read_sync(p, mo);
    const T old = *p;
    *p          = f(old);
    atomic_write_sync(p, mo, true);
    return old;
}
template <typename T>
bool a_cas(volatile T* p, T* e, T v, int mo, int fmo)
{
    if (!active || rt > 0)
    {
        if (*p == *e)
        {
            *p = v;
            return true;
        }
        *e = *p;
        return false;
    }
    InRt g;
    atomic_begin(p, sizeof(T), true, 4);
    if (*p == *e)
    {
        atomic_read_sync(p, mo);
        *p = v;
        atomic_write_sync(p, mo, true);
        return true;
    }
    atomic_read_sync(p, fmo);
    *e = *p;
    return false;
}

// ---------------------------------------------------------------------------------------------------- scheduler
bool has_work(const Thread& t)
{
    return t.st == St::ready && (t.in_step || t.next < t.steps.size());
}

/// Destroys the thread-local objects of the running thread.
void end_thread()
{
    Thread& t = th[cur];
    while (!t.exits.empty())
    {
        Exit e{};
        {
            InRt g;
            e = t.exits.back();
            t.exits.pop_back();
            sim::probe("thread-local object destroyed");
        }
        e.f(e.arg);
    }
}

void fiber_main()
{
    for (;;)
    {
        Thread& t = th[cur];
        load_thread(t);
        while (t.next < t.steps.size())
        {
            const int idx = t.steps[t.next];
            t.cur         = &plan->steps[static_cast<std::size_t>(idx)];
            t.cur_index   = idx;
            t.fpos        = 0;
            t.ordinal     = 0;
            t.sticky      = false;
            t.spin        = 0;
            t.in_step     = true;
            sim::ctx.calls = 0;
            set_context(t);
            sim::trace("thread %d: step %d %s %lld %lld %lld", cur, idx, op_name(t.cur->op), static_cast<long long>(t.cur->a[1]), static_cast<long long>(t.cur->a[2]), static_cast<long long>(t.cur->a[3]));
            rt = 0;
            prog->step(prog->self, cur, idx, *t.cur);
            t.in_step = false;
            step_pts[static_cast<std::size_t>(idx)] = t.ordinal;
            if (t.next + 1 == t.steps.size())
            {
                end_thread();
            }
            ++t.next;
            tick_clock();
            yield();
            rt = 0;
        }
        t.st = St::done;
        yield();
    }
}

int choose(std::uint64_t h, int except)
{
    int       list[kT];
    unsigned  n = 0;
    for (int i = 1; i <= nthreads; ++i)
    {
        if (i != except && has_work(th[i]))
        {
            list[n++] = i;
        }
    }
    return n == 0 ? 0 : list[h % n];
}

void schedule()
{
    int limit = 0;
    int run_t = 0;
    quota     = 0;
    for (;;)
    {
        if (++limit > 20000)
        {
            sim::violation("hang", "threads make no progress");
        }
        if (run_t == 0 || !has_work(th[run_t]) || quota == 0)
        {
            // default: the thread that owns the first unfinished step of the plan
            int best = 0;
            for (int i = 1; i <= nthreads; ++i)
            {
                if (has_work(th[i]) && (best == 0 || th[i].steps[th[i].next] < th[best].steps[th[best].next]))
                {
                    best = i;
                }
            }
            if (best == 0)
            {
                for (int i = 1; i <= nthreads; ++i)
                {
                    if (th[i].st == St::blocked)
                    {
                        sim::violation("hang", "deadlock: every thread waits");
                    }
                }
                return;
            }
            run_t = best;
            quota = 1;
        }
        Thread& t   = th[run_t];
        cur         = run_t;
        t.preempted = false;
        const std::size_t before = t.next;
        set_context(t);
        sim::ev(0x6000 + static_cast<unsigned>(run_t));
        swapcontext(&sched, &t.uc);
        cur = 0;
        if (t.next != before)
        {
            --quota;
        }
        // state: where every thread stands inside its current call, and who waits
        std::uint64_t where = 0;
        for (int i = 1; i <= nthreads; ++i)
        {
            const Thread& o = th[i];
            where           = sim::mix(where, o.in_step ? 1U + static_cast<unsigned>(o.cur->op) : 0U);
            where           = sim::mix(where, o.in_step ? o.ordinal : 0U);
            where           = sim::mix(where, static_cast<unsigned>(o.st));
        }
        sim::state(where);
        if (t.preempted)
        {
            const std::uint64_t h = sim::mix(sim::mix(static_cast<std::uint64_t>(plan->cfg[0]), static_cast<std::uint64_t>(t.cur_index)), t.ordinal);
            const int           u = choose(h >> 8, run_t);
            if (u != 0)
            {
                run_t = u;
                quota = h % 5 == 0 ? 1000 : 1 + static_cast<int>(h % 3);
            }
        }
    }
}

}  // namespace

// ==================================================================================================== API for the worlds
namespace conc
{
Hidden::Hidden()
{
    ++th[cur].hidden;
    ++rt;
}
Hidden::~Hidden()
{
    --rt;
    --th[cur].hidden;
}
int self()
{
    return cur;
}
void at_exit(void (*f)(void*), void* arg)
{
    InRt g;
    exits.push_back(Exit{f, arg});
}
void run_exit()
{
    end_thread();
    for (;;)
    {
        Exit e{};
        {
            InRt g;
            if (exits.empty())
            {
                return;
            }
            e = exits.back();
            exits.pop_back();
        }
        e.f(e.arg);
        InRt       g;
        const auto a = reinterpret_cast<std::uintptr_t>(e.arg);
        if (a - reinterpret_cast<std::uintptr_t>(statics_lo) < static_cast<std::uintptr_t>(statics_hi - statics_lo))
        {
            Cell* const c = cell_of(a);
            fresh(*c);
            c->dead = static_cast<std::uint8_t>(1 + (a & 7U));
            dead_statics.push_back(c);
        }
    }
}
void fresh_image()
{
    {
        InRt g;
        for (Cell* c : dead_statics)
        {
            c->dead = 0;
        }
        dead_statics.clear();
        exits.clear();
        th[cur].exits.clear();
    }
    std::memcpy(statics_lo, statics_image.data(), statics_image.size());
    if (tls_size > 0)
    {
        std::memcpy(tls_lo, tls_image.data(), tls_size);
    }
}
void point()
{
    if (active && rt == 0)
    {
        InRt g;
        preempt_point();
    }
}
void begin_call(int op, std::int64_t arg)
{
    InRt g;
    preempt_point();
    th[cur].open_call = static_cast<int>(calls.size());
    calls.push_back(Call{cur, op, arg, 0, ++now_tick, 0});
}
void end_call(std::int64_t result)
{
    InRt  g;
    Call& c  = calls[static_cast<std::size_t>(th[cur].open_call)];
    c.result = result;
    c.end    = ++now_tick;
    preempt_point();
}
std::size_t call_count()
{
    return calls.size();
}
const Call& call(std::size_t i)
{
    return calls[i];
}

void run(const sim::Plan& p, int threads, const Program& pr)
{
    init_once();
    plan     = &p;
    prog     = &pr;
    nthreads = threads;
    ++gen;
    now_tick  = 0;
    arena_pos = 0;
    sync_n    = 0;
    calls.clear();
    exits.clear();
    dead_statics.clear();
    step_pts.assign(p.steps.size(), 0);
    std::memcpy(statics_lo, statics_image.data(), statics_image.size());
    for (int i = 0; i < kT; ++i)
    {
        Thread& t = th[i];
        t.st      = i >= 1 && i <= threads ? St::ready : St::done;
        t.clk     = Clock{};
        t.clk.c[i] = 1;
        t.pending_acq = Clock{};
        t.fence_rel   = Clock{};
        t.steps.clear();
        t.next    = 0;
        t.in_step = false;
        t.cur     = nullptr;
        t.cur_index = -1;
        t.hidden  = 0;
        t.open_call = -1;
        t.eh[0] = t.eh[1] = nullptr;
        t.tls = tls_image;
        t.exits.clear();
    }
    for (std::size_t i = 0; i < p.steps.size(); ++i)
    {
        th[1 + p.steps[i].a[0] % threads].steps.push_back(static_cast<int>(i));
    }
    if (tls_size > 0)
    {
        std::memcpy(tls_lo, tls_image.data(), tls_size);
    }
    cur    = 0;
    rt     = 0;
    active = true;
    pr.setup(pr.self);
    save_thread(th[0]);
    ++th[0].clk.c[0];
    for (int i = 1; i <= threads; ++i)
    {
        th[i].clk.join(th[0].clk);
        getcontext(&th[i].uc);
        th[i].uc.uc_stack.ss_sp   = th[i].stack;
        th[i].uc.uc_stack.ss_size = kStack;
        th[i].uc.uc_link          = nullptr;
        makecontext(&th[i].uc, &fiber_main, 0);
    }
    ++th[0].clk.c[0];
    {
        InRt g;
        schedule();
    }
    cur = 0;
    rt  = 0;
    load_thread(th[0]);
    for (int i = 1; i <= threads; ++i)
    {
        th[0].clk.join(th[i].clk);
    }
    // account the steps in plan order
    {
        InRt g;
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::account_step(p.steps[i], 0, step_pts[i]);
        }
    }
    sim::ctx.op    = -1;
    sim::ctx.calls = 0;
    pr.finish(pr.self);
    active = false;
}

// ---------------------------------------------------------------------------------------------------- sequential oracle
namespace
{
struct Lin
{
    struct Key
    {
        std::uint8_t pos[kT];   // calls of each thread that have taken effect
        std::uint8_t sub[kT];   // the running call has read the system resource already
        std::int64_t tmp[kT];
        std::int64_t def, sys;
        bool         operator<(const Key& o) const
        {
            return std::memcmp(this, &o, sizeof(Key)) < 0;
        }
    };
    std::vector<Call> by[kT];
    std::int64_t      base;
    std::set<Key>     seen;
    bool              can_take(const Key& k, int t) const
    {
        // real time: a call may take effect only if no other unfinished-in-order call ended before it began
        const Call& c = by[t][k.pos[t]];
        for (int u = 0; u < kT; ++u)
        {
            if (u != t && k.pos[u] < by[u].size() && by[u][k.pos[u]].end < c.begin)
            {
                return false;
            }
        }
        return true;
    }
    bool search(const Key& k)
    {
        bool all = true;
        for (int t = 0; t < kT; ++t)
        {
            all &= k.pos[t] == by[t].size();
        }
        if (all)
        {
            return true;
        }
        if (!seen.insert(k).second)
        {
            return false;
        }
        for (int t = 0; t < kT; ++t)
        {
            if (k.pos[t] == by[t].size() || !can_take(k, t))
            {
                continue;
            }
            const Call& c = by[t][k.pos[t]];
            Key         n = k;
            const bool  on_def = c.op == R_GET_DEFAULT || c.op == R_SET_DEFAULT || c.op == R_SET_DEFAULT_NULL;
            if (on_def && k.def == 0)
            {
                // first use: becomes the then current system resource, or the built-in one
                n.def = k.sys;
                if (search(n))
                {
                    return true;
                }
                if (k.sys != base)
                {
                    n.def = base;
                    if (search(n))
                    {
                        return true;
                    }
                }
                if (c.op == R_SET_DEFAULT_NULL && k.sub[t] == 0)
                {
                    n        = k;
                    n.sub[t] = 1;
                    n.tmp[t] = k.sys;
                    if (search(n))
                    {
                        return true;
                    }
                }
                continue;
            }
            switch (c.op)
            {
            case R_GET_DEFAULT:
                if (c.result != k.def)
                {
                    continue;
                }
                break;
            case R_GET_SYSTEM:
                if (c.result != k.sys)
                {
                    continue;
                }
                break;
            case R_SET_DEFAULT:
                if (c.result != k.def)
                {
                    continue;
                }
                n.def = c.arg;
                break;
            case R_SET_SYSTEM:
                if (c.result != k.sys)
                {
                    continue;
                }
                n.sys = c.arg;
                break;
            case R_SET_SYSTEM_NULL:
                if (c.result != k.sys)
                {
                    continue;
                }
                n.sys = base;
                break;
            default:  // R_SET_DEFAULT_NULL in two moments
                if (k.sub[t] == 0)
                {
                    n.sub[t] = 1;
                    n.tmp[t] = k.sys;
                    if (search(n))
                    {
                        return true;
                    }
                    continue;
                }
                if (c.result != k.def)
                {
                    continue;
                }
                n.def    = k.tmp[t];
                n.sub[t] = 0;
                n.tmp[t] = 0;
                break;
            }
            ++n.pos[t];
            if (search(n))
            {
                return true;
            }
        }
        return false;
    }
};
}  // namespace

bool linearizable(std::int64_t base, std::int64_t system, std::int64_t def)
{
    InRt g;
    Lin  l;
    l.base = base;
    for (const auto& c : calls)
    {
        l.by[c.tid].push_back(c);
    }
    Lin::Key k;
    std::memset(&k, 0, sizeof(k));
    k.sys = system;
    k.def = def;
    return l.search(k);
}

}  // namespace conc

// ==================================================================================================== memory of the world
namespace
{
void* arena_alloc(std::size_t n, std::size_t align)
{
    InRt g;
    arena_pos = (arena_pos + align - 1) / align * align;
    const std::size_t size = n == 0 ? 1 : n;
    if (arena_pos + size + 32 > kArena)
    {
        return nullptr;
    }
    char* const p = arena + arena_pos;
    for (std::size_t i = arena_pos / 16; i <= (arena_pos + size - 1) / 16; ++i)
    {
        arena_owner[i] = static_cast<std::uint8_t>(cur);
    }
    (*arena_blocks)[arena_pos / 16] = size;
    std::memset(p, 0xA5, size);
    arena_pos = (arena_pos + size + 31) / 16 * 16;
    return p;
}
bool in_arena(const void* p)
{
    return arena != nullptr && static_cast<std::size_t>(static_cast<const char*>(p) - arena) < kArena;
}
void arena_free(void* p)
{
    InRt              g;
    const std::size_t at   = static_cast<std::size_t>(static_cast<char*>(p) - arena) / 16;
    const std::size_t size = (*arena_blocks)[at];
    if (size == 0)
    {
        sim::violation("memory", "a block is released twice or was never allocated");
    }
    if (active)
    {
        access(reinterpret_cast<std::uintptr_t>(p), size, A_WRITE);  // everybody else must be done with it
    }
    if (active)
    {
        // whole cells only: the last one may be shared with nothing, blocks begin at multiples of 16
        for (std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p); a < reinterpret_cast<std::uintptr_t>(p) + size; a += 8)
        {
            Cell* const c = cell_of(a);
            fresh(*c);
            c->dead = 9;
        }
    }
    (*arena_blocks)[at] = 0;
    std::memset(p, 0xDD, size);
}
bool simulated()
{
    return active && rt == 0;
}
void* real_new(std::size_t n, std::size_t align)
{
    if (simulated())
    {
        return arena_alloc(n, align < 16 ? 16 : align);
    }
    return align <= 16 ? std::malloc(n == 0 ? 1 : n) : std::aligned_alloc(align, (n + align - 1) / align * align);
}
void real_delete(void* p)
{
    if (p == nullptr)
    {
        return;
    }
    if (in_arena(p))
    {
        arena_free(p);
        return;
    }
    std::free(p);
}
}  // namespace

void* operator new(std::size_t n)
{
    void* const p = real_new(n, 16);
    if (p == nullptr)
    {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](std::size_t n)
{
    return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return real_new(n, 16);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return real_new(n, 16);
}
void* operator new(std::size_t n, std::align_val_t a)
{
    void* const p = real_new(n, static_cast<std::size_t>(a));
    if (p == nullptr)
    {
        throw std::bad_alloc();
    }
    return p;
}
void operator delete(void* p) noexcept
{
    real_delete(p);
}
void operator delete[](void* p) noexcept
{
    real_delete(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    real_delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    real_delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    real_delete(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    real_delete(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    real_delete(p);
}

extern "C"
{
    // the world is linked with --wrap for these
    void* __wrap_malloc(std::size_t n)
    {
        return real_new(n, 16);
    }
    void* __wrap_calloc(std::size_t n, std::size_t m)
    {
        void* const p = real_new(n * m, 16);
        if (p != nullptr)
        {
            std::memset(p, 0, n * m);
        }
        return p;
    }
    void __wrap_free(void* p)
    {
        real_delete(p);
    }
    void* __wrap_realloc(void* p, std::size_t n)
    {
        if (p == nullptr)
        {
            return real_new(n, 16);
        }
        if (!in_arena(p))
        {
            return std::realloc(p, n);
        }
        const std::size_t old = (*arena_blocks)[static_cast<std::size_t>(static_cast<char*>(p) - arena) / 16];
        void* const       q   = real_new(n, 16);
        if (q != nullptr)
        {
            std::memcpy(q, p, old < n ? old : n);
            arena_free(p);
        }
        return q;
    }
    int __wrap_posix_memalign(void** out, std::size_t align, std::size_t n)
    {
        *out = real_new(n, align);
        return *out == nullptr ? 12 : 0;
    }
    void* __wrap_aligned_alloc(std::size_t align, std::size_t n)
    {
        return real_new(n, align);
    }
    int __wrap___cxa_atexit(void (*f)(void*), void* arg, void*)
    {
        if (active && rt == 0)
        {
            conc::at_exit(f, arg);  // run by worlds that come to an end
        }
        return 0;  // other static objects of the world live as long as the process
    }

    int __wrap___cxa_thread_atexit(void (*f)(void*), void* arg, void*)
    {
        if (active && rt == 0)
        {
            InRt g;
            th[cur].exits.push_back(Exit{f, arg});
        }
        return 0;
    }

    // ------------------------------------------------------------------------------------------------ local statics
    // guard layout: byte 0 = initialised (the compiler's inline check reads it), byte 1 = in progress
    int __cxa_guard_acquire(std::int64_t* g)
    {
        char* const b = reinterpret_cast<char*>(g);
        if (!active || rt > 0)
        {
            return b[0] == 0 ? 1 : 0;
        }
        InRt r;
        preempt_point();
        sim::ev(0x5100 + static_cast<unsigned>(cur));
        for (;;)
        {
            if (b[0] != 0)
            {
                th[cur].clk.join(sync_var(reinterpret_cast<std::uintptr_t>(g)).rel);
                return 0;
            }
            if (b[1] == 0)
            {
                b[1] = 1;
                sim::probe("static initialised");
                return 1;
            }
            block_on(g);
        }
    }
    void __cxa_guard_release(std::int64_t* g)
    {
        char* const b = reinterpret_cast<char*>(g);
        if (!active || rt > 0)
        {
            b[0] = 1;
            return;
        }
        InRt r;
        preempt_point();
        b[0] = 1;
        b[1] = 0;
        sync_var(reinterpret_cast<std::uintptr_t>(g)).rel = th[cur].clk;
        tick_clock();
        wake(g);
        preempt_point();
    }
    void __cxa_guard_abort(std::int64_t* g)
    {
        char* const b = reinterpret_cast<char*>(g);
        b[1]          = 0;
        if (active)
        {
            wake(g);
        }
    }

    pthread_t __wrap_pthread_self(void)
    {
        return static_cast<pthread_t>(0x1000 + cur);
    }

    // ------------------------------------------------------------------------------------------------ locks
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!active || rt > 0)
        {
            return 0;
        }
        InRt r;
        preempt_point();
        int* const held = reinterpret_cast<int*>(m);
        while (*held != 0)
        {
            block_on(m);
        }
        *held = 1 + cur;
        sim::ev(0x5200 + static_cast<unsigned>(cur));
        th[cur].clk.join(sync_var(reinterpret_cast<std::uintptr_t>(m)).rel);
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!active || rt > 0)
        {
            return 0;
        }
        InRt r;
        preempt_point();
        int* const held = reinterpret_cast<int*>(m);
        if (*held != 0)
        {
            return 16;
        }
        *held = 1 + cur;
        th[cur].clk.join(sync_var(reinterpret_cast<std::uintptr_t>(m)).rel);
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!active || rt > 0)
        {
            return 0;
        }
        InRt       r;
        int* const held = reinterpret_cast<int*>(m);
        *held           = 0;
        sync_var(reinterpret_cast<std::uintptr_t>(m)).rel = th[cur].clk;
        tick_clock();
        wake(m);
        preempt_point();
        return 0;
    }
    int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
    {
        if (!active || rt > 0)
        {
            if (*o != 2)
            {
                *o = 2;
                f();
            }
            return 0;
        }
        {
            InRt r;
            while (*o == 1)
            {
                block_on(o);
            }
            if (*o == 2)
            {
                th[cur].clk.join(sync_var(reinterpret_cast<std::uintptr_t>(o)).rel);
                return 0;
            }
            *o = 1;
        }
        f();
        InRt r;
        *o = 2;
        sync_var(reinterpret_cast<std::uintptr_t>(o)).rel = th[cur].clk;
        tick_clock();
        wake(o);
        return 0;
    }
    int __wrap_sched_yield(void)
    {
        if (active && rt == 0 && cur != 0)
        {
            InRt r;
            th[cur].preempted = true;
            yield();
        }
        return 0;
    }

    // ------------------------------------------------------------------------------------------------ instrumentation
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n)                                        \
    void __tsan_read##n(void* p)                     \
    {                                                \
        plain(p, n, false);                          \
    }                                                \
    void __tsan_write##n(void* p)                    \
    {                                                \
        plain(p, n, true);                           \
    }                                                \
    void __tsan_unaligned_read##n(void* p)           \
    {                                                \
        plain(p, n, false);                          \
    }                                                \
    void __tsan_unaligned_write##n(void* p)          \
    {                                                \
        plain(p, n, true);                           \
    }                                                \
    void __tsan_read_write##n(void* p)               \
    {                                                \
        plain(p, n, false);                          \
        plain(p, n, true);                           \
    }                                                \
    void __tsan_unaligned_read_write##n(void* p)     \
    {                                                \
        plain(p, n, false);                          \
        plain(p, n, true);                           \
    }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
#undef RW
    void __tsan_read_range(void* p, unsigned long n)
    {
        plain(p, n, false);
    }
    void __tsan_write_range(void* p, unsigned long n)
    {
        plain(p, n, true);
    }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
        {
            plain(p, 8, true);
        }
    }
    void __tsan_vptr_read(void** p)
    {
        plain(p, 8, false);
    }
    void* __tsan_memcpy(void* d, const void* s, std::size_t n)
    {
        plain(s, n, false);
        plain(d, n, true);
        return std::memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, std::size_t n)
    {
        plain(s, n, false);
        plain(d, n, true);
        return std::memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, std::size_t n)
    {
        plain(d, n, true);
        return std::memset(d, c, n);
    }
    void* __wrap_memcpy(void* d, const void* s, std::size_t n)
    {
        return __tsan_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, std::size_t n)
    {
        return __tsan_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int c, std::size_t n)
    {
        return __tsan_memset(d, c, n);
    }
    int __wrap_memcmp(const void* a, const void* b, std::size_t n)
    {
        plain(a, n, false);
        plain(b, n, false);
        return std::memcmp(a, b, n);
    }
#define AT(n, T)                                                                             \
    T __tsan_atomic##n##_load(const volatile T* p, int mo)                                   \
    {                                                                                        \
        return a_load(p, mo);                                                                \
    }                                                                                        \
    void __tsan_atomic##n##_store(volatile T* p, T v, int mo)                                \
    {                                                                                        \
        a_store(p, v, mo);                                                                   \
    }                                                                                        \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo)                                \
    {                                                                                        \
        return a_rmw(p, mo, [v](T) { return v; });                                           \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo)                               \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(o + v); });                     \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo)                               \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(o - v); });                     \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo)                               \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(o & v); });                     \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo)                                \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(o | v); });                     \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo)                               \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(o ^ v); });                     \
    }                                                                                        \
    T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int mo)                              \
    {                                                                                        \
        return a_rmw(p, mo, [v](T o) { return static_cast<T>(~(o & v)); });                  \
    }                                                                                        \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fm) \
    {                                                                                        \
        return a_cas(p, e, v, mo, fm) ? 1 : 0;                                               \
    }                                                                                        \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fm)   \
    {                                                                                        \
        return a_cas(p, e, v, mo, fm) ? 1 : 0;                                               \
    }                                                                                        \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fm)       \
    {                                                                                        \
        a_cas(p, &e, v, mo, fm);                                                             \
        return e;                                                                            \
    }
    AT(8, std::uint8_t)
    AT(16, std::uint16_t)
    AT(32, std::uint32_t)
    AT(64, std::uint64_t)
#undef AT
    void __tsan_atomic_thread_fence(int mo)
    {
        if (!active || rt > 0)
        {
            return;
        }
        InRt r;
        preempt_point();
        if (acquires(mo))
        {
            th[cur].clk.join(th[cur].pending_acq);
        }
        if (releases(mo))
        {
            th[cur].fence_rel = th[cur].clk;
            tick_clock();
        }
    }
    void __tsan_atomic_signal_fence(int) {}
}
