// Runtime of the simulator: seeded search with forked workers, violation capture, determinism gate,
// minimisation and replay. Linked with exactly one world.
#include "sim.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#    include <sanitizer/asan_interface.h>
#    define SIM_ASAN 1
#else
#    define SIM_ASAN 0
#endif

namespace sim
{
const char* const kind_names[K_COUNT] = {"alloc_fail",
                                         "realloc_refused",
                                         "quota_exhausted",
                                         "ctor_throw",
                                         "copy_throw",
                                         "move_throw",
                                         "copy_assign_throw",
                                         "move_assign_throw",
                                         "call_throw",
                                         "preemption",
                                         "nested_operation"};
Ctx         ctx;
Life        life;
std::string last_other;
bool        tracing = false;

namespace
{
constexpr unsigned    kMaxOps    = 96;
constexpr unsigned    kMaxProbes = 256;
constexpr unsigned    kMaxVar    = 64;
constexpr std::size_t kTable     = 1U << 21;
constexpr std::size_t kPlanBuf   = 96 * 1024;
constexpr unsigned    kMaxWork   = 64;
constexpr std::size_t kMaxPoints = 4096;
constexpr unsigned    kSamples   = 4;

struct Report
{
    int           set;
    char          cls[24];
    char          msg[512];
    int           step;
    std::uint64_t hash;
};

struct Table
{
    std::atomic<std::uint64_t> count;
    std::atomic<std::uint64_t> dropped;
    std::atomic<std::uint64_t> slot[kTable];
    void insert(std::uint64_t h)
    {
        if (h == 0)
        {
            h = 1;
        }
        if (count.load(std::memory_order_relaxed) > kTable * 3 / 4)
        {
            dropped.fetch_add(1, std::memory_order_relaxed);
            return;
        }
        std::size_t i = static_cast<std::size_t>(h) & (kTable - 1);
        for (;;)
        {
            std::uint64_t cur = slot[i].load(std::memory_order_relaxed);
            if (cur == h)
            {
                return;
            }
            if (cur == 0)
            {
                if (slot[i].compare_exchange_strong(cur, h))
                {
                    count.fetch_add(1, std::memory_order_relaxed);
                    return;
                }
                if (cur == h)
                {
                    return;
                }
            }
            i = (i + 1) & (kTable - 1);
        }
    }
};

struct WorkerState
{
    std::atomic<std::uint64_t> progress;
    std::uint64_t              cur_index;
    std::uint32_t              plan_len;
    char                       plan[kPlanBuf];
    Report                     rep;
};

struct Shared
{
    std::atomic<std::uint64_t> next_index;
    std::atomic<int>           stop;
    std::atomic<std::uint64_t> runs, runs_faultfree, runs_fault, runs_sweep, steps, digest, masked, runs_nontrivial;
    std::atomic<std::uint64_t> points[K_COUNT], injected[K_COUNT];
    std::atomic<std::uint64_t> op_out[kMaxOps][4];
    std::atomic<std::uint64_t> var_runs[kMaxVar];
    std::atomic<int>           probe_lock;
    char                       probe_name[kMaxProbes][48];
    std::atomic<std::uint64_t> probe_cnt[kMaxProbes];
    std::atomic<int>           sample_n;
    char                       sample[kSamples][4096];
    Table                      histories;
    Table                      states;
    WorkerState                w[kMaxWork];
};
Shared*      sh  = nullptr;
WorkerState* wsp = nullptr;  // where the current process reports

// per-run local state
std::vector<std::uint32_t> step_points;
unsigned                   effective_steps = 0;
unsigned                   cur_outcome     = 3;
std::uint32_t              run_injected    = 0;
bool                       counting        = true;

void fill_report(const char* cls, const char* msg)
{
    if (wsp == nullptr || wsp->rep.set)
    {
        return;
    }
    std::snprintf(wsp->rep.cls, sizeof(wsp->rep.cls), "%s", cls);
    std::snprintf(wsp->rep.msg, sizeof(wsp->rep.msg), "%s", msg);
    wsp->rep.step = ctx.step;
    wsp->rep.hash = ctx.hash;
    wsp->rep.set  = 1;
}

void* map_shared(std::size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        std::perror("mmap");
        std::exit(2);
    }
    return p;
}

// ------------------------------------------------------------------------------------------------ plan (de)serialisation
std::string plan_to_text(const Plan& p)
{
    const World& w = world();
    std::string  s;
    char         b[256];
    std::snprintf(b, sizeof(b), "world %s\nvariant %s\ncfg", w.name, w.variants[static_cast<std::size_t>(p.variant)].name);
    s += b;
    for (auto c : p.cfg)
    {
        std::snprintf(b, sizeof(b), " %lld", static_cast<long long>(c));
        s += b;
    }
    s += "\n";
    for (const auto& st : p.steps)
    {
        std::snprintf(b,
                      sizeof(b),
                      "step %s %lld %lld %lld %lld",
                      w.ops[static_cast<std::size_t>(st.op)].name,
                      static_cast<long long>(st.a[0]),
                      static_cast<long long>(st.a[1]),
                      static_cast<long long>(st.a[2]),
                      static_cast<long long>(st.a[3]));
        s += b;
        if (!st.f.empty())
        {
            s += " fail";
            for (const auto& f : st.f)
            {
                std::snprintf(b, sizeof(b), " %u%s", f.at, f.sticky ? "+" : "");
                s += b;
            }
        }
        s += "\n";
    }
    return s;
}

bool text_to_plan(const std::string& text, Plan& p)
{
    const World& w   = world();
    std::size_t  pos = 0;
    bool         ok  = false;
    while (pos < text.size())
    {
        const std::size_t e    = text.find('\n', pos);
        std::string       line = text.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        pos                    = e == std::string::npos ? text.size() : e + 1;
        std::vector<std::string> t;
        std::size_t              q = 0;
        while (q < line.size())
        {
            while (q < line.size() && line[q] == ' ')
            {
                ++q;
            }
            std::size_t r = q;
            while (r < line.size() && line[r] != ' ')
            {
                ++r;
            }
            if (r > q)
            {
                t.push_back(line.substr(q, r - q));
            }
            q = r;
        }
        if (t.empty() || t[0][0] == '#')
        {
            continue;
        }
        if (t[0] == "world")
        {
            if (t[1] != w.name)
            {
                std::fprintf(stderr, "replay is for world %s, this is %s\n", t[1].c_str(), w.name);
                return false;
            }
        }
        else if (t[0] == "variant")
        {
            for (std::size_t i = 0; i < w.variants.size(); ++i)
            {
                if (t[1] == w.variants[i].name)
                {
                    p.variant = static_cast<int>(i);
                    ok        = true;
                }
            }
        }
        else if (t[0] == "cfg")
        {
            for (std::size_t i = 1; i < t.size() && i <= p.cfg.size(); ++i)
            {
                p.cfg[i - 1] = std::strtoll(t[i].c_str(), nullptr, 10);
            }
        }
        else if (t[0] == "step")
        {
            Step st;
            st.op = -1;
            for (std::size_t i = 0; i < w.ops.size(); ++i)
            {
                if (t[1] == w.ops[i].name)
                {
                    st.op = static_cast<int>(i);
                }
            }
            if (st.op < 0)
            {
                std::fprintf(stderr, "unknown op %s\n", t[1].c_str());
                return false;
            }
            for (std::size_t i = 0; i < 4 && i + 2 < t.size(); ++i)
            {
                st.a[i] = std::strtoll(t[i + 2].c_str(), nullptr, 10);
            }
            for (std::size_t i = 7; i < t.size(); ++i)
            {
                Fault f;
                f.at     = static_cast<std::uint32_t>(std::strtoul(t[i].c_str(), nullptr, 10));
                f.sticky = t[i].back() == '+';
                st.f.push_back(f);
            }
            p.steps.push_back(st);
        }
    }
    return ok;
}

void store_plan(const Plan& p)
{
    // Binary: variant, cfg, nsteps, {op, a[4], nf, {at, sticky}}
    std::size_t n   = 0;
    auto        put = [&](std::int64_t v) {
        if (n + 8 <= kPlanBuf)
        {
            std::memcpy(wsp->plan + n, &v, 8);
            n += 8;
        }
    };
    put(p.variant);
    for (auto c : p.cfg)
    {
        put(c);
    }
    put(static_cast<std::int64_t>(p.steps.size()));
    for (const auto& s : p.steps)
    {
        put(s.op);
        for (auto a : s.a)
        {
            put(a);
        }
        put(static_cast<std::int64_t>(s.f.size()));
        for (const auto& f : s.f)
        {
            put(static_cast<std::int64_t>(f.at) * 2 + (f.sticky ? 1 : 0));
        }
    }
    wsp->plan_len = static_cast<std::uint32_t>(n);
}

Plan load_plan(const WorkerState* ws)
{
    Plan        p;
    std::size_t n   = 0;
    auto        get = [&]() {
        std::int64_t v = 0;
        std::memcpy(&v, ws->plan + n, 8);
        n += 8;
        return v;
    };
    p.variant = static_cast<int>(get());
    for (auto& c : p.cfg)
    {
        c = get();
    }
    p.steps.resize(static_cast<std::size_t>(get()));
    for (auto& s : p.steps)
    {
        s.op = static_cast<int>(get());
        for (auto& a : s.a)
        {
            a = get();
        }
        s.f.resize(static_cast<std::size_t>(get()));
        for (auto& f : s.f)
        {
            const std::int64_t v = get();
            f.at                 = static_cast<std::uint32_t>(v / 2);
            f.sticky             = (v & 1) != 0;
        }
    }
    return p;
}

// ------------------------------------------------------------------------------------------------ execution
void exec_plan(const Plan& p)
{
    ctx             = Ctx{};
    ctx.variant     = p.variant;
    ctx.shape       = p.cfg[5] % 2 == 0 ? 0U : static_cast<unsigned>(p.cfg[5] / 2 % 4);
    effective_steps = 0;
    run_injected    = 0;
    step_points.clear();
    life.reset();
    ctx.hash = mix(0x1234, static_cast<std::uint64_t>(p.variant));
    world().variants[static_cast<std::size_t>(p.variant)].exec(p);
    ctx.enabled = false;
    life.check_empty("end of run");
}

void account_run(const Plan& p, int mode)
{
    sh->runs.fetch_add(1, std::memory_order_relaxed);
    (mode == 0 ? sh->runs_faultfree : mode == 3 ? sh->runs_sweep : sh->runs_fault).fetch_add(1, std::memory_order_relaxed);
    sh->digest.fetch_add(mix(ctx.hash, 77), std::memory_order_relaxed);
    sh->var_runs[p.variant].fetch_add(1, std::memory_order_relaxed);
    const bool nontrivial = effective_steps >= 3 && (mode == 0 || run_injected > 0);
    if (nontrivial)
    {
        sh->runs_nontrivial.fetch_add(1, std::memory_order_relaxed);
        sh->histories.insert(ctx.hash);
        const int n = sh->sample_n.load(std::memory_order_relaxed);
        if (n < static_cast<int>(kSamples) && (n % 4) == mode)
        {
            int e = n;
            if (sh->sample_n.compare_exchange_strong(e, n + 1))
            {
                std::snprintf(sh->sample[n], sizeof(sh->sample[n]), "%s", plan_to_text(p).c_str());
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ generation
void gen_args(Rng& r, Step& s)
{
    for (auto& a : s.a)
    {
        const std::uint64_t k = r.below(16);
        if (k < 10)
        {
            a = static_cast<std::int64_t>(r.below(8));
        }
        else if (k < 14)
        {
            a = static_cast<std::int64_t>(r.below(40));
        }
        else
        {
            a = static_cast<std::int64_t>(r.below(100000));
        }
    }
}

Plan gen_plan(Rng& r, int mode)
{
    const World& w = world();
    Plan         p;
    unsigned     vt = 0;
    for (const auto& v : w.variants)
    {
        vt += v.weight;
    }
    std::uint64_t pick = r.below(vt);
    for (std::size_t i = 0; i < w.variants.size(); ++i)
    {
        if (pick < w.variants[i].weight)
        {
            p.variant = static_cast<int>(i);
            break;
        }
        pick -= w.variants[i].weight;
    }
    for (auto& c : p.cfg)
    {
        c = static_cast<std::int64_t>(r.below(1U << 20));
    }
    if (w.gen_cfg != nullptr)
    {
        w.gen_cfg(r, p);
    }
    // swarm: a random subset of the operations, with random weights
    std::vector<unsigned> wt(w.ops.size());
    unsigned              total = 0;
    const bool            swarm = r.chance(3, 4);
    for (std::size_t i = 0; i < w.ops.size(); ++i)
    {
        wt[i] = w.ops[i].weight;
        if (swarm && r.chance(1, 3))
        {
            wt[i] = r.chance(1, 2) ? 0 : wt[i] * 4;
        }
        total += wt[i];
    }
    const bool narrow = w.narrow && r.chance(2, 3);
    if (narrow)
    {
        std::vector<unsigned> few(wt.size(), 0);
        total = 0;
        for (std::uint64_t k = 1 + r.below(3); k > 0; --k)
        {
            unsigned& x = few[r.below(wt.size())];
            total += x == 0 ? 1 : 0;
            x = 1;
        }
        wt = few;
    }
    if (total == 0)
    {
        wt[0] = total = 1;
    }
    const unsigned span = w.max_steps - w.min_steps + 1;
    unsigned       n    = w.min_steps + static_cast<unsigned>(r.below(span));
    if (mode == 3 || r.chance(1, 3))
    {
        n = w.min_steps + static_cast<unsigned>(r.below(span / 3 + 1));
    }
    for (unsigned i = 0; i < n; ++i)
    {
        Step          s;
        std::uint64_t x = r.below(total);
        for (std::size_t k = 0; k < wt.size(); ++k)
        {
            if (x < wt[k])
            {
                s.op = static_cast<int>(k);
                break;
            }
            x -= wt[k];
        }
        gen_args(r, s);
        if (narrow && i > 0 && r.chance(1, 4))
        {
            const std::int64_t who = s.a[0];
            s                      = p.steps[r.below(p.steps.size())];
            s.a[0]                 = who;
            s.f.clear();
        }
        if (w.faults && (mode == 1 || mode == 2))
        {
            const bool hit = mode == 1 ? r.chance(1, 6) : r.chance(2, 3);
            if (hit)
            {
                unsigned at = 0;
                unsigned k  = mode == 1 ? 1 : 1 + static_cast<unsigned>(r.below(3));
                while (k-- > 0)
                {
                    Fault f;
                    at += static_cast<unsigned>(r.chance(1, 2) ? r.below(3) : r.below(12));
                    f.at     = at++;
                    f.sticky = r.chance(1, 6);
                    s.f.push_back(f);
                }
            }
        }
        p.steps.push_back(s);
    }
    return p;
}

bool isolate{false};  // every run gets a process of its own
bool frugal_wanted{true};  // doing more than needed counts as a violation

void run_one(const Plan& p, int mode)
{
    store_plan(p);
    wsp->progress.fetch_add(1, std::memory_order_relaxed);
    if (world().fork_per_run || isolate)
    {
        static auto* const points = static_cast<std::uint32_t*>(map_shared(sizeof(std::uint32_t) * (kMaxPoints + 1)));
        const pid_t        c      = fork();
        if (c == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            exec_plan(p);
            account_run(p, mode);
            points[0] = static_cast<std::uint32_t>(std::min<std::size_t>(step_points.size(), kMaxPoints));
            std::copy_n(step_points.begin(), points[0], points + 1);
            _exit(0);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR)
        {
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            if (!wsp->rep.set)
            {
                char b[64];
                std::snprintf(b, sizeof(b), "process died (status 0x%x)", st);
                fill_report("crash", b);
            }
            _exit(42);
        }
        step_points.assign(points + 1, points + 1 + points[0]);
        return;
    }
    exec_plan(p);
    account_run(p, mode);
}

void run_index(std::uint64_t base, std::uint64_t index)
{
    Rng       r(mix(mix(base, 0xC0FFEE), index));
    const int mode = world().faults ? static_cast<int>(r.below(4)) : 0;
    Plan      p    = gen_plan(r, mode);
    wsp->cur_index = index;
    if (mode != 3)
    {
        run_one(p, mode);
        return;
    }
    // systematic single-fault sweep over every fault point of the fault-free execution of this plan
    run_one(p, 0);
    const std::vector<std::uint32_t>              pts = step_points;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> all;
    for (std::size_t s = 0; s < pts.size() && s < p.steps.size(); ++s)
    {
        for (std::uint32_t k = 0; k < pts[s] && k < 60; ++k)
        {
            all.emplace_back(static_cast<std::uint32_t>(s), k);
        }
    }
    while (all.size() > 80)
    {
        const std::size_t x = static_cast<std::size_t>(r.below(all.size()));
        all[x]              = all.back();
        all.pop_back();
    }
    const bool sticky = r.chance(1, 4);
    for (const auto& sk : all)
    {
        Plan q = p;
        q.steps[sk.first].f.push_back(Fault{sk.second, sticky});
        run_one(q, 3);
    }
}

// ------------------------------------------------------------------------------------------------ signal capture
void on_signal(int sig)
{
    char b[64];
    std::snprintf(b, sizeof(b), "signal %d (%s)", sig, sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault" : "fatal");
    fill_report("crash", b);
    _exit(42);
}
void on_terminate()
{
    fill_report("terminate", "std::terminate was called (an exception hit a non-throwing boundary)");
    _exit(42);
}

bool install_handlers()
{
    std::signal(SIGABRT, on_signal);
    std::signal(SIGILL, on_signal);
#if !SIM_ASAN
    std::signal(SIGSEGV, on_signal);
    std::signal(SIGBUS, on_signal);
    std::signal(SIGFPE, on_signal);
#endif
    std::set_terminate(on_terminate);
    return true;
}

double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

void silence()
{
    const int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    close(fd);
}

/// Executes a plan in a forked child. Returns true if it violated; fills rep.
bool run_forked(const Plan& p, Report& rep, std::uint64_t* hash_out = nullptr)
{
    WorkerState* ws = &sh->w[kMaxWork - 1];
    std::memset(&ws->rep, 0, sizeof(ws->rep));
    ws->cur_index = 0;
    const pid_t c = fork();
    if (c == 0)
    {
        silence();
        wsp      = ws;
        counting = false;
        install_handlers();
        exec_plan(p);
        ws->rep.hash = ctx.hash;
        _exit(0);
    }
    const double t0 = now();
    int          st = 0;
    for (;;)
    {
        const pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c)
        {
            break;
        }
        if (now() - t0 > 20.0)
        {
            kill(c, SIGKILL);
            waitpid(c, &st, 0);
            std::snprintf(ws->rep.cls, sizeof(ws->rep.cls), "hang");
            std::snprintf(ws->rep.msg, sizeof(ws->rep.msg), "operation does not return");
            ws->rep.hash = 0;
            ws->rep.set  = 1;
            break;
        }
        struct timespec ts = {0, 200000};
        nanosleep(&ts, nullptr);
    }
    if (!ws->rep.set && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        std::snprintf(ws->rep.cls, sizeof(ws->rep.cls), "crash");
        std::snprintf(ws->rep.msg, sizeof(ws->rep.msg), "process died (status 0x%x)", st);
        ws->rep.set = 1;
    }
    rep = ws->rep;
    if (hash_out != nullptr)
    {
        *hash_out = ws->rep.hash;
    }
    return rep.set != 0;
}

bool same_report(const Report& a, const Report& b)
{
    return a.set == b.set && std::strcmp(a.cls, b.cls) == 0 && std::strcmp(a.msg, b.msg) == 0 && a.hash == b.hash;
}

// ------------------------------------------------------------------------------------------------ minimisation
Plan minimise(Plan p, const char* cls, unsigned& attempts)
{
    const unsigned cap  = 900;
    const double   tcap = now() + 90.0;
    auto           bad  = [&](const Plan& q) {
        if (attempts >= cap || now() > tcap)
        {
            return false;
        }
        ++attempts;
        Report r;
        return run_forked(q, r) && std::strcmp(r.cls, cls) == 0;
    };
    // 1. drop steps (ddmin)
    std::size_t chunk = p.steps.size() / 2;
    while (chunk >= 1)
    {
        bool any = false;
        for (std::size_t i = p.steps.size(); i > 0;)
        {
            const std::size_t lo = i > chunk ? i - chunk : 0;
            Plan              q  = p;
            q.steps.erase(q.steps.begin() + static_cast<std::ptrdiff_t>(lo), q.steps.begin() + static_cast<std::ptrdiff_t>(i));
            if (bad(q))
            {
                p   = q;
                any = true;
                i   = lo < p.steps.size() ? lo : p.steps.size();
            }
            else
            {
                i = lo;
            }
        }
        if (!any || chunk == 1)
        {
            if (chunk == 1 && !any)
            {
                break;
            }
            chunk = chunk > 1 ? chunk / 2 : (any ? 1 : 0);
        }
    }
    // 2. drop faults
    for (std::size_t s = 0; s < p.steps.size(); ++s)
    {
        for (std::size_t k = p.steps[s].f.size(); k > 0; --k)
        {
            Plan q = p;
            q.steps[s].f.erase(q.steps[s].f.begin() + static_cast<std::ptrdiff_t>(k - 1));
            if (bad(q))
            {
                p = q;
            }
            else if (p.steps[s].f[k - 1].sticky)
            {
                q                        = p;
                q.steps[s].f[k - 1].sticky = false;
                if (bad(q))
                {
                    p = q;
                }
            }
        }
    }
    // 3. shrink arguments
    for (std::size_t s = 0; s < p.steps.size(); ++s)
    {
        for (std::size_t k = 0; k < 4; ++k)
        {
            const std::int64_t tries[] = {0, 1, 2, p.steps[s].a[k] / 2, p.steps[s].a[k] - 1};
            for (auto v : tries)
            {
                if (v < 0 || v >= p.steps[s].a[k])
                {
                    continue;
                }
                Plan q          = p;
                q.steps[s].a[k] = v;
                if (bad(q))
                {
                    p = q;
                    break;
                }
            }
        }
    }
    return p;
}

/// Executes the runs of a range of indices one after the other in one forked child. Returns true if one of them violated; fills rep
/// and the index of that run.
bool run_sequence(std::uint64_t base, std::uint64_t first, std::uint64_t last, double max_sec, Report& rep, std::uint64_t& index)
{
    WorkerState* ws = &sh->w[kMaxWork - 1];
    std::memset(&ws->rep, 0, sizeof(ws->rep));
    ws->cur_index = first;
    const pid_t c = fork();
    if (c == 0)
    {
        silence();
        wsp      = ws;
        counting = false;
        install_handlers();
        for (std::uint64_t i = first; i <= last; ++i)
        {
            run_index(base, i);
        }
        _exit(0);
    }
    const double  t0   = now();
    double        lt   = t0;
    std::uint64_t seen = ws->progress.load();
    int           st   = 0;
    for (;;)
    {
        const pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c)
        {
            break;
        }
        const std::uint64_t pr = ws->progress.load();
        if (pr != seen)
        {
            seen = pr;
            lt   = now();
        }
        const bool stuck = now() - lt > 25.0;
        if (stuck || now() - t0 > max_sec)
        {
            kill(c, SIGKILL);
            waitpid(c, &st, 0);
            std::memset(&ws->rep, 0, sizeof(ws->rep));
            if (stuck)
            {
                std::snprintf(ws->rep.cls, sizeof(ws->rep.cls), "hang");
                std::snprintf(ws->rep.msg, sizeof(ws->rep.msg), "operation does not return");
                ws->rep.set = 1;
            }
            st = 0;
            break;
        }
        struct timespec ts = {0, 500000};
        nanosleep(&ts, nullptr);
    }
    if (!ws->rep.set && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        std::snprintf(ws->rep.cls, sizeof(ws->rep.cls), "crash");
        std::snprintf(ws->rep.msg, sizeof(ws->rep.msg), "process died (status 0x%x)", st);
        ws->rep.set = 1;
    }
    rep   = ws->rep;
    index = ws->cur_index;
    return rep.set != 0;
}

/// Looks for the first violation of the claimed classes that the runs from `first` on produce in one process, and for the shortest
/// sequence of runs ending there that still produces it. Returns the text of the replay file, empty if there is none.
std::string find_sequence(std::uint64_t base, std::uint64_t nruns, double max_sec, const std::string& classes, Report& rep)
{
    const double  t0    = now();
    std::uint64_t first = 0;
    std::uint64_t last  = 0;
    for (;;)
    {
        if (first >= nruns || !run_sequence(base, first, nruns - 1, max_sec - (now() - t0), rep, last))
        {
            return "";
        }
        if (classes == ",," || classes.find("," + std::string(rep.cls) + ",") != std::string::npos)
        {
            break;
        }
        first = last + 1;
    }
    const Plan p   = load_plan(&sh->w[kMaxWork - 1]);
    Report     r{};
    // The later the sequence starts the shorter it is: keep the latest start known to produce the same violation.
    std::uint64_t lo = first;
    std::uint64_t hi = last + 1;
    while (hi - lo > 1 && now() - t0 < max_sec)
    {
        const std::uint64_t mid = lo + (hi - lo) / 2;
        std::uint64_t       x   = 0;
        if (run_sequence(base, mid, last, max_sec, r, x) && x == last && std::strcmp(r.cls, rep.cls) == 0)
        {
            lo = mid;
        }
        else
        {
            hi = mid;
        }
    }
    Report        r2{};
    std::uint64_t x1 = 0;
    std::uint64_t x2 = 0;
    if (!run_sequence(base, lo, last, max_sec, r, x1) || !run_sequence(base, lo, last, max_sec, r2, x2) || !same_report(r, r2) || x1 != x2)
    {
        return "";
    }
    rep = r;
    char        b[256];
    std::string text;
    std::snprintf(b, sizeof(b), "# class %s\n# hash %016llx\n", r.cls, static_cast<unsigned long long>(r.hash));
    text += b;
    text += std::string("# message ") + r.msg + "\n";
    text += "# The violation needs what earlier runs left behind in the process: every run of the seed from the first to the last index\n"
            "# below is executed, in this order, in one process. The last run is:\n";
    std::string plan = plan_to_text(p);
    for (std::size_t i = 0; i < plan.size();)
    {
        const std::size_t e = std::min(plan.find('\n', i), plan.size());
        text += "#   " + plan.substr(i, e - i) + "\n";
        i = e + 1;
    }
    std::snprintf(b,
                  sizeof(b),
                  "sequence %llu %llu %llu\n",
                  static_cast<unsigned long long>(base),
                  static_cast<unsigned long long>(lo),
                  static_cast<unsigned long long>(last));
    return text + b;
}

void json_escape(std::string& o, const char* s)
{
    for (; *s != 0; ++s)
    {
        if (*s == '"' || *s == '\\')
        {
            o += '\\';
            o += *s;
        }
        else if (*s == '\n')
        {
            o += "\\n";
        }
        else if (static_cast<unsigned char>(*s) < 32)
        {
            o += ' ';
        }
        else
        {
            o += *s;
        }
    }
}

}  // namespace

// ---------------------------------------------------------------------------------------------------------- public
void violation(const char* cls, const char* fmt, ...)
{
    char    b[480];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    char c[520];
    if (ctx.op >= 0 && ctx.op < static_cast<int>(world().ops.size()))
    {
        std::snprintf(c, sizeof(c), "%s [in %s]", b, world().ops[static_cast<std::size_t>(ctx.op)].name);
    }
    else
    {
        std::snprintf(c, sizeof(c), "%s", b);
    }
    trace("VIOLATION %s: %s", cls, c);
    fill_report(cls, c);
    _exit(42);
}

void frugal(const char* fmt, ...)
{
    if (!frugal_wanted)
    {
        return;
    }
    char    b[480];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    violation("frugal", "%s", b);
}

void trace(const char* fmt, ...)
{
    if (!tracing)
    {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    std::vprintf(fmt, ap);
    va_end(ap);
    std::printf("\n");
    std::fflush(stdout);
}

void probe(const char* name)
{
    if (!counting)
    {
        return;
    }
    for (unsigned i = 0; i < kMaxProbes; ++i)
    {
        if (sh->probe_name[i][0] == 0)
        {
            int e = 0;
            while (!sh->probe_lock.compare_exchange_weak(e, 1))
            {
                e = 0;
            }
            if (sh->probe_name[i][0] == 0)
            {
                std::snprintf(sh->probe_name[i], sizeof(sh->probe_name[i]), "%s", name);
            }
            sh->probe_lock.store(0);
        }
        if (std::strncmp(sh->probe_name[i], name, sizeof(sh->probe_name[i]) - 1) == 0)
        {
            sh->probe_cnt[i].fetch_add(1, std::memory_order_relaxed);
            return;
        }
    }
}

void state(std::uint64_t h)
{
    ev(h);
    if (counting)
    {
        sh->states.insert(mix(mix(h, static_cast<std::uint64_t>(ctx.op)), static_cast<std::uint64_t>(ctx.variant)));
    }
}

void count_fault(Kind k, bool inj)
{
    if (!counting)
    {
        run_injected += inj ? 1 : 0;
        return;
    }
    sh->points[k].fetch_add(1, std::memory_order_relaxed);
    if (inj)
    {
        sh->injected[k].fetch_add(1, std::memory_order_relaxed);
        ++run_injected;
    }
}

void outcome(int o)
{
    cur_outcome = static_cast<unsigned>(o);
}

void begin_step(int idx, const Step& st)
{
    ctx.enabled       = false;
    ctx.step_hash     = ctx.hash;
    ctx.ordinal       = 0;
    ctx.fb            = st.f.data();
    ctx.fe            = st.f.data() + st.f.size();
    ctx.sticky        = false;
    ctx.injected      = 0;
    ctx.injected_mem  = 0;
    ctx.injected_elem = 0;
    ctx.first_id      = 0;
    ctx.last_id       = 0;
    ctx.calls         = 0;
    ctx.step          = idx;
    ctx.op            = st.op;
    cur_outcome       = 3;
    ev(static_cast<std::uint64_t>(st.op) + 0x1000);
    trace("step %d %s %lld %lld %lld %lld",
          idx,
          world().ops[static_cast<std::size_t>(st.op)].name,
          static_cast<long long>(st.a[0]),
          static_cast<long long>(st.a[1]),
          static_cast<long long>(st.a[2]),
          static_cast<long long>(st.a[3]));
}

void end_step()
{
    ctx.enabled = false;
    step_points.push_back(ctx.ordinal);
    ev(0x2000 + cur_outcome);
    if (cur_outcome != 3)
    {
        ++effective_steps;
    }
    if (counting)
    {
        sh->steps.fetch_add(1, std::memory_order_relaxed);
        sh->op_out[ctx.op][cur_outcome].fetch_add(1, std::memory_order_relaxed);
    }
}

void account_step(const Step& st, int out, std::uint32_t points)
{
    ctx.op      = st.op;
    ctx.ordinal = points;
    outcome(out);
    end_step();
}

// ---------------------------------------------------------------------------------------------------------- Mem
Mem::Mem(int i)
    : id(i)
    , quota(~std::size_t{0})
    , max_size(~std::size_t{0} / 2)
    , realloc_mode(ReallocMode::refuse)
    , cls("memory")
    , bytes_(0)
    , allocs_(0)
{
}

Mem::~Mem()
{
    while (!blocks_.empty())
    {
        release(blocks_.begin());
    }
}

void* Mem::take(std::size_t size, std::size_t align)
{
    // The block is aligned to exactly `align` and ends where the real block ends, so that the address sanitizer
    // sees any access past it; the gap before it is poisoned, or where it is too small for that, looked at in the end.
    const std::size_t ra  = std::max(coarse, align < 8 ? 16 : align * 2);
    void*             raw = nullptr;
    const std::size_t room = (size ? size : 1) + (realloc_mode == ReallocMode::elastic ? size + 32 : 0);
    if (posix_memalign(&raw, ra, align + room) != 0)
    {
        std::fprintf(stderr, "simulator out of memory\n");
        _exit(3);
    }
    unsigned char* p = static_cast<unsigned char*>(raw) + align;
    std::memset(p, 0xA5, size ? size : 1);
    std::memset(raw, 0xC3, align);
#if SIM_ASAN
    if (align >= 8)
    {
        ASAN_POISON_MEMORY_REGION(raw, align);
    }
    if (size < room)
    {
        ASAN_POISON_MEMORY_REGION(p + size, room - size);
    }
#endif
    blocks_[reinterpret_cast<std::uintptr_t>(p)] = Blk{size, align, raw, room};
    bytes_ += size;
    return p;
}

void Mem::release(std::map<std::uintptr_t, Blk>::iterator it)
{
    void*       raw = it->second.raw;
    const Blk   b   = it->second;
#if SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(raw, b.align + b.room);
#endif
    bool spoilt = false;
    for (std::size_t i = 0; i < b.align; ++i)
    {
        spoilt = spoilt || static_cast<const unsigned char*>(raw)[i] != 0xC3;
    }
    bytes_ -= b.size;
    std::memset(reinterpret_cast<void*>(it->first), 0xDD, b.size);
    blocks_.erase(it);
    std::free(raw);
    if (spoilt)
    {
        violation("asan", "memory before a block of %zu bytes was written to", b.size);
    }
}

void* Mem::allocate(std::size_t size, std::size_t align)
{
    ++requests;
    trace("    mem%d.allocate(%zu, %zu)", id, size, align);
    ev(mix(mix(0xA110C, static_cast<std::uint64_t>(id)), size));
    if (align == 0 || (align & (align - 1)) != 0)
    {
        violation(cls, "memory requested with an invalid alignment %zu", align);
    }
    const bool fail = fault_point(K_ALLOC);
    if (fail || size > max_size || size > quota || bytes_ > quota - size || size > (std::size_t{1} << 28))
    {
        if (!fail)
        {
            count_fault(K_QUOTA, true);
            trace("    quota reached");
        }
        (void) new_fault_id(true);
        return nullptr;
    }
    ++allocs_;
    return take(size, align);
}

void Mem::deallocate(void* p, std::size_t size, std::size_t align)
{
    tick();
    trace("    mem%d.deallocate(%zu, %zu)", id, size, align);
    if (p == nullptr)
    {
        return;
    }
    ev(mix(mix(0xDEA, static_cast<std::uint64_t>(id)), size));
    auto it = blocks_.find(reinterpret_cast<std::uintptr_t>(p));
    if (it == blocks_.end())
    {
        violation(cls, "memory returned to a resource that does not own it (or returned twice): %zu bytes", size);
    }
    if (it->second.size != size || it->second.align != align)
    {
        violation(cls,
                  "memory returned with size %zu align %zu, was obtained with size %zu align %zu",
                  size,
                  align,
                  it->second.size,
                  it->second.align);
    }
    release(it);
}

void* Mem::reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t align)
{
    ++requests;
    trace("    mem%d.reallocate(%zu -> %zu, %zu)", id, old_size, new_size, align);
    ev(mix(mix(0x4EA, static_cast<std::uint64_t>(id)), new_size));
    if (p == nullptr)
    {
        return nullptr;
    }
    auto it = blocks_.find(reinterpret_cast<std::uintptr_t>(p));
    if (it == blocks_.end())
    {
        violation(cls, "reallocation of memory this resource does not own");
    }
    if (it->second.size != old_size || it->second.align != align)
    {
        violation(cls,
                  "reallocation with size %zu align %zu of memory obtained with size %zu align %zu",
                  old_size,
                  align,
                  it->second.size,
                  it->second.align);
    }
    if (realloc_mode == ReallocMode::refuse || new_size == 0)
    {
        return nullptr;
    }
    if (fault_point(K_REALLOC))
    {
        return nullptr;
    }
    const bool shrink = new_size <= old_size;
    if (realloc_mode == ReallocMode::in_place && !shrink)
    {
        return nullptr;
    }
    if (!shrink && (new_size > max_size || bytes_ - old_size > quota || new_size > quota - (bytes_ - old_size) ||
                    new_size > (std::size_t{1} << 28)))
    {
        return nullptr;
    }
    if (!shrink && realloc_mode == ReallocMode::elastic)
    {
        if (new_size > it->second.room)
        {
            return nullptr;
        }
#if SIM_ASAN
        ASAN_UNPOISON_MEMORY_REGION(static_cast<unsigned char*>(p) + old_size, new_size - old_size);
#endif
        std::memset(static_cast<unsigned char*>(p) + old_size, 0xA5, new_size - old_size);
        bytes_ += new_size - old_size;
        it->second.size = new_size;
        return p;
    }
    if (shrink && realloc_mode != ReallocMode::moving)
    {
        // shrink in place
        bytes_ -= old_size - new_size;
#if SIM_ASAN
        // keep the raw size for release(): poison the cut-off tail (granularity permitting)
        ASAN_POISON_MEMORY_REGION(static_cast<unsigned char*>(p) + new_size, old_size - new_size);
#endif
        it->second.size = new_size;
        return p;
    }
    void* q = take(new_size, align);
    it      = blocks_.find(reinterpret_cast<std::uintptr_t>(p));
    std::memcpy(q, p, shrink ? new_size : old_size);
    release(it);
    ++allocs_;
    return q;
}

bool Mem::owns(const void* p, std::size_t size) const
{
    const auto a  = reinterpret_cast<std::uintptr_t>(p);
    auto       it = blocks_.upper_bound(a);
    if (it == blocks_.begin())
    {
        return false;
    }
    --it;
    return a >= it->first && a + size <= it->first + it->second.size;
}

void Mem::check_empty(const char* where) const
{
    if (!blocks_.empty())
    {
        violation(cls, "%zu block(s), %zu bytes never returned (%s)", blocks_.size(), bytes_, where);
    }
}

// ---------------------------------------------------------------------------------------------------------- Life
void Life::ctor(const void* p, int tag)
{
    tick();
    ev(mix(0xC704, static_cast<std::uint64_t>(tag)));
    if (!live_.emplace(reinterpret_cast<std::uintptr_t>(p), static_cast<std::uint64_t>(tag)).second)
    {
        violation("lifetime", "object constructed on top of a live object");
    }
}
void Life::dtor(const void* p, int tag)
{
    tick();
    ev(mix(0xD704, static_cast<std::uint64_t>(tag)));
    auto it = live_.find(reinterpret_cast<std::uintptr_t>(p));
    if (it == live_.end() || it->second != static_cast<std::uint64_t>(tag))
    {
        violation("lifetime", "destructor run on something that is not a live object");
    }
    live_.erase(it);
}
bool Life::alive(const void* p, int tag) const
{
    auto it = live_.find(reinterpret_cast<std::uintptr_t>(p));
    return it != live_.end() && it->second == static_cast<std::uint64_t>(tag);
}
void Life::use(const void* p, int tag, const char* what) const
{
    if (!alive(p, tag))
    {
        violation("lifetime", "object %s while not alive", what);
    }
}
void Life::check_empty(const char* where) const
{
    if (!live_.empty())
    {
        violation("lifetime", "%zu object(s) never destroyed (%s)", live_.size(), where);
    }
}

}  // namespace sim

// ---------------------------------------------------------------------------------------------------------- crash hooks
extern "C" void __assert_fail(const char* expr, const char*, unsigned, const char*)
{
    char b[400];
    std::snprintf(b, sizeof(b), "assertion failed: %s", expr);
    sim::fill_report("assert", b);
    sim::trace("%s", b);
    _exit(42);
}

#if SIM_ASAN
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:quarantine_size_mb=8:malloc_context_size=0:allocator_may_return_null=1:detect_stack_use_after_return="
           "0:handle_segv=1:handle_abort=0:exitcode=42:symbolize=0:detect_container_overflow=0:max_malloc_fill_size=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=42:symbolize=0";
}
static void on_asan(const char* text)
{
    char        b[256] = "invalid memory access";
    const char* e      = std::strstr(text, "AddressSanitizer: ");
    if (e != nullptr)
    {
        e += 18;
        std::size_t n = 0;
        while (e[n] != 0 && e[n] != ' ' && e[n] != '\n' && n < 60)
        {
            ++n;
        }
        std::snprintf(b, sizeof(b), "invalid memory access: %.*s", static_cast<int>(n), e);
    }
    if (std::strstr(b, "stack-overflow") != nullptr)
    {
        // How deep an endless recursion gets depends on the stack the process was given.
        sim::ctx.hash = sim::ctx.step_hash;
    }
    sim::fill_report("asan", b);
    if (sim::tracing)
    {
        std::printf("%s\n", text);
        std::fflush(stdout);
    }
    _exit(42);
}
#endif

int main(int argc, char** argv)
{
    using namespace sim;
    const auto want = [](const std::string& classes) {
        frugal_wanted = classes == ",," || classes.find(",frugal,") != std::string::npos;
    };
    const std::string cmd = argc > 1 ? argv[1] : "";
    // The address space is laid out the same way in every process, so that what depends on addresses repeats too.
    const int layout = personality(0xFFFFFFFF);
    if (layout != -1 && (layout & ADDR_NO_RANDOMIZE) == 0 && personality(static_cast<unsigned long>(layout) | ADDR_NO_RANDOMIZE) != -1 &&
        (personality(0xFFFFFFFF) & ADDR_NO_RANDOMIZE) != 0)
    {
        execv("/proc/self/exe", argv);
    }
    auto              opt = [&](const char* name, const char* def) -> std::string {
        for (int i = 2; i + 1 < argc; ++i)
        {
            if (std::strcmp(argv[i], name) == 0)
            {
                return argv[i + 1];
            }
        }
        return def;
    };
    sh = static_cast<Shared*>(map_shared(sizeof(Shared)));
#if SIM_ASAN
    __asan_set_error_report_callback(on_asan);
#endif

    if (cmd == "replay" && argc > 2)
    {
        FILE* f = std::fopen(argv[2], "r");
        if (f == nullptr)
        {
            std::perror(argv[2]);
            return 2;
        }
        std::string text;
        char        b[4096];
        std::size_t n;
        while ((n = std::fread(b, 1, sizeof(b), f)) > 0)
        {
            text.append(b, n);
        }
        std::fclose(f);
        const std::size_t cl = text.find("# classes ");
        if (cl != std::string::npos)
        {
            want("," + text.substr(cl + 10, text.find('\n', cl) - cl - 10) + ",");
        }
        Report            rep;
        const std::size_t sq = text.rfind("\nsequence ");
        if (sq != std::string::npos)
        {
            unsigned long long v[3] = {0, 0, 0};
            if (std::sscanf(text.c_str() + sq, "\nsequence %llu %llu %llu", &v[0], &v[1], &v[2]) != 3)
            {
                return 2;
            }
            std::uint64_t at = 0;
            if (run_sequence(v[0], v[1], v[2], 1e9, rep, at))
            {
                std::printf("RESULT violation cls=%s hash=%016llx step=%d msg=%s\n", rep.cls, static_cast<unsigned long long>(rep.hash), rep.step, rep.msg);
                return 1;
            }
            std::printf("RESULT ok\n");
            return 0;
        }
        Plan p;
        if (!text_to_plan(text, p))
        {
            return 2;
        }
        tracing = opt("--quiet", "0") != "1";
        if (run_forked(p, rep))
        {
            std::printf("RESULT violation cls=%s hash=%016llx step=%d msg=%s\n", rep.cls, static_cast<unsigned long long>(rep.hash), rep.step, rep.msg);
            return 1;
        }
        std::printf("RESULT ok hash=%016llx\n", static_cast<unsigned long long>(rep.hash));
        return 0;
    }
    if (cmd != "search" && cmd != "sequence")
    {
        std::fprintf(stderr, "usage: %s search|sequence|replay ...\n", argv[0]);
        return 2;
    }

    const std::uint64_t base    = std::strtoull(opt("--seed", "1").c_str(), nullptr, 0);
    const std::uint64_t first   = std::strtoull(opt("--first", "0").c_str(), nullptr, 0);
    const std::uint64_t nruns   = first + std::strtoull(opt("--runs", "1000").c_str(), nullptr, 0);
    const unsigned      workers = static_cast<unsigned>(std::strtoul(opt("--workers", "8").c_str(), nullptr, 0));
    const double        maxsec  = std::strtod(opt("--max-sec", "600").c_str(), nullptr);
    const std::string   classes = "," + opt("--classes", "") + ",";
    const std::string   only    = opt("--variant", "");
    const std::string   outfile = opt("--replay-out", "");
    want(classes);
    isolate                     = opt("--isolate", "0") == "1";
    (void) only;

    if (cmd == "sequence")
    {
        Report            rep{};
        const std::string text = find_sequence(base, nruns, maxsec, classes, rep);
        if (text.empty())
        {
            std::printf("RESULT ok\n");
            return 0;
        }
        FILE* f = std::fopen(outfile.c_str(), "w");
        if (f == nullptr)
        {
            return 2;
        }
        std::fwrite(text.data(), 1, text.size(), f);
        std::fclose(f);
        std::printf("RESULT violation cls=%s hash=%016llx step=%d msg=%s\n", rep.cls, static_cast<unsigned long long>(rep.hash), rep.step, rep.msg);
        return 1;
    }

    const double   t0 = now();
    std::vector<pid_t> kids;
    struct Found
    {
        std::atomic<std::uint64_t> index;
        std::atomic<int>           worker;
    };
    Found* found = static_cast<Found*>(map_shared(sizeof(Found)));
    found->index = ~0ULL;
    found->worker = -1;
    sh->next_index = first;
    constexpr std::uint64_t kBlock = 32;
    for (unsigned wi = 0; wi < workers && wi < kMaxWork - 1; ++wi)
    {
        const pid_t k = fork();
        if (k != 0)
        {
            kids.push_back(k);
            continue;
        }
        // ---- worker: keeps a runner child going
        wsp               = &sh->w[wi];
        std::uint64_t cur = 0;
        std::uint64_t end = 0;
        for (;;)
        {
            if (sh->stop.load() || now() - t0 > maxsec)
            {
                _exit(0);
            }
            if (cur >= end)
            {
                cur = sh->next_index.fetch_add(kBlock);
                end = cur + kBlock < nruns ? cur + kBlock : nruns;
                if (cur >= nruns)
                {
                    _exit(0);
                }
            }
            std::memset(&wsp->rep, 0, sizeof(wsp->rep));
            wsp->cur_index = cur;
            // The runner executes blocks until there are none left, it violates, or time is up.
            std::uint64_t* prog = static_cast<std::uint64_t*>(map_shared(4096));
            prog[0]             = cur;
            prog[1]             = end;
            const pid_t r       = fork();
            if (r == 0)
            {
                silence();
                install_handlers();
                for (;;)
                {
                    while (prog[0] < prog[1])
                    {
                        run_index(base, prog[0]);
                        prog[0]++;
                    }
                    if (sh->stop.load() || now() - t0 > maxsec)
                    {
                        _exit(0);
                    }
                    const std::uint64_t b2 = sh->next_index.fetch_add(kBlock);
                    if (b2 >= nruns)
                    {
                        _exit(0);
                    }
                    prog[1] = b2 + kBlock < nruns ? b2 + kBlock : nruns;
                    prog[0] = b2;
                }
            }
            std::uint64_t last = wsp->progress.load();
            double        lt   = now();
            int           st   = 0;
            bool          hang = false;
            for (;;)
            {
                const pid_t x = waitpid(r, &st, WNOHANG);
                if (x == r)
                {
                    break;
                }
                const std::uint64_t pr = wsp->progress.load();
                if (pr != last)
                {
                    last = pr;
                    lt   = now();
                }
                else if (now() - lt > 25.0)
                {
                    kill(r, SIGKILL);
                    waitpid(r, &st, 0);
                    hang = true;
                    break;
                }
                struct timespec ts = {0, 2000000};
                nanosleep(&ts, nullptr);
            }
            cur = prog[0];
            end = prog[1];
            munmap(prog, 4096);
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && !wsp->rep.set)
            {
                if (cur < end)
                {
                    _exit(0);  // time is up
                }
                _exit(0);
            }
            if (hang && !wsp->rep.set)
            {
                std::snprintf(wsp->rep.cls, sizeof(wsp->rep.cls), "hang");
                std::snprintf(wsp->rep.msg, sizeof(wsp->rep.msg), "operation does not return");
                wsp->rep.set = 1;
            }
            if (!wsp->rep.set)
            {
                std::snprintf(wsp->rep.cls, sizeof(wsp->rep.cls), "crash");
                std::snprintf(wsp->rep.msg, sizeof(wsp->rep.msg), "process died (status 0x%x)", st);
                wsp->rep.set = 1;
            }
            const bool claimed = classes == ",," || classes.find("," + std::string(wsp->rep.cls) + ",") != std::string::npos;
            if (claimed)
            {
                std::uint64_t e = found->index.load();
                while (wsp->cur_index < e && !found->index.compare_exchange_weak(e, wsp->cur_index))
                {
                }
                sh->stop = 1;
                _exit(7);
            }
            sh->masked.fetch_add(1);
            ++cur;  // the run at `cur` is spoiled for this property: go on with the next index
        }
    }
    int bad_workers = 0;
    int violating   = -1;
    for (std::size_t i = 0; i < kids.size(); ++i)
    {
        int st = 0;
        waitpid(kids[i], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7)
        {
            if (violating < 0 || sh->w[i].cur_index < sh->w[violating].cur_index)
            {
                violating = static_cast<int>(i);
            }
        }
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            ++bad_workers;
        }
    }
    const double wall = now() - t0;

    std::string j = "{";
    char        b[1024];
    auto        num = [&](const char* k, unsigned long long v) {
        std::snprintf(b, sizeof(b), "\"%s\":%llu,", k, v);
        j += b;
    };
    j += "\"world\":\"";
    j += world().name;
    j += "\",";
    num("exceptions", SIM_EXC);
    num("cxx", static_cast<unsigned long long>(world().cxx));
    num("seed", base);
    num("indices", std::min<std::uint64_t>(sh->next_index.load(), nruns) - first);
    num("runs", sh->runs);
    num("runs_faultfree", sh->runs_faultfree);
    num("runs_random_faults", sh->runs_fault);
    num("runs_fault_sweep", sh->runs_sweep);
    num("runs_nontrivial", sh->runs_nontrivial);
    num("ticks", sh->steps);
    num("masked", sh->masked);
    num("bad_workers", static_cast<unsigned long long>(bad_workers));
    num("distinct_histories", sh->histories.count);
    num("distinct_histories_not_counted", sh->histories.dropped);
    num("distinct_states", sh->states.count);
    num("distinct_states_not_counted", sh->states.dropped);
    std::snprintf(b, sizeof(b), "\"digest\":\"%016llx\",\"wall_s\":%.3f,", static_cast<unsigned long long>(sh->digest.load()), wall);
    j += b;
    j += "\"fault_points\":{";
    for (unsigned k = 0; k < K_COUNT; ++k)
    {
        std::snprintf(b, sizeof(b), "%s\"%s\":%llu", k ? "," : "", kind_names[k], static_cast<unsigned long long>(sh->points[k].load()));
        j += b;
    }
    j += "},\"faults_injected\":{";
    for (unsigned k = 0; k < K_COUNT; ++k)
    {
        std::snprintf(b, sizeof(b), "%s\"%s\":%llu", k ? "," : "", kind_names[k], static_cast<unsigned long long>(sh->injected[k].load()));
        j += b;
    }
    j += "},\"ops\":{";
    for (std::size_t k = 0; k < world().ops.size(); ++k)
    {
        std::snprintf(b,
                      sizeof(b),
                      "%s\"%s\":[%llu,%llu,%llu,%llu]",
                      k ? "," : "",
                      world().ops[k].name,
                      static_cast<unsigned long long>(sh->op_out[k][0].load()),
                      static_cast<unsigned long long>(sh->op_out[k][1].load()),
                      static_cast<unsigned long long>(sh->op_out[k][2].load()),
                      static_cast<unsigned long long>(sh->op_out[k][3].load()));
        j += b;
    }
    j += "},\"variants\":{";
    for (std::size_t k = 0; k < world().variants.size(); ++k)
    {
        std::snprintf(b, sizeof(b), "%s\"%s\":%llu", k ? "," : "", world().variants[k].name, static_cast<unsigned long long>(sh->var_runs[k].load()));
        j += b;
    }
    j += "},\"probes\":{";
    for (unsigned k = 0; k < kMaxProbes && sh->probe_name[k][0] != 0; ++k)
    {
        std::snprintf(b, sizeof(b), "%s\"%s\":%llu", k ? "," : "", sh->probe_name[k], static_cast<unsigned long long>(sh->probe_cnt[k].load()));
        j += b;
    }
    j += "},\"samples\":[";
    for (int k = 0; k < sh->sample_n.load(); ++k)
    {
        j += k ? ",\"" : "\"";
        json_escape(j, sh->sample[k]);
        j += "\"";
    }
    j += "],\"real\":\"";
    json_escape(j, world().real);
    j += "\",\"stub\":\"";
    json_escape(j, world().stub);
    j += "\"";

    if (violating >= 0)
    {
        WorkerState* ws  = &sh->w[violating];
        const Report r0  = ws->rep;
        const Plan   p0  = load_plan(ws);
        Report       r1{};
        Report       r2{};
        const bool   v1  = run_forked(p0, r1);
        const bool   v2  = run_forked(p0, r2);
        const bool   det = v1 && v2 && same_report(r1, r2);
        j += ",\"violation\":{";
        std::snprintf(b, sizeof(b), "\"index\":%llu,\"cls\":\"%s\",\"deterministic\":%s,", static_cast<unsigned long long>(ws->cur_index), r0.cls, det ? "true" : "false");
        j += b;
        j += "\"msg\":\"";
        json_escape(j, r0.msg);
        j += "\",";
        if (det)
        {
            unsigned attempts = 0;
            Plan     pm       = minimise(p0, r1.cls, attempts);
            Report   m1{};
            Report   m2{};
            bool     mv = run_forked(pm, m1) && run_forked(pm, m2) && same_report(m1, m2);
            if (!mv)
            {
                pm = p0;
                m1 = r1;
                mv = true;
            }
            std::string text;
            std::snprintf(b, sizeof(b), "# seed %llu index %llu\n# class %s\n# hash %016llx\n", static_cast<unsigned long long>(base), static_cast<unsigned long long>(ws->cur_index), m1.cls, static_cast<unsigned long long>(m1.hash));
            text += b;
            text += std::string("# message ") + m1.msg + "\n";
            text += plan_to_text(pm);
            if (!outfile.empty())
            {
                FILE* f = std::fopen(outfile.c_str(), "w");
                if (f != nullptr)
                {
                    std::fwrite(text.data(), 1, text.size(), f);
                    std::fclose(f);
                }
            }
            std::snprintf(b,
                          sizeof(b),
                          "\"steps_before\":%zu,\"steps_after\":%zu,\"attempts\":%u,\"hash\":\"%016llx\",\"min_cls\":\"%s\",\"min_msg\":\"",
                          p0.steps.size(),
                          pm.steps.size(),
                          attempts,
                          static_cast<unsigned long long>(m1.hash),
                          m1.cls);
            j += b;
            json_escape(j, m1.msg);
            j += "\",";
        }
        j += "\"plan\":\"";
        json_escape(j, plan_to_text(p0).c_str());
        j += "\"}";
    }
    j += "}\n";
    std::fputs(j.c_str(), stdout);
    return bad_workers ? 2 : 0;
}
