// Deterministic simulation core: PRNG, plans, fault points, ledgers, violation reporting.
// Everything a run does is a function of its plan. Nothing here reads a clock, an address or the environment
// to make a decision that influences the run.
#ifndef SIM_HPP
#define SIM_HPP

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#if defined(__cpp_exceptions)
#    define SIM_EXC 1
#else
#    define SIM_EXC 0
#endif

namespace sim
{

// ---------------------------------------------------------------------------------------------------------- PRNG
struct Rng final
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed)
        : s(seed)
    {
    }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n)
    {
        return n ? next() % n : 0;
    }
    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

// ---------------------------------------------------------------------------------------------------------- plans
struct Fault final
{
    std::uint32_t at;      ///< ordinal of the fault point inside the step
    bool          sticky;  ///< all later memory fault points of the step fail too
};
struct Step final
{
    int                         op{0};
    std::array<std::int64_t, 4> a{{0, 0, 0, 0}};
    std::vector<Fault>          f;
};
struct Plan final
{
    int                         variant{0};
    std::array<std::int64_t, 8> cfg{{0, 0, 0, 0, 0, 0, 0, 0}};
    std::vector<Step>           steps;
};

enum Kind : unsigned
{
    K_ALLOC,        // allocation refused
    K_REALLOC,      // reallocation refused
    K_QUOTA,        // memory limit reached
    K_CTOR,         // default/value construction throws
    K_COPY,         // copy construction throws
    K_MOVE,         // move construction throws
    K_COPYASSIGN,   // copy assignment throws
    K_MOVEASSIGN,   // move assignment throws
    K_CALL,         // user callable throws
    K_PREEMPT,      // (threads) forced preemption
    K_NEST,         // user code runs another operation before it returns
    K_COUNT
};
extern const char* const kind_names[K_COUNT];

// ---------------------------------------------------------------------------------------------------------- worlds
struct OpDesc final
{
    const char* name;
    unsigned    weight;
};
struct Variant final
{
    const char* name;
    void (*exec)(const Plan&);
    unsigned weight;
};
struct World final
{
    const char*          name;
    std::vector<OpDesc>  ops;
    std::vector<Variant> variants;
    unsigned             min_steps;
    unsigned             max_steps;
    void (*gen_cfg)(Rng&, Plan&);             // may be null
    bool                 faults;              // element/alloc faults make sense
    bool                 fork_per_run;        // fresh process for each run (function-local statics)
    const char*          real;                // components that run real code
    const char*          stub;                // components that are simulated
    bool                 narrow{false};       // many plans with very few operation kinds and repeated steps
    long                 cxx{__cplusplus};    // language standard of the world
};
const World& world();

// ---------------------------------------------------------------------------------------------------------- run context
struct Ctx final
{
    bool               enabled{false};
    std::uint32_t      ordinal{0};
    const Fault*       fb{nullptr};
    const Fault*       fe{nullptr};
    bool               sticky{false};
    std::uint32_t      injected{0};        // injected in this step
    std::uint32_t      injected_mem{0};
    std::uint32_t      injected_elem{0};
    std::uint64_t      first_id{0};
    std::uint64_t      last_id{0};
    std::uint64_t      ids{0};             // ids given out in this run
    std::uint64_t      hash{0};
    std::uint64_t      step_hash{0};       // hash when the step began
    std::uint64_t      calls{0};           // simulator calls in this step (bounded liveness)
    int                step{-1};
    int                op{-1};
    int                variant{0};
    bool               null_fails{false};  // failing memory sources return null and the library makes the exception
    unsigned           shape{0};           // what kind of exception user code throws in this run
};
extern Ctx ctx;

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
/// An operation that did more than it needs to. Ends the run only when that is what is looked for, as it leaves nothing broken.
void frugal(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void              probe(const char* name);
void              state(std::uint64_t h);
void              count_fault(Kind k, bool injected);
void              outcome(int o);  // 0 ok, 1 failed by fault, 2 refused, 3 no-op
void              begin_step(int idx, const Step& st);
void              end_step();
/// For worlds whose steps overlap: accounts one finished step.
void account_step(const Step& st, int out, std::uint32_t points);
void              trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool       tracing;

inline void ev(std::uint64_t v)
{
    ctx.hash = mix(ctx.hash, v);
}

inline void tick()
{
    if (++ctx.calls > 100000)
    {
        violation("hang", "operation makes unbounded progress-free calls (step %d)", ctx.step);
    }
}

/// Returns true if this fault point has to fail.
inline bool fault_point(Kind k)
{
    tick();
    if (!ctx.enabled)
    {
        return false;
    }
    const std::uint32_t o   = ctx.ordinal++;
    bool                hit = false;
    while (ctx.fb != ctx.fe && ctx.fb->at < o)
    {
        ++ctx.fb;
    }
    if (ctx.fb != ctx.fe && ctx.fb->at == o)
    {
        hit = true;
        ctx.sticky |= ctx.fb->sticky;
        ++ctx.fb;
    }
    if (ctx.sticky && (k == K_ALLOC || k == K_REALLOC))
    {
        hit = true;
    }
    count_fault(k, hit);
    ev(mix(k, hit));
    if (hit)
    {
        trace("    fault point %u (%s) FAILS", o, kind_names[k]);
    }
    return hit;
}

struct Injected final
{
    std::uint64_t id;
    Kind          kind;
};
/// User code may as well throw exceptions that the library itself uses or looks for.
template <typename Base>
struct InjectedStd final : Base
{
    std::uint64_t id;
    template <typename... As>
    explicit InjectedStd(std::uint64_t i, const As&... as)
        : Base(as...)
        , id(i)
    {
    }
};
enum : unsigned
{
    shape_own = 0,
    shape_bad_alloc = 1,
    shape_length = 2,
    shape_runtime = 3
};
struct SimBadAlloc final : std::bad_alloc
{
    std::uint64_t id;
    explicit SimBadAlloc(std::uint64_t i)
        : id(i)
    {
    }
};

inline std::uint64_t new_fault_id(bool mem)
{
    const std::uint64_t id = ++ctx.ids;
    if (ctx.injected++ == 0)
    {
        ctx.first_id = id;
    }
    if (mem)
    {
        ctx.injected_mem++;
    }
    else
    {
        ctx.injected_elem++;
    }
    ctx.last_id = id;
    return id;
}

/// User-code fault point: throws if the plan says so.
inline void user_point(Kind k)
{
#if SIM_EXC
    if (fault_point(k))
    {
        const std::uint64_t id = new_fault_id(false);
        switch (ctx.shape)
        {
        case shape_bad_alloc:
            throw InjectedStd<std::bad_alloc>(id);
        case shape_length:
            throw InjectedStd<std::length_error>(id, "injected");
        case shape_runtime:
            throw InjectedStd<std::runtime_error>(id, "injected");
        default:
            throw Injected{id, k};
        }
    }
#else
    (void) k;
    tick();
#endif
}

enum class Res : int
{
    ok        = 0,
    injected  = 1,  // an injected element fault arrived
    bad_alloc = 2,  // an injected allocation fault arrived
    length    = 3,  // std::length_error
    std_bad_alloc = 4,  // a std::bad_alloc that the simulator did not create
    other     = 5   // any other exception
};
extern std::string last_other;  // what() of the last `other` exception

#if SIM_EXC
inline void check_id(std::uint64_t id)
{
    if (id < ctx.first_id || id > ctx.last_id || ctx.injected == 0)
    {
        violation("exc", "an exception that does not belong to this operation arrived");
    }
}
#endif

/// Performs one API call with faults enabled, and classifies how it ended.
template <typename F>
Res call(F&& f)
{
    Res r       = Res::ok;
    ctx.enabled = true;
#if SIM_EXC
    try
    {
        f();
    } catch (const Injected& e)
    {
        ctx.enabled = false;
        check_id(e.id);
        r = Res::injected;
    } catch (const InjectedStd<std::bad_alloc>& e)
    {
        ctx.enabled = false;
        check_id(e.id);
        r = Res::injected;
    } catch (const InjectedStd<std::length_error>& e)
    {
        ctx.enabled = false;
        check_id(e.id);
        r = Res::injected;
    } catch (const InjectedStd<std::runtime_error>& e)
    {
        ctx.enabled = false;
        check_id(e.id);
        r = Res::injected;
    } catch (const SimBadAlloc& e)
    {
        ctx.enabled = false;
        check_id(e.id);
        r = Res::bad_alloc;
    } catch (const std::length_error&)
    {
        r = Res::length;
    } catch (const std::bad_alloc&)
    {
        r = ctx.null_fails && ctx.injected_mem > 0 ? Res::bad_alloc : Res::std_bad_alloc;
    } catch (const std::exception& e)
    {
        r          = Res::other;
        last_other = e.what();
    } catch (...)
    {
        r          = Res::other;
        last_other = "unknown exception type";
    }
#else
    f();
#endif
    ctx.enabled = false;
    ctx.sticky  = false;
    trace("    -> %s", r == Res::ok ? "ok" : r == Res::injected ? "injected exception" : r == Res::bad_alloc ? "bad_alloc (injected)" : r == Res::length ? "length_error" : r == Res::std_bad_alloc ? "bad_alloc" : last_other.c_str());
    ev(0x100 + static_cast<unsigned>(r));
    return r;
}

// ---------------------------------------------------------------------------------------------------------- memory
enum class ReallocMode : int
{
    refuse    = 0,
    in_place  = 1,  // succeeds only when shrinking (same address)
    moving    = 2,  // always succeeds, new address
    mixed     = 3,  // shrink in place, grow by moving
    elastic   = 4   // blocks have slack behind them: shrinks and grows at the same address, else refuses
};

/// One simulated memory source with a ledger of live blocks.
class Mem final
{
public:
    explicit Mem(int id);
    ~Mem();
    Mem(const Mem&)            = delete;
    Mem& operator=(const Mem&) = delete;

    /// Returns null on failure (fault, quota).
    void* allocate(std::size_t size, std::size_t align);
    void  deallocate(void* p, std::size_t size, std::size_t align);
    /// Returns null when refused; the old block is untouched then.
    void* reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t align);

    bool        owns(const void* p, std::size_t size) const;  // [p,p+size) inside one live block
    std::size_t live_blocks() const
    {
        return blocks_.size();
    }
    std::size_t live_bytes() const
    {
        return bytes_;
    }
    std::uint64_t allocs() const
    {
        return allocs_;
    }
    void check_empty(const char* where) const;
    struct Blk
    {
        std::size_t size;
        std::size_t align;
        void*       raw;
        std::size_t room;  // bytes usable behind the start of the block
    };
    const std::map<std::uintptr_t, Blk>& blocks() const
    {
        return blocks_;
    }

    int         id;
    std::size_t quota;      // max live bytes
    std::size_t max_size;   // what max_size() reports
    ReallocMode realloc_mode;
    const char* cls;        // violation class for ledger errors
    std::size_t coarse{0};  // if set, block addresses are the same modulo this in every run
    std::uint64_t requests{0};  // allocation and reallocation calls, failed ones too

private:
    void* take(std::size_t size, std::size_t align);
    void  release(std::map<std::uintptr_t, Blk>::iterator it);

    std::map<std::uintptr_t, Blk> blocks_;
    std::size_t                   bytes_;
    std::uint64_t                 allocs_;
};

// ---------------------------------------------------------------------------------------------------------- lifetime
/// Registry of live tracked objects.
class Life final
{
public:
    void ctor(const void* p, int tag);
    void dtor(const void* p, int tag);
    void use(const void* p, int tag, const char* what) const;
    bool alive(const void* p, int tag) const;
    void check_empty(const char* where) const;
    std::size_t count() const
    {
        return live_.size();
    }
    void reset()
    {
        live_.clear();
    }

private:
    std::unordered_map<std::uintptr_t, std::uint64_t> live_;
};
extern Life life;

constexpr std::int64_t kMoved = -7777;

/// Element type whose every special member is a fault point (if allowed by its flags).
enum : unsigned
{
    F_COPY      = 1U,   // copyable
    F_MOVE      = 4U,   // movable
    F_NTMC      = 2U,   // move construction cannot throw
    F_NTMA      = 16U,  // move assignment cannot throw
    F_NTCC      = 8U,   // copy construction cannot throw
    F_NTCA      = 32U,  // copy assignment cannot throw
    F_NTMOVE    = F_NTMC | F_NTMA,
    F_NTCOPY    = F_NTCC | F_NTCA
};

template <bool Enable>
struct CopyBase
{};
template <>
struct CopyBase<false>
{
    CopyBase()                           = default;
    CopyBase(const CopyBase&)            = delete;
    CopyBase& operator=(const CopyBase&) = delete;
    CopyBase(CopyBase&&)                 = default;
    CopyBase& operator=(CopyBase&&)      = default;
};

template <int Tag, unsigned Flags, std::size_t Pad = 0, std::size_t Align = alignof(void*)>
class alignas(Align) Tracked
{
public:
    static constexpr int         tag   = Tag;
    static constexpr unsigned    flags = Flags;
    static constexpr std::size_t pad   = Pad;

    Tracked()
        : value_(0)
    {
        user_point(K_CTOR);
        init();
    }
    explicit Tracked(std::int64_t v)
        : value_(v)
    {
        user_point(K_CTOR);
        init();
    }
    Tracked(std::int64_t v, std::int64_t w)
        : value_(v * 1000 + w)
    {
        user_point(K_CTOR);
        init();
    }
    Tracked(const Tracked& o) noexcept((Flags & F_NTCC) != 0)
        : value_(0)
    {
        o.check("copied from");
        if (!(Flags & F_NTCC))
        {
            user_point(K_COPY);
        }
        value_ = o.value_;
        init();
    }
    Tracked(Tracked&& o) noexcept((Flags & F_NTMC) != 0)
        : value_(0)
    {
        o.check("moved from");
        if (!(Flags & F_NTMC))
        {
            user_point(K_MOVE);
        }
        value_   = o.value_;
        o.value_ = kMoved;
        init();
    }
    Tracked& operator=(const Tracked& o) noexcept((Flags & F_NTCA) != 0)
    {
        check("assigned to");
        o.check("copy-assigned from");
        if (!(Flags & F_NTCA))
        {
            user_point(K_COPYASSIGN);
        }
        value_ = o.value_;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept((Flags & F_NTMA) != 0)
    {
        check("assigned to");
        o.check("move-assigned from");
        if (!(Flags & F_NTMA))
        {
            user_point(K_MOVEASSIGN);
        }
        if (this != &o)
        {
            value_   = o.value_;
            o.value_ = kMoved;
        }
        return *this;
    }
    ~Tracked()
    {
        check("destroyed");
        life.dtor(this, Tag);
        self_  = nullptr;
        value_ = -999999;
    }
    bool operator==(const Tracked& o) const
    {
        check("compared");
        o.check("compared");
        return value_ == o.value_;
    }
    std::int64_t value() const
    {
        check("read");
        return value_;
    }
    void set(std::int64_t v)
    {
        check("written");
        value_ = v;
    }
    void check(const char* what) const
    {
        life.use(this, Tag, what);
        if (self_ != this)
        {
            violation("lifetime", "object %s after its bytes were relocated without its constructor", what);
        }
        for (std::size_t i = 0; i < Pad; ++i)
        {
            if (pad_[i] != static_cast<unsigned char>(0x5A + i))
            {
                violation("memory", "object content overwritten by someone else");
            }
        }
    }

private:
    void init()
    {
        self_ = this;
        if ((reinterpret_cast<std::uintptr_t>(this) & (Align - 1)) != 0)
        {
            violation("memory", "object placed at a misaligned address");
        }
        for (std::size_t i = 0; i < Pad; ++i)
        {
            pad_[i] = static_cast<unsigned char>(0x5A + i);
        }
        life.ctor(this, Tag);
    }
    const Tracked* self_{nullptr};
    std::int64_t   value_;
    unsigned char  pad_[Pad ? Pad : 1]{};
};

/// An argument that is given away: whoever hands it on must not keep or copy it.
struct Given
{
    std::int64_t v;
    operator std::int64_t() &&
    {
        return v;
    }
    operator std::int64_t() const&
    {
        violation("transfer", "an argument given away was copied");
    }
};

/// An argument which the caller keeps.
struct Lent
{
    std::int64_t v;
    operator std::int64_t() const&
    {
        return v;
    }
    operator std::int64_t() &&
    {
        violation("transfer", "an argument that was only lent was given away");
    }
};

/// A move-only version (copy operations deleted, unless the code under test fails to compile with it).
template <int Tag, unsigned Flags>
class TrackedMO : public Tracked<Tag, Flags>
{
    using B = Tracked<Tag, Flags>;

public:
    TrackedMO() = default;
    explicit TrackedMO(std::int64_t v)
        : B(v)
    {
    }
#if SIM_LEAN
    TrackedMO(const TrackedMO&)            = default;
    TrackedMO& operator=(const TrackedMO&) = default;
#else
    TrackedMO(const TrackedMO&)            = delete;
    TrackedMO& operator=(const TrackedMO&) = delete;
#endif
    TrackedMO(TrackedMO&& o) noexcept((Flags & F_NTMC) != 0)
        : B(static_cast<B&&>(o))
    {
    }
    TrackedMO& operator=(TrackedMO&& o) noexcept((Flags & F_NTMA) != 0)
    {
        B::operator=(static_cast<B&&>(o));
        return *this;
    }
    bool operator==(const TrackedMO& o) const
    {
        return B::operator==(o);
    }
};

/// Building blocks of objects some of whose operations are trivial and others are not.
template <bool>
struct CtorPart
{};
template <>
struct CtorPart<true>
{
    CtorPart() = default;
    CtorPart(const CtorPart&)
    {
        user_point(K_COPY);
    }
    CtorPart(CtorPart&&)
    {
        user_point(K_MOVE);
    }
    CtorPart& operator=(const CtorPart&) = default;
    CtorPart& operator=(CtorPart&&)      = default;
};
template <bool>
struct AssignPart
{};
template <>
struct AssignPart<true>
{
    AssignPart()                  = default;
    AssignPart(const AssignPart&) = default;
    AssignPart(AssignPart&&)      = default;
    AssignPart& operator=(const AssignPart&)
    {
        user_point(K_COPYASSIGN);
        return *this;
    }
    AssignPart& operator=(AssignPart&&)
    {
        user_point(K_MOVEASSIGN);
        return *this;
    }
};
template <bool, int Tag>
struct DtorPart
{};
template <int Tag>
struct DtorPart<true, Tag>
{
    DtorPart()
    {
        life.ctor(this, Tag);
    }
    DtorPart(const DtorPart& o)
    {
        life.use(&o, Tag, "copied from");
        life.ctor(this, Tag);
    }
    DtorPart& operator=(const DtorPart&) = default;
    ~DtorPart()
    {
        life.dtor(this, Tag);
    }
    char address{0};
};

// ---------------------------------------------------------------------------------------------------------- allocator
/// Stateful standard allocator over Mem with selectable propagation traits.
template <typename T, unsigned P>  // bit0 POCCA, bit1 POCMA, bit2 POCS, bit3: select() gives `alt`
class SimAlloc
{
public:
    using value_type                             = T;
    using size_type                              = std::size_t;
    using difference_type                        = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (P & 1U) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P & 2U) != 0>;
    using propagate_on_container_swap            = std::integral_constant<bool, (P & 4U) != 0>;
    using is_always_equal                        = std::false_type;
    template <typename U>
    struct rebind
    {
        using other = SimAlloc<U, P>;
    };
    explicit SimAlloc(Mem* m, Mem* alt = nullptr) noexcept
        : mem_(m)
        , alt_(alt)
    {
    }
    template <typename U>
    SimAlloc(const SimAlloc<U, P>& o) noexcept
        : mem_(o.mem())
        , alt_(o.alt())
    {
    }
    T* allocate(std::size_t n)
    {
        void* p = mem_->allocate(n * sizeof(T), alignof(T));
#if SIM_EXC
        if (p == nullptr)
        {
            throw SimBadAlloc{ctx.last_id};
        }
#endif
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        mem_->deallocate(p, n * sizeof(T), alignof(T));
    }
    std::size_t max_size() const noexcept
    {
        return mem_->max_size / sizeof(T);
    }
    SimAlloc select_on_container_copy_construction() const noexcept
    {
        return ((P & 8U) && alt_) ? SimAlloc(alt_, alt_) : *this;
    }
    Mem* mem() const
    {
        return mem_;
    }
    Mem* alt() const
    {
        return alt_;
    }
    friend bool operator==(const SimAlloc& a, const SimAlloc& b) noexcept
    {
        return a.mem_ == b.mem_;
    }
    friend bool operator!=(const SimAlloc& a, const SimAlloc& b) noexcept
    {
        return a.mem_ != b.mem_;
    }

private:
    Mem* mem_;
    Mem* alt_;
};

}  // namespace sim

#endif
