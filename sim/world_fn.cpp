// World: several pmr::function objects on simulated memory resources.
#include "sim_pmr.hpp"
#include <cetl/pmr/function.hpp>
#include <type_traits>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;

enum Op : int
{
    NEW_EMPTY,
    NEW_TARGET,
    NEW_COPY,
    NEW_MOVE,
    DESTROY,
    ASSIGN_TARGET,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    ASSIGN_NULL,
    RESET,
    RESET_RES,
    SWAP,
    STD_SWAP,
    SELF,
    CALL,
    QUOTA,
    OP_COUNT
};

constexpr unsigned kSlots = 5;

/// What the targets report about their invocations.
struct Log
{
    std::uint64_t calls{0};
    std::int64_t  who{0};
    std::int64_t  arg{0};
    std::uint64_t copies{0};  // of targets
};
Log calls;

constexpr unsigned kFlags = sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE;

template <int Tag, std::size_t Pad>
struct Target : sim::Tracked<Tag, kFlags, Pad>
{
    using B = sim::Tracked<Tag, kFlags, Pad>;
    explicit Target(std::int64_t v)
        : B(v)
    {
    }
    Target(const Target& o)
        : B(o)
        , n_(o.n_)
    {
        ++calls.copies;
    }
    Target(Target&&) noexcept            = default;
    Target& operator=(const Target&)     = default;
    Target& operator=(Target&&) noexcept = default;
    ~Target()                            = default;
    std::int64_t operator()(std::int64_t a, std::int64_t& out)
    {
        const std::int64_t v = this->value();
        ++calls.calls;
        calls.who = v;
        calls.arg = a;
        ++n_;
        sim::user_point(sim::K_CALL);
        out = a * 2 + Tag;
        return v * 1000 + a + n_ * 1000000;
    }
    std::int64_t n_{0};  // mutable state of the target, travels with it
};

std::int64_t plain(std::int64_t a, std::int64_t& out)
{
    ++calls.calls;
    calls.who = -5;
    calls.arg = a;
    sim::user_point(sim::K_CALL);
    out = a * 2 + 9;
    return a + 77;
}

using T0 = Target<1, 0>;
using T1 = Target<2, 24>;
using T2 = Target<3, 120>;

template <typename T>
struct Tag
{
    using type = T;
};

template <std::size_t Footprint, bool P>
class W final
{
    using V = cetl::pmr::function<std::int64_t(std::int64_t, std::int64_t&), Footprint, std::conditional_t<P, Pmr, void>>;

    struct Slot
    {
        V*           v{nullptr};
        int          type{-1};  // -1 empty, 3 plain function
        std::int64_t val{0};
        std::int64_t n{0};
        int          res{0};
        bool         vbe_unknown{false};
    };

public:
    explicit W(const sim::Plan& p)
    {
        calls               = Log{};
        sim::ctx.null_fails = p.cfg[6] % 4 == 2;
        for (auto& r : res_)
        {
            r.fails_with_null = sim::ctx.null_fails;
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            setup_                 = 0;
            const std::uint64_t rq = requests();
            step(p.steps[i]);
            if (quiet_ && requests() != rq + setup_)
            {
                sim::frugal("an operation that has all the storage it needs asked for memory");
            }
            check_all();
            sim::end_step();
        }
        // every function still calls its own target
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            if (s.v != nullptr && s.type >= 0)
            {
                invoke(s, 3);
            }
        }
        for (auto& s : s_)
        {
            kill(s);
        }
        sim::life.check_empty("all functions destroyed");
        for (auto& m : mem_)
        {
            m.check_empty("all functions destroyed");
        }
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    void kill(Slot& s)
    {
        delete s.v;
        s = Slot{};
    }
    std::size_t blocks() const
    {
        return mem_[0].live_blocks() + mem_[1].live_blocks() + mem_[2].live_blocks();
    }
    std::uint64_t requests() const
    {
        return mem_[0].requests + mem_[1].requests + mem_[2].requests;
    }
    /// Whether a target of this type (-1: none) is to be held without memory from a resource; two words are left for bookkeeping.
    static bool fits(int type)
    {
        bool f = type < 0 || sizeof(&plain) + 2 * sizeof(void*) <= Footprint;
        if (type >= 0 && type < 3)
        {
            with_type(type, [&](auto tag) { f = sizeof(typename decltype(tag)::type) + 2 * sizeof(void*) <= Footprint; });
        }
        return f;
    }
    int res_of(const V& v) const
    {
        if constexpr (P)
        {
            return static_cast<sim::SimResource*>(v.get_memory_resource())->mem.id;
        }
        else
        {
            (void) v;
            return 0;
        }
    }
    bool faulted() const
    {
        return sim::ctx.injected > 0;
    }
    void explain(Res r)
    {
        switch (r)
        {
        case Res::ok:
            sim::outcome(0);
            break;
        case Res::injected:
        case Res::bad_alloc:
            sim::outcome(1);
            break;
        default:
            sim::violation("exc", "unexpected exception: %s", r == Res::std_bad_alloc ? "bad_alloc" : r == Res::length ? "length_error" : sim::last_other.c_str());
        }
#if SIM_EXC
        if (r == Res::ok && faulted())
        {
            bad("exc", "a failure inside the operation did not reach the caller");
        }
#endif
    }
    void check_slot(const Slot& s, const char* cls) const
    {
        const bool full = static_cast<bool>(*s.v);
        if (full != (s.type >= 0))
        {
            sim::violation(cls, "function says it is %s", full ? "not empty" : "empty");
        }
        if (full && s.v->valueless_by_exception())
        {
            bad(cls, "function with a target says it is valueless");
        }
        if (P && res_of(*s.v) != s.res)
        {
            bad("propagate", "function uses the wrong memory resource");
        }
    }
    void check_all() const
    {
        std::uint64_t h = 0;
        for (const auto& s : s_)
        {
            if (s.v != nullptr)
            {
                check_slot(s, "content");
                h = sim::mix(h, static_cast<std::uint64_t>((s.type + 2) * 16 + s.res) + (s.v->valueless_by_exception() ? 1000U : 0U));
            }
            else
            {
                h = sim::mix(h, 5);
            }
        }
        sim::state(h);
    }
    /// Calls the function of a slot that has a target, and checks who was called, with what, how often.
    Res invoke(Slot& s, std::int64_t a)
    {
        const std::uint64_t before = calls.calls;
        std::int64_t        out    = -1;
        std::int64_t        ret    = -1;
        const V&            f      = *s.v;
        const Res           r      = sim::call([&] { ret = f(a, out); });
        if (calls.calls != before + 1)
        {
            sim::violation("content", "target called %llu times", static_cast<unsigned long long>(calls.calls - before));
        }
        ++s.n;
        const std::int64_t who = s.type == 3 ? -5 : s.val;
        if (calls.who != who || calls.arg != a)
        {
            bad("content", "another target was called, or with other arguments");
        }
        if (r == Res::ok)
        {
            const std::int64_t want = s.type == 3 ? a + 77 : s.val * 1000 + a + s.n * 1000000;
            if (ret != want)
            {
                bad("content", "call returned a wrong result");
            }
            if (out != a * 2 + (s.type == 3 ? 9 : s.type + 1))
            {
                bad("content", "reference argument did not arrive");
            }
        }
        return r;
    }
    template <typename Fn>
    static void with_type(int k, Fn f)
    {
        switch (k)
        {
        case 0:
            f(Tag<T0>{});
            break;
        case 1:
            f(Tag<T1>{});
            break;
        default:
            f(Tag<T2>{});
            break;
        }
    }
    template <typename... A>
    static V* make(sim::SimResource& r, A&&... a)
    {
        if constexpr (P)
        {
            return new V(&r, std::forward<A>(a)...);
        }
        else
        {
            (void) r;
            return new V(std::forward<A>(a)...);
        }
    }
    void revive(Slot& s, std::int64_t salt)
    {
        if (s.v != nullptr && (s.type >= 0 || salt % 3 != 0))
        {
            return;
        }
        const std::uint64_t rq = requests();
        std::size_t         q[3];
        for (int i = 0; i < 3; ++i)
        {
            q[i]          = mem_[i].quota;
            mem_[i].quota = ~std::size_t{0};
        }
        if (s.v == nullptr)
        {
            s     = Slot{};
            s.res = P ? static_cast<int>(salt / 3 % 3) : 0;
            s.v   = make(res_[s.res]);
        }
        if (salt % 4 != 0)
        {
            s.type = static_cast<int>(salt / 16 % 4);
            s.val  = 1 + salt % 97;
            s.n    = 0;
            if (s.type == 3)
            {
                *s.v = &plain;
            }
            else
            {
                with_type(s.type, [&](auto t) { *s.v = typename decltype(t)::type(s.val); });
            }
        }
        for (int i = 0; i < 3; ++i)
        {
            mem_[i].quota = q[i];
        }
        setup_ += requests() - rq;
    }
    void built(Slot& s, V* v, Res r, std::size_t before, const Slot& want)
    {
        explain(r);
        if (v == nullptr)
        {
            if (blocks() != before)
            {
                bad("memory", "failed construction leaked memory");
            }
            return;
        }
        s   = want;
        s.v = v;
        if (want.type >= 0 && !static_cast<bool>(*v))
        {
            if (!faulted())
            {
                bad("noexc", "constructed function is empty although nothing failed");
            }
            if (!v->valueless_by_exception())
            {
                bad("noexc", "failed construction is not reported by valueless_by_exception()");
            }
            sim::outcome(1);
            s.type = -1;
        }
        check_slot(s, "content");
    }
    /// After an interrupted operation: its old target, optionally another one, or empty. Which one is found by asking and calling.
    void resync(Slot& s, const Slot& a, const Slot* b)
    {
        const bool full = static_cast<bool>(*s.v);
        if (!full)
        {
            s.type = -1;
            s.n    = 0;
            s.val  = 0;
        }
        else
        {
            const std::uint64_t before = calls.calls;
            std::int64_t        out    = 0;
            (void) (*s.v)(5, out);
            if (calls.calls != before + 1)
            {
                bad("content", "target not called exactly once");
            }
            const Slot* m = nullptr;
            for (const Slot* c : {&a, b})
            {
                if (c != nullptr && c->type >= 0 && calls.who == (c->type == 3 ? -5 : c->val))
                {
                    m = c;
                }
            }
            if (m == nullptr)
            {
                bad("atomic", "interrupted operation left a foreign target");
            }
            s.type = m->type;
            s.val  = m->val;
            s.n    = m->n + 1;
        }
        const int r = res_of(*s.v);
        if (P && r != a.res && !(b != nullptr && r == b->res))
        {
            bad("propagate", "interrupted operation left a foreign memory resource");
        }
        s.res = r;
    }

    void step(const sim::Step& st)
    {
        const std::size_t si = static_cast<std::size_t>(st.a[0]) % kSlots;
        std::size_t       oi = static_cast<std::size_t>(st.a[2]) % kSlots;
        if (oi == si)
        {
            oi = (oi + 1) % kSlots;
        }
        Slot&              s  = s_[si];
        Slot&              o  = s_[oi];
        const int          k  = static_cast<int>(st.a[1] % 4);
        const std::int64_t x  = ++serial_;  // targets are distinguishable
        const int          ri = P ? static_cast<int>(st.a[3] / 7 % 3) : 0;
        sim::trace("  slot %zu other %zu target type %d id %lld resource %d", si, oi, k, static_cast<long long>(x), ri);
        if (st.op > DESTROY && st.op != QUOTA)
        {
            revive(s, st.a[1] + st.a[3]);
        }
        if (st.op == NEW_COPY || st.op == NEW_MOVE || st.op == COPY_ASSIGN || st.op == MOVE_ASSIGN || st.op == SWAP || st.op == STD_SWAP)
        {
            revive(o, st.a[1] + 2 * st.a[3]);
        }
        switch (st.op)
        {
        case NEW_TARGET:
        case ASSIGN_TARGET:
            quiet_ = fits(k);
            break;
        case NEW_COPY:
        case COPY_ASSIGN:
            quiet_ = fits(o.type);
            break;
        case SELF:
            quiet_ = fits(s.type);
            break;
        default:
            quiet_ = true;
            break;
        }
        if (quiet_ && P && Footprint > 0 && st.op == ASSIGN_TARGET)
        {
            sim::probe("fits_in_place");
        }
        switch (st.op)
        {
        case NEW_EMPTY:
        {
            kill(s);
            V*                v = nullptr;
            const std::size_t b = blocks();
            Res               r = sim::call([&] { v = make(res_[ri]); });
            Slot              w;
            w.res = ri;
            built(s, v, r, b, w);
            return;
        }
        case NEW_TARGET:
        {
            kill(s);
            V*                v = nullptr;
            const std::size_t b = blocks();
            Slot              w;
            w.res  = ri;
            w.type = k;
            w.val  = x;
            Res r{};
            if (k == 3)
            {
                r = sim::call([&] { v = make(res_[ri], &plain); });
            }
            else
            {
                with_type(k, [&](auto tag) {
                    using T = typename decltype(tag)::type;
                    T        t(x);
                    const T& ct = t;
                    calls.copies = 0;
                    r            = (st.a[2] & 8) != 0 ? sim::call([&] { v = make(res_[ri], std::move(t)); }) : sim::call([&] { v = make(res_[ri], ct); });
                    given((st.a[2] & 8) != 0, t.value(), x);
                });
            }
            built(s, v, r, b, w);
            return;
        }
        case NEW_COPY:
        {
            kill(s);
            V*                v   = nullptr;
            const std::size_t b   = blocks();
            const V&          src = *o.v;
            Res               r   = sim::call([&] { v = new V(src); });
            check_slot(o, "transfer");
            built(s, v, r, b, o);
            return;
        }
        case NEW_MOVE:
        {
            kill(s);
            V*                v    = nullptr;
            const std::size_t b    = blocks();
            const Slot        want = o;
            Res               r    = sim::call([&] { v = new V(std::move(*o.v)); });
            moved_from(o);
            built(s, v, r, b, want);
            return;
        }
        case DESTROY:
            kill(s);
            sim::outcome(0);
            return;
        case ASSIGN_TARGET:
        {
            const Slot was = s;
            Res        r{};
            if (k == 3)
            {
                r = sim::call([&] { *s.v = &plain; });
            }
            else
            {
                with_type(k, [&](auto tag) {
                    using T = typename decltype(tag)::type;
                    T        t(x);
                    const T& ct = t;
                    calls.copies = 0;
                    r            = (st.a[2] & 8) != 0 ? sim::call([&] { *s.v = std::move(t); }) : sim::call([&] { *s.v = ct; });
                    given((st.a[2] & 8) != 0, t.value(), x);
                });
            }
            explain(r);
            if (r != Res::ok || faulted())
            {
                sim::outcome(1);
                resync(s, was, nullptr);
                return;
            }
            s.type = k;
            s.val  = x;
            s.n    = 0;
            check_slot(s, "content");
            return;
        }
        case COPY_ASSIGN:
        {
            const Slot was = s;
            const V&   src = *o.v;
            if (src.valueless_by_exception())
            {
                sim::probe("assigned_from_a_valueless_function");
            }
            Res r = sim::call([&] { *s.v = src; });
            explain(r);
            check_slot(o, "transfer");
            if (r != Res::ok || faulted())
            {
                sim::outcome(1);
                Slot alt = was;
                alt.res  = o.res;
                resync(s, was, &alt);
                return;
            }
            take(s, o);
            check_slot(s, "transfer");
            return;
        }
        case MOVE_ASSIGN:
        {
            Res r = sim::call([&] { *s.v = std::move(*o.v); });
            explain(r);
            take(s, o);
            moved_from(o);
            check_slot(s, "transfer");
            return;
        }
        case ASSIGN_NULL:
        case RESET:
        case RESET_RES:
        {
            Res r{};
            if (st.op == RESET)
            {
                r = sim::call([&] { s.v->reset(); });
            }
            else if (st.op == ASSIGN_NULL)
            {
                r = sim::call([&] { *s.v = nullptr; });
            }
            else if constexpr (P)
            {
                r     = sim::call([&] { s.v->reset(&res_[ri]); });
                s.res = ri;
            }
            explain(r);
            if (st.op == RESET_RES && !P)
            {
                return;
            }
            s.type = -1;
            check_slot(s, "content");
            if (s.v->valueless_by_exception())
            {
                bad("content", "reset function says it is valueless");
            }
            return;
        }
        case SWAP:
        case STD_SWAP:
        {
            const Slot ws = s;
            Res        r  = st.op == SWAP ? sim::call([&] { s.v->swap(*o.v); }) : sim::call([&] { std::swap(*s.v, *o.v); });
            explain(r);
            take(s, o);
            take(o, ws);
            check_slot(s, "transfer");
            check_slot(o, "transfer");
            if (s.type >= 0)
            {
                invoke(s, 1 + st.a[3] % 50);
            }
            return;
        }
        case SELF:
        {
            V&  alias = *s.v;
            Res r     = (st.a[2] % 3) == 0   ? sim::call([&] { *s.v = static_cast<const V&>(alias); })
                        : (st.a[2] % 3) == 1 ? sim::call([&] { *s.v = std::move(alias); })
                                             : sim::call([&] { s.v->swap(alias); });
            explain(r);
            check_slot(s, "transfer");
            return;
        }
        case CALL:
            if (s.type >= 0)
            {
                explain(invoke(s, 1 + st.a[3] % 1000));
                return;
            }
#if SIM_EXC
            {
                bool         thrown = false;
                std::int64_t out    = 0;
                try
                {
                    (void) (*s.v)(1, out);
                } catch (const std::bad_function_call&)
                {
                    thrown = true;
                }
                if (!thrown)
                {
                    bad("content", "calling an empty function did not report a bad call");
                }
                sim::outcome(0);
            }
#endif
            return;
        case QUOTA:
        {
            auto& m = mem_[st.a[1] % 3];
            m.quota = (st.a[3] % 2) != 0 ? ~std::size_t{0} : m.live_bytes() + static_cast<std::size_t>(st.a[2]) % 200;
            sim::outcome(0);
            return;
        }
        default:
            return;
        }
    }
    /// A target given as rvalue is moved in, one given as lvalue stays as it is.
    static void given(bool rvalue, std::int64_t now, std::int64_t was)
    {
        if (rvalue && calls.copies != 0)
        {
            bad("transfer", "a target given as rvalue was copied");
        }
        if (!rvalue && now != was)
        {
            bad("transfer", "a target given as lvalue was changed");
        }
    }
    static void take(Slot& d, const Slot& f)
    {
        V* const v = d.v;
        d          = f;
        d.v        = v;
    }
    /// A moved-from function is in a valid state; this implementation is not required to leave it empty.
    void moved_from(Slot& o)
    {
        if (static_cast<bool>(*o.v))
        {
            o.v->reset();
        }
        o.type = -1;
        o.n    = 0;
        check_slot(o, "transfer");
    }

    Mem              mem_[3]{Mem{0}, Mem{1}, Mem{2}};
    sim::SimResource res_[3]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}, sim::SimResource{mem_[2]}};
    Slot             s_[kSlots];
    std::int64_t     serial_{100};
    std::uint64_t    setup_{0};     // requests made while preparing a step
    bool             quiet_{true};  // this step must not ask for memory
};

template <std::size_t Footprint, bool P>
void exec(const sim::Plan& p)
{
    W<Footprint, P> w(p);
    w.run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "fn",
        {{"new_empty", 2},  {"new_target", 8},   {"new_copy", 6},  {"new_move", 6},  {"destroy", 2},
         {"assign_target", 12}, {"copy_assign", 9}, {"move_assign", 9}, {"assign_null", 2}, {"reset", 2},
         {"reset_resource", 3}, {"swap", 8},     {"std_swap", 3},  {"self", 2},      {"call", 12}, {"quota", 2}},
        {{"inplace", &exec<256, false>, 2}, {"pmr", &exec<0, true>, 3}, {"both", &exec<64, true>, 4}},
        4,
        40,
        nullptr,
        true,
        false,
        "pmr::function, unbounded_variant, rtti, memory_resource base",
        "memory resources, call targets",
    };
    return w;
}
