// World: several variable-length arrays on two (three) simulated memory sources.
#ifndef WORLD_VLA_HPP
#define WORLD_VLA_HPP

#include "sim_pmr.hpp"
#include <algorithm>
#include <cetl/variable_length_array.hpp>
#include <type_traits>

namespace vla
{
using sim::Mem;
using sim::Res;

enum Op : int
{
    NEW_DEFAULT,
    NEW_MAX,
    NEW_ILIST,
    NEW_RANGE,
    NEW_COPY,
    NEW_COPY_ALLOC,
    NEW_MOVE,
    NEW_MOVE_ALLOC,
    DESTROY,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    PUSH_COPY,
    PUSH_MOVE,
    EMPLACE,
    POP,
    RESIZE,
    RESIZE_VALUE,
    ASSIGN,
    RESERVE,
    SHRINK,
    CLEAR,
    WRITE,
    COMPARE,
    AT_ACCESS,
    QUOTA,
    PUSH_MANY,
    SELF_ASSIGN,
    PUSH_ALIAS,
    RESIZE_ALIAS,
    OP_COUNT
};
extern const std::vector<sim::OpDesc> ops;

constexpr unsigned kSlots = 4;
using Val                 = std::int64_t;
using Seq                 = std::vector<Val>;

// ---- element helpers
inline Val get(const std::int32_t& x)
{
    return x;
}
template <int T, unsigned F, std::size_t P, std::size_t A>
Val get(const sim::Tracked<T, F, P, A>& x)
{
    return x.value();
}
template <typename T>
T make(Val v)
{
    return T(static_cast<std::conditional_t<std::is_arithmetic<T>::value, T, Val>>(v));
}
inline void put(std::int32_t& x, Val v)
{
    x = static_cast<std::int32_t>(v);
}
template <int T, unsigned F, std::size_t P, std::size_t A>
void put(sim::Tracked<T, F, P, A>& x, Val v)
{
    x.set(v);
}

// ---- allocator helpers
template <typename A>
struct AT;
template <typename T, unsigned P>
struct AT<sim::SimAlloc<T, P>>
{
    using A                     = sim::SimAlloc<T, P>;
    static constexpr bool pocca = (P & 1U) != 0;
    static constexpr bool pocma = (P & 2U) != 0;
    static constexpr bool sel   = (P & 8U) != 0;
    static A              make(Mem* m, sim::SimResource*, Mem* alt)
    {
        return A(m, alt);
    }
    static int mem_id(const A& a)
    {
        return a.mem()->id;
    }
};
template <typename T>
struct AT<cetl::pf17::pmr::polymorphic_allocator<T>>
{
    using A                     = cetl::pf17::pmr::polymorphic_allocator<T>;
    static constexpr bool pocca = false;
    static constexpr bool pocma = false;
    static constexpr bool sel   = false;
    static A              make(Mem*, sim::SimResource* r, Mem*)
    {
        return A(r);
    }
    static int mem_id(const A& a)
    {
        return static_cast<sim::SimResource*>(a.resource())->mem.id;
    }
};

template <typename T, typename A>
class W final
{
    using V                        = cetl::VariableLengthArray<T, A>;
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    static constexpr bool ntmove   = std::is_nothrow_move_constructible<T>::value;
    static constexpr bool strong   = copyable || ntmove;
    struct Slot
    {
        V*          v{nullptr};
        Seq         m;
        std::size_t mx{0};
        int         mem{0};
    };

public:
    explicit W(const sim::Plan& p)
        : scale_{p.cfg[6] % 24 == 7 ? 16U : 1U}
        , known_{p.cfg[7] == 7777777}
    {
        for (int i = 0; i < 2; ++i)
        {
            const auto c = p.cfg[static_cast<std::size_t>(i)];
            mem_[i].realloc_mode = static_cast<sim::ReallocMode>(c % 5);
            if (!std::is_trivially_copyable<T>::value && !known_ &&
                (mem_[i].realloc_mode == sim::ReallocMode::moving || mem_[i].realloc_mode == sim::ReallocMode::mixed))
            {
                // Relocating such elements by address is a known finding, replayed by a fixed plan that sets cfg[7].
                mem_[i].realloc_mode = sim::ReallocMode::elastic;
            }
            res_[i].realloc_throws = (c / 4) % 4 == 0;
            const auto l = p.cfg[static_cast<std::size_t>(i + 2)];
            if (l % 6 == 0)
            {
                mem_[i].max_size = (1 + amount(l / 6, 12)) * sizeof(T);
            }
        }
    }

    /// An amount taken from an argument. A few runs work with large arrays.
    std::size_t amount(std::int64_t a, std::size_t small) const
    {
        const auto u = static_cast<std::size_t>(a);
        if (scale_ == 1)
        {
            return u % small;
        }
        constexpr std::size_t edges[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
        const std::uint64_t   h       = sim::mix(small, u);
        const std::size_t     e       = edges[h / 8 % 12];
        return h % 4 == 0 && e < small * scale_ ? e : static_cast<std::size_t>(h / 128 % (small * scale_));
    }

    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            kill(s);
        }
        sim::life.check_empty("all arrays destroyed");
        for (auto& m : mem_)
        {
            m.check_empty("all arrays destroyed");
        }
    }

private:
    A alloc(int i)
    {
        return AT<A>::make(&mem_[i], &res_[i], &mem_[2]);
    }
    std::size_t alloc_max(int mem) const
    {
        const std::size_t diff = static_cast<std::size_t>(PTRDIFF_MAX) / sizeof(T);
        return std::min(diff, mem_[mem].max_size / sizeof(T));
    }
    std::size_t limit(const Slot& s) const
    {
        return std::min(s.mx, alloc_max(s.mem));
    }
    Val fresh()
    {
        return ++next_;
    }
    void kill(Slot& s)
    {
        delete s.v;
        s.v = nullptr;
        s.m.clear();
    }
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }

    // ---- observation
    void check_slot(const Slot& s, const char* cls) const
    {
        const V&          v = *s.v;
        const std::size_t n = s.m.size();
        if (v.size() != n)
        {
            sim::violation(cls, "array has %zu elements, expected %zu", v.size(), n);
        }
        if (v.empty() != (n == 0))
        {
            bad(cls, "empty() disagrees with size()");
        }
        if (v.capacity() < n)
        {
            bad("memory", "capacity is smaller than size");
        }
        if (v.size() > v.max_size())
        {
            sim::violation("bound", "array holds %zu elements but its maximum is %zu", v.size(), v.max_size());
        }
        if (v.max_size() != limit(s))
        {
            sim::violation("bound", "maximum size is %zu, expected %zu", v.max_size(), limit(s));
        }
        if (AT<A>::mem_id(v.get_allocator()) != s.mem)
        {
            sim::violation("propagate", "array uses allocator %d, expected %d", AT<A>::mem_id(v.get_allocator()), s.mem);
        }
        if (v.capacity() != 0 && !mem_[s.mem].owns(v.data(), v.capacity() * sizeof(T)))
        {
            bad("memory", "the array's storage is not wholly inside a block of its allocator");
        }
        V& nv = *s.v;
        if (static_cast<std::size_t>(v.end() - v.begin()) != n || static_cast<std::size_t>(nv.end() - nv.begin()) != n ||
            static_cast<std::size_t>(v.cend() - v.cbegin()) != n)
        {
            bad(cls, "iterator range length disagrees with size()");
        }
        std::size_t i = 0;
        for (const auto& e : v)
        {
            if (get(e) != s.m[i])
            {
                sim::violation(cls, "element %zu is %lld, expected %lld", i, static_cast<long long>(get(e)), static_cast<long long>(s.m[i]));
            }
            if (&e != &v[i] || &nv[i] != &e || v.data() + i != &e || nv.data() + i != &e)
            {
                bad(cls, "element access paths disagree");
            }
            ++i;
        }
        if (n > 0 && (&v.front() != &v[0] || &v.back() != &v[n - 1] || &nv.front() != &nv[0] || &nv.back() != &nv[n - 1]))
        {
            bad(cls, "front()/back() do not denote the first/last element");
        }
    }
    void check_all(const char* cls = "content")
    {
        std::uint64_t h = 0;
        for (auto& s : s_)
        {
            if (s.v != nullptr)
            {
                check_slot(s, cls);
                const std::size_t n = s.m.size();
                h = sim::mix(h, (n << 8) ^ (s.v->capacity() == n ? 1U : s.v->capacity() == 0 ? 2U : 3U) ^
                                    (n == limit(s) ? 8U : 0U) ^ (static_cast<unsigned>(s.mem) << 4));
            }
            else
            {
                h = sim::mix(h, 5);
            }
        }
        sim::state(h);
    }

    // ---- failure handling
    static bool contains(const Seq& a, Val v)
    {
        return std::find(a.begin(), a.end(), v) != a.end();
    }
    static bool is_prefix(const Seq& p, const Seq& of)
    {
        return p.size() <= of.size() && std::equal(p.begin(), p.end(), of.begin());
    }
    Seq read(const V& v) const
    {
        Seq r;
        for (const auto& e : v)
        {
            r.push_back(get(e));
        }
        return r;
    }
    /// After a failure with only the basic guarantee: any live elements made of the allowed values.
    void resync(Slot& s, Seq allowed, bool moved_ok, std::size_t other_mx, int other_mem, const char* cls = "content")
    {
        if (s.v->size() > s.v->capacity())
        {
            bad("memory", "size exceeds capacity after a failure");
        }
        const Seq now = read(*s.v);
        for (auto x : now)
        {
            if (!contains(allowed, x) && !(moved_ok && x == sim::kMoved))
            {
                sim::violation(cls, "after a failed operation an element has a value (%lld) that was never there", static_cast<long long>(x));
            }
        }
        s.m = now;
        if (other_mem >= 0 && AT<A>::mem_id(s.v->get_allocator()) == other_mem)
        {
            s.mem = other_mem;
        }
        if (s.v->max_size() != limit(s))
        {
            const std::size_t keep = s.mx;
            s.mx                   = other_mx;
            if (s.v->max_size() != limit(s))
            {
                s.mx = keep;
            }
        }
    }
    bool mem_fault() const
    {
        return sim::ctx.injected_mem > 0;
    }
    /// Whether the way a call ended is explained by what was injected.
    void explain(Res r, bool over_limit)
    {
        switch (r)
        {
        case Res::ok:
            if (sim::ctx.injected_elem > 0)
            {
                bad("exc", "an exception thrown by an element never reached the caller");
            }
            sim::outcome(0);
            break;
        case Res::injected:
        case Res::bad_alloc:
            sim::outcome(1);
            break;
        case Res::length:
            if (!over_limit)
            {
                bad("exc", "length error although the request is within the limits");
            }
            sim::outcome(2);
            break;
        default:
            sim::violation("exc", "unexpected exception: %s", r == Res::std_bad_alloc ? "bad_alloc" : sim::last_other.c_str());
        }
    }

    /// Requests for memory made so far.
    std::uint64_t requests() const
    {
        return mem_[0].requests + mem_[1].requests + mem_[2].requests;
    }
    /// An operation that has all the storage it needs must neither ask for memory nor move elements.
    struct Frugal
    {
        const W&      w;
        const V*      v;
        const T*      at;
        std::size_t   cap;
        std::uint64_t req;
        Frugal(const W& world, const V* array)
            : w(world)
            , v(array)
            , at(array != nullptr ? array->data() : nullptr)
            , cap(array != nullptr ? array->capacity() : 0)
            , req(world.requests())
        {
        }
        void check(const char* what) const
        {
            if (w.requests() != req)
            {
                sim::frugal("%s asked for memory although it has all it needs", what);
            }
            if (v != nullptr && (v->capacity() < cap || (cap != 0 && v->data() != at)))
            {
                sim::frugal("%s moved the elements or gave up storage", what);
            }
        }
    };

    /// Growing operations: strong guarantee + retry.
    template <typename F>
    void growing(Slot& s, F f, const Seq& want, bool over_limit, bool retry, std::size_t need = 0)
    {
        const Seq         old  = s.m;
        const std::size_t ocap = s.v->capacity();
        const Frugal      fr(*this, s.v);
        Res               r    = sim::call(f);
        if (std::max(need, want.size()) <= ocap && !over_limit)
        {
            fr.check("an operation within the capacity");
            sim::probe("within_capacity");
        }
        explain(r, over_limit);
#if !SIM_EXC
        const Seq now = read(*s.v);
        if (now == want && !over_limit)
        {
            s.m = want;
            return;
        }
        sim::outcome(over_limit ? 2 : 1);
        if (!over_limit && !mem_fault())
        {
            bad("noexc", "operation failed although memory was available");
        }
        // failed: old contents plus possibly some of the new ones
        if (!is_prefix(old, now) || now.size() > want.size())
        {
            bad("atomic", "contents damaged by a failed growth");
        }
        for (std::size_t i = old.size(); i < now.size(); ++i)
        {
            if (i >= want.size() || now[i] != want[i])
            {
                bad("content", "clamped growth produced wrong elements");
            }
        }
        if (now.size() > old.size() && want.size() == old.size() + 1)
        {
            bad("atomic", "append beyond the limit changed the array");
        }
        s.m = now;
        if (s.v->capacity() < ocap)
        {
            bad("atomic", "storage lost by a failed growth");
        }
        check_slot(s, "atomic");
        if (retry && !over_limit && mem_[s.mem].quota == ~std::size_t{0})
        {
            sim::ctx.fb           = sim::ctx.fe;
            sim::ctx.injected_mem = 0;
            sim::call(f);
            if (read(*s.v) != want)
            {
                bad("atomic", "retry after a transient failure did not succeed");
            }
            s.m = want;
            sim::probe("retry_ok");
        }
#else
        if (r == Res::ok)
        {
            if (over_limit)
            {
                bad("bound", "request beyond the maximum size was accepted");
            }
            s.m = want;
            return;
        }
        if (r == Res::injected && !strong)
        {
            if (s.v->size() != old.size())
            {
                bad("atomic", "size changed by a failed growth");
            }
            resync(s, old, true, s.mx, -1);
            return;
        }
        sim::probe("failed_growth");
        if (s.v->capacity() < ocap)
        {
            bad("atomic", "storage lost by a failed growth");
        }
        check_slot(s, "atomic");  // must be exactly as before
        if (retry && !over_limit && mem_[s.mem].quota == ~std::size_t{0})
        {
            sim::ctx.fb       = sim::ctx.fe;
            sim::ctx.injected = sim::ctx.injected_elem = sim::ctx.injected_mem = 0;
            Res r2 = sim::call(f);
            if (r2 != Res::ok && mem_[s.mem].max_size > 1000000 && !res_throws(s.mem))
            {
                bad("atomic", "retry after a transient failure did not succeed");
            }
            if (r2 == Res::ok)
            {
                s.m = want;
                check_slot(s, "atomic");
                sim::probe("retry_ok");
            }
        }
#endif
    }
    bool res_throws(int mem) const
    {
        return mem < 2 && res_[mem].realloc_throws;
    }

    // ---- construction
    template <typename F>
    void construct(Slot& s, F f, const Seq& want, std::size_t mx, int mem, Slot* src, bool move_src)
    {
        // `s` is empty here.
        Slot tmp;
        tmp.mx              = mx;
        tmp.mem             = mem;
        const bool over     = want.size() > limit(tmp) && src == nullptr;
        V*         made     = nullptr;
        const Seq  src_old  = src ? src->m : Seq{};
        Res        r        = sim::call([&] { made = f(); });
        explain(r, over);
        if (r == Res::ok)
        {
            s.v   = made;
            s.m   = want;
            s.mx  = mx;
            s.mem = mem;
#if !SIM_EXC
            const Seq now = read(*s.v);
            if (now != want)
            {
                if (!over && !mem_fault())
                {
                    bad("noexc", "construction incomplete although memory was available");
                }
                sim::outcome(over ? 2 : 1);
                if (!is_prefix(now, want))
                {
                    bad("content", "incomplete construction produced wrong elements");
                }
                s.m = now;
                if (move_src)
                {
                    const Seq sn = read(*src->v);
                    if (!sn.empty() && sn != src_old)
                    {
                        bad("transfer", "source of a failed move is damaged");
                    }
                    src->m = sn;
                }
                return;
            }
#endif
            if (over)
            {
                bad("bound", "construction beyond the maximum size was accepted");
            }
            if (move_src)
            {
                src->m.clear();
            }
            check_slot(s, src ? "transfer" : "content");
            if (src)
            {
                check_slot(*src, "transfer");
            }
            return;
        }
        if (src && !move_src)
        {
            check_slot(*src, "transfer");
        }
        if (move_src)
        {
            // construction failed: the source stays valid; elements may have been moved from
            resync(*src, src_old, true, src->mx, -1, "transfer");
        }
    }

    /// Gives an unused slot an array with a few elements, so that few operations have nothing to work on.
    void revive(Slot& s, std::int64_t salt)
    {
        if (s.v != nullptr)
        {
            return;
        }
        const auto q  = static_cast<std::size_t>(salt);
        s.mem         = static_cast<int>(q % 2);
        s.mx          = (q / 2) % 3 == 0 ? amount(salt / 6, 14) : ~std::size_t{0};
        s.v           = (q / 2) % 3 == 0 ? new V(s.mx, alloc(s.mem)) : new V(alloc(s.mem));
        const auto n  = std::min(limit(s), amount(salt / 84, 7));
        const auto kq = mem_[s.mem].quota;
        const auto kt = res_[s.mem].realloc_throws;
        mem_[s.mem].quota = ~std::size_t{0};
        res_[s.mem].realloc_throws = false;
        for (std::size_t i = 0; i < n; ++i)
        {
            const Val x = fresh();
            s.v->emplace_back(static_cast<std::conditional_t<std::is_arithmetic<T>::value, T, Val>>(x));
            s.m.push_back(x);
        }
        mem_[s.mem].quota = kq;
        res_[s.mem].realloc_throws = kt;
        check_slot(s, "content");
    }

    void step(const sim::Step& st)
    {
        std::size_t si = static_cast<std::size_t>(st.a[0]) % kSlots;
        std::size_t oi = static_cast<std::size_t>(st.a[1]) % kSlots;
        if (si == oi && st.op != COMPARE)
        {
            oi = (oi + 1) % kSlots;
        }
        Slot&     s = s_[si];
        Slot&     o = s_[oi];
        const int m = static_cast<int>(st.a[2] % 2);
        if (st.op > DESTROY && st.op != QUOTA)
        {
            revive(s, st.a[2] + st.a[3]);
        }
        if (st.op == NEW_COPY || st.op == NEW_COPY_ALLOC || st.op == NEW_MOVE || st.op == NEW_MOVE_ALLOC || st.op == COPY_ASSIGN ||
            st.op == MOVE_ASSIGN || st.op == COMPARE)
        {
            revive(o, st.a[2] + 7 * st.a[3]);
        }
        switch (st.op)
        {
        case NEW_DEFAULT:
        {
            kill(s);
            const Frugal fr(*this, nullptr);
            construct(s, [&] { return new V(alloc(m)); }, {}, ~std::size_t{0}, m, nullptr, false);
            fr.check("making an empty array");
            return;
        }
        case NEW_MAX:
        {
            kill(s);
            const auto mx = amount(st.a[1], 20);
            const Frugal fr(*this, nullptr);
            construct(s, [&] { return new V(mx, alloc(m)); }, {}, mx, m, nullptr, false);
            fr.check("making an empty array");
            return;
        }
        case NEW_ILIST:
        case NEW_RANGE:
        {
            if constexpr (copyable)
            {
                kill(s);
                const std::size_t n  = amount(st.a[1], 10);
                const bool        lim = (st.a[3] % 3) == 0;
                const std::size_t mx = lim ? amount(st.a[3] / 3, 12) : ~std::size_t{0};
                Seq               w;
                for (std::size_t i = 0; i < n; ++i)
                {
                    w.push_back(fresh());
                }
                if (st.op == NEW_RANGE)
                {
                    std::vector<T> src;
                    src.reserve(n);
                    for (auto x : w)
                    {
                        src.push_back(make<T>(x));
                    }
                    construct(
                        s,
                        [&] {
                            return lim ? new V(src.begin(), src.end(), mx, alloc(m)) : new V(src.begin(), src.end(), alloc(m));
                        },
                        w,
                        mx,
                        m,
                        nullptr,
                        false);
                }
                else
                {
                    w.resize(std::min<std::size_t>(w.size(), 3));
                    auto go = [&](std::initializer_list<T> il) {
                        construct(s, [&] { return lim ? new V(il, mx, alloc(m)) : new V(il, alloc(m)); }, w, mx, m, nullptr, false);
                    };
                    switch (w.size())
                    {
                    case 0:
                        go({});
                        break;
                    case 1:
                        go({make<T>(w[0])});
                        break;
                    case 2:
                        go({make<T>(w[0]), make<T>(w[1])});
                        break;
                    default:
                        go({make<T>(w[0]), make<T>(w[1]), make<T>(w[2])});
                        break;
                    }
                }
            }
            return;
        }
        case NEW_COPY:
        case NEW_COPY_ALLOC:
        {
            if constexpr (copyable)
            {
                if (&s == &o || o.v == nullptr)
                {
                    return;
                }
                kill(s);
                const V& src = *o.v;
                if (st.op == NEW_COPY)
                {
                    construct(s, [&] { return new V(src); }, o.m, o.mx, AT<A>::sel ? 2 : o.mem, &o, false);
                }
                else
                {
                    construct(s, [&] { return new V(src, alloc(m)); }, o.m, o.mx, m, &o, false);
                }
            }
            return;
        }
        case NEW_MOVE:
        case NEW_MOVE_ALLOC:
        {
            if (&s == &o || o.v == nullptr)
            {
                return;
            }
            kill(s);
            const Frugal   fr(*this, nullptr);
            const T* const at   = o.v->data();
            const bool     take = st.op == NEW_MOVE || o.mem == m;
            if (st.op == NEW_MOVE)
            {
                construct(s, [&] { return new V(std::move(*o.v)); }, o.m, o.mx, o.mem, &o, true);
            }
            else
            {
                construct(s, [&] { return new V(std::move(*o.v), alloc(m)); }, o.m, o.mx, m, &o, true);
            }
            if (take)
            {
                fr.check("moving between equal allocators");
                if (s.v == nullptr || (!s.m.empty() && s.v->data() != at))
                {
                    sim::frugal("moving between equal allocators did not take over the elements");
                }
            }
            return;
        }
        case DESTROY:
            if (s.v != nullptr)
            {
                kill(s);
                sim::outcome(0);
            }
            return;
        case COPY_ASSIGN:
        {
            if constexpr (copyable)
            {
                if (&s == &o || s.v == nullptr || o.v == nullptr)
                {
                    return;
                }
                const Seq old  = s.m;
                const V&  src  = *o.v;
                const int nmem = AT<A>::pocca ? o.mem : s.mem;
                const bool   fits = nmem == s.mem && src.size() <= s.v->capacity();
                const Frugal fr(*this, s.v);
                Res       r    = sim::call([&] { *s.v = src; });
                if (fits)
                {
                    fr.check("copying what fits");
                }
                // the bound of the source may exceed what the target's allocator can supply
                explain(r, o.m.size() > std::min(o.mx, alloc_max(nmem)));
                check_slot(o, "transfer");
#if !SIM_EXC
                const Seq now = read(*s.v);
                if (now != o.m || AT<A>::mem_id(s.v->get_allocator()) != nmem)
                {
                    if (!mem_fault())
                    {
                        bad("noexc", "assignment failed although memory was available");
                    }
                    sim::outcome(1);
                    if (now != old && !is_prefix(now, o.m))
                    {
                        bad("transfer", "failed assignment left wrong elements");
                    }
                    Seq al = old;
                    al.insert(al.end(), o.m.begin(), o.m.end());
                    resync(s, al, false, o.mx, o.mem);
                    return;
                }
#endif
                if (r == Res::ok)
                {
                    s.m   = o.m;
                    s.mx  = o.mx;
                    s.mem = nmem;
                    check_slot(s, "transfer");
                }
                else
                {
                    Seq al = old;
                    al.insert(al.end(), o.m.begin(), o.m.end());
                    resync(s, al, false, o.mx, nmem);
                    sim::probe("failed_copy_assign");
                }
            }
            return;
        }
        case MOVE_ASSIGN:
        {
            if (&s == &o || s.v == nullptr || o.v == nullptr)
            {
                return;
            }
            const Seq old  = s.m;
            const Seq oold = o.m;
            const int nmem = AT<A>::pocma ? o.mem : s.mem;
            if (s.mem != o.mem)
            {
                sim::probe("move_assign_unequal");
            }
            const Frugal   fr(*this, nullptr);
            const Frugal   keep(*this, s.v);
            const bool     fits = !AT<A>::pocma && s.mem != o.mem && o.v->size() <= s.v->capacity();
            const T* const at   = o.v->data();
            Res            r    = sim::call([&] { *s.v = std::move(*o.v); });
            if (fits)
            {
                keep.check("moving elements that fit");
            }
            if (AT<A>::pocma || s.mem == o.mem)
            {
                fr.check("moving between equal allocators");
                if (!oold.empty() && s.v->data() != at)
                {
                    sim::frugal("moving between equal allocators did not take over the elements");
                }
            }
            explain(r, o.m.size() > std::min(o.mx, alloc_max(nmem)));
#if !SIM_EXC
            const Seq now = read(*s.v);
            if (now != oold)
            {
                if (!mem_fault())
                {
                    bad("noexc", "move assignment failed although memory was available");
                }
                sim::outcome(1);
                if (now != old && !is_prefix(now, oold))
                {
                    bad("transfer", "failed move assignment left wrong elements");
                }
                const Seq on = read(*o.v);
                if (!on.empty() && on != oold)
                {
                    bad("transfer", "source of a failed move assignment is damaged");
                }
                Seq al = old;
                al.insert(al.end(), oold.begin(), oold.end());
                resync(s, al, false, o.mx, nmem);
                o.m = on;
                return;
            }
#endif
            if (r == Res::ok)
            {
                s.m   = oold;
                s.mx  = o.mx;
                s.mem = nmem;
                o.m.clear();
                check_slot(s, "transfer");
                check_slot(o, "transfer");
            }
            else
            {
                Seq al = old;
                al.insert(al.end(), oold.begin(), oold.end());
                resync(s, al, true, o.mx, nmem);
                resync(o, oold, true, o.mx, -1, "transfer");
                sim::probe("failed_move_assign");
            }
            return;
        }
        case PUSH_COPY:
        case PUSH_MOVE:
        case EMPLACE:
        {
            if (s.v == nullptr)
            {
                return;
            }
            const Val  x    = fresh();
            Seq        want = s.m;
            const bool over = s.m.size() >= limit(s);
            want.push_back(x);
            if (st.op == PUSH_COPY)
            {
                if constexpr (copyable)
                {
                    const T e = make<T>(x);
                    growing(s, [&] { s.v->push_back(e); }, want, over, (st.a[3] % 2) != 0);
                }
            }
            else if (st.op == PUSH_MOVE)
            {
                T e = make<T>(x);
                growing(
                    s, [&] { s.v->push_back(std::move(e)); }, want, over, (st.a[3] % 2) != 0 && std::is_arithmetic<T>::value);
            }
            else
            {
                growing(
                    s,
                    [&] {
                        if constexpr (std::is_arithmetic<T>::value)
                        {
                            s.v->emplace_back(static_cast<T>(x));
                        }
                        else if (x % 2 == 0)
                        {
                            sim::Lent lent{x};
                            s.v->emplace_back(lent);
                        }
                        else
                        {
                            s.v->emplace_back(sim::Given{x});
                        }
                    },
                    want,
                    over,
                    (st.a[3] % 2) != 0);
            }
            return;
        }
        case PUSH_ALIAS:
        case RESIZE_ALIAS:
        {
            if constexpr (copyable)
            {
                if (s.v == nullptr || s.m.empty())
                {
                    return;
                }
                const std::size_t i    = static_cast<std::size_t>(st.a[1]) % s.m.size();
                Seq               want = s.m;
                const std::size_t n    = st.op == PUSH_ALIAS ? 1 : 1 + static_cast<std::size_t>(st.a[2]) % 8;
                const bool        over = s.m.size() + n > limit(s);
                want.resize(want.size() + n, s.m[i]);
                sim::probe(s.v->capacity() < s.m.size() + n ? "alias_growth" : "alias_in_place");
                if (st.op == PUSH_ALIAS && known_)
                {
                    // A known finding, replayed by a fixed plan: growing invalidates the reference first.
                    growing(s, [&] { s.v->emplace_back(static_cast<const V&>(*s.v)[i]); }, want, over, false);
                }
                else if (st.op == PUSH_ALIAS)
                {
                    growing(s, [&] { s.v->push_back(static_cast<const V&>(*s.v)[i]); }, want, over, (st.a[3] % 2) != 0);
                }
                else
                {
                    growing(s, [&] { s.v->resize(want.size(), (*s.v)[i]); }, want, over, (st.a[3] % 2) != 0);
                }
            }
            return;
        }
        case PUSH_MANY:
        {
            if (s.v == nullptr)
            {
                return;
            }
            const std::size_t n = 2 + amount(st.a[1], 24) / (scale_ > 1 ? 4 : 1);
            for (std::size_t i = 0; i < n; ++i)
            {
                const Val  x    = fresh();
                Seq        want = s.m;
                const bool over = s.m.size() >= limit(s);
                want.push_back(x);
                const std::size_t before = s.m.size();
                growing(
                    s,
                    [&] { s.v->emplace_back(static_cast<std::conditional_t<std::is_arithmetic<T>::value, T, Val>>(x)); },
                    want,
                    over,
                    false);
                if (s.m.size() == before)
                {
                    break;
                }
            }
            return;
        }
        case POP:
            if (s.v != nullptr)
            {
                const Frugal fr(*this, s.v);
                sim::call([&] { s.v->pop_back(); });
                fr.check("removing the last element");
                if (!s.m.empty())
                {
                    s.m.pop_back();
                    sim::outcome(0);
                }
            }
            return;
        case RESIZE:
        case RESIZE_VALUE:
        {
            if (s.v == nullptr)
            {
                return;
            }
            if constexpr (!copyable)
            {
                if (st.op == RESIZE_VALUE)
                {
                    return;
                }
            }
            std::size_t n = amount(st.a[1], 34);
            if (st.a[2] % 3 == 0 && limit(s) < 40 * scale_)
            {
                n = limit(s) + static_cast<std::size_t>(st.a[1]) % 3;
            }
            const Val   x    = st.op == RESIZE ? 0 : fresh();
            Seq         want = s.m;
            want.resize(n, x);
            const bool over = n > limit(s);
            if (st.op == RESIZE)
            {
                growing(s, [&] { s.v->resize(n); }, want, over, (st.a[3] % 2) != 0);
            }
            else
            {
                if constexpr (copyable)
                {
                    const T e = make<T>(x);
                    growing(s, [&] { s.v->resize(n, e); }, want, over, (st.a[3] % 2) != 0);
                }
            }
            return;
        }
        case ASSIGN:
        {
            if constexpr (copyable)
            {
                if (s.v == nullptr)
                {
                    return;
                }
                const std::size_t n = amount(st.a[1], 24);
                const Val         x = fresh();
                const T           e = make<T>(x);
                const Seq         old  = s.m;
                const Seq         want(n, x);
                const bool        over = n > limit(s);
                const Frugal      fr(*this, s.v);
                Res               r    = sim::call([&] { s.v->assign(n, e); });
                if (n <= fr.cap && !over)
                {
                    fr.check("assigning within the capacity");
                }
                explain(r, over);
#if !SIM_EXC
                const Seq now = read(*s.v);
                if (now != want || over)
                {
                    if (!over && !mem_fault())
                    {
                        bad("noexc", "assign failed although memory was available");
                    }
                    sim::outcome(over ? 2 : 1);
                    if (now.size() > n || now.size() < std::min(old.size(), n))
                    {
                        bad("content", "failed assign left a wrong size");
                    }
                    Seq al = old;
                    al.push_back(x);
                    resync(s, al, false, s.mx, -1);
                    return;
                }
#endif
                if (r == Res::ok)
                {
                    if (over)
                    {
                        bad("bound", "assign beyond the maximum size was accepted");
                    }
                    s.m = want;
                }
                else if (r == Res::length || r == Res::bad_alloc)
                {
                    check_slot(s, "atomic");
                }
                else
                {
                    if (s.v->size() != old.size() && s.v->size() != n)
                    {
                        bad("content", "failed assign left a size that is neither the old nor the new one");
                    }
                    Seq al = old;
                    al.push_back(x);
                    resync(s, al, false, s.mx, -1);
                }
            }
            return;
        }
        case RESERVE:
        {
            if (s.v == nullptr)
            {
                return;
            }
            std::size_t n = amount(st.a[1], 40);
            if (st.a[2] % 4 == 0 && limit(s) < 40 * scale_)
            {
                n = limit(s) + static_cast<std::size_t>(st.a[1]) % 3;
            }
            const bool over = n > limit(s) && n > s.v->capacity();
            growing(s, [&] { s.v->reserve(n); }, s.m, over, (st.a[3] % 2) != 0, n);
#if SIM_EXC
            (void) 0;
#endif
            if (!over && !mem_fault() && sim::ctx.injected == 0 && s.v->capacity() < n)
            {
                bad("content", "reserve did not provide the requested capacity");
            }
            return;
        }
        case SHRINK:
        {
            if (s.v == nullptr)
            {
                return;
            }
            const Seq         old  = s.m;
            const std::size_t ocap = s.v->capacity();
            Res               r    = sim::call([&] { s.v->shrink_to_fit(); });
            // An exception that says that there is no memory means that nothing is shrunk, wherever it comes from.
            const bool no_memory = mem_fault() || (sim::ctx.injected_elem > 0 && sim::ctx.shape == sim::shape_bad_alloc);
            if (r == Res::bad_alloc || r == Res::length)
            {
                bad("atomic", "shrinking let an allocation failure escape");
            }
            if (r == Res::ok && no_memory)
            {
                sim::outcome(1);
            }
            else
            {
                explain(r, false);
            }
            if (s.v->capacity() > ocap)
            {
                sim::frugal("shrinking made the storage larger");
            }
            if (r == Res::ok && !no_memory && s.v->capacity() != s.m.size())
            {
                sim::frugal("shrinking kept more storage than the elements need");
            }
            if (no_memory)
            {
                sim::probe("shrink_alloc_failed");
            }
            if (r != Res::bad_alloc && sim::ctx.injected_elem > 0 && !strong)
            {
                if (s.v->size() != old.size())
                {
                    bad("atomic", "size changed by a failed shrink");
                }
                resync(s, old, true, s.mx, -1);
                return;
            }
            check_slot(s, r == Res::ok && !no_memory ? "content" : "atomic");
            return;
        }
        case CLEAR:
            if (s.v != nullptr)
            {
                const Frugal fr(*this, s.v);
                sim::call([&] { s.v->clear(); });
                fr.check("clearing");
                s.m.clear();
                sim::outcome(0);
            }
            return;
        case WRITE:
            if (s.v != nullptr && !s.m.empty())
            {
                const std::size_t i = static_cast<std::size_t>(st.a[1]) % s.m.size();
                const Val         x = fresh();
                put((*s.v)[i], x);
                s.m[i] = x;
                sim::outcome(0);
            }
            return;
        case COMPARE:
            if (s.v != nullptr && o.v != nullptr)
            {
                const bool e = s.m == o.m;
                if ((*s.v == *o.v) != e || (*s.v != *o.v) == e)
                {
                    bad("content", "comparison of two arrays is wrong");
                }
                sim::outcome(0);
                sim::probe(e ? "compare_equal" : "compare_unequal");
            }
            return;
        case AT_ACCESS:
#if SIM_EXC
            if (s.v != nullptr)
            {
                const std::size_t i = static_cast<std::size_t>(st.a[1]) % (s.m.size() + 3);
                bool              oor = false;
                try
                {
                    if ((st.a[2] % 2) != 0)
                    {
                        if (get(s.v->at(i)) != s.m[i])
                        {
                            bad("content", "at() returned a wrong element");
                        }
                    }
                    else if (get(static_cast<const V&>(*s.v).at(i)) != s.m[i])
                    {
                        bad("content", "at() returned a wrong element");
                    }
                } catch (const std::out_of_range&)
                {
                    oor = true;
                }
                if (oor != (i >= s.m.size()))
                {
                    bad("content", "checked access misjudged its argument");
                }
                sim::outcome(0);
            }
#endif
            return;
        case QUOTA:
            if ((st.a[3] % 2) != 0)
            {
                mem_[m].quota = ~std::size_t{0};
            }
            else
            {
                mem_[m].quota = mem_[m].live_bytes() + amount(st.a[1], 24) * sizeof(T);
            }
            sim::outcome(0);
            return;
        case SELF_ASSIGN:
            if (s.v != nullptr)
            {
                V& alias = *s.v;
                Res r = Res::ok;
                if ((st.a[1] & 1) != 0)
                {
                    r = sim::call([&] { *s.v = std::move(alias); });
                }
                else if constexpr (copyable)
                {
                    r = sim::call([&] { *s.v = alias; });
                }
                explain(r, false);
                check_slot(s, "transfer");
            }
            return;
        default:
            return;
        }
    }

    Mem              mem_[3]{Mem{0}, Mem{1}, Mem{2}};
    sim::SimResource res_[3]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}, sim::SimResource{mem_[2]}};
    Slot             s_[kSlots];
    Val              next_{100};
    std::size_t      scale_;
    bool             known_;
};

template <typename T, typename A>
void exec(const sim::Plan& p)
{
    W<T, A> w(p);
    w.run(p);
}

using TI = std::int32_t;
using T1 = sim::Tracked<1, 0>;
using T2 = sim::Tracked<2, sim::F_NTMOVE>;
using T3 = sim::TrackedMO<3, sim::F_NTMOVE>;
using T4 = sim::TrackedMO<4, 0>;
using T5 = sim::Tracked<5, sim::F_NTMOVE, 40, 64>;
using T6 = sim::Tracked<6, sim::F_NTMOVE | sim::F_NTCOPY>;

template <typename T>
using P = cetl::pf17::pmr::polymorphic_allocator<T>;
template <typename T, unsigned F>
using S = sim::SimAlloc<T, F>;

}  // namespace vla

#endif
