// World: several packed bool arrays on simulated memory sources.
#include "sim_pmr.hpp"
#include <limits>
#include <algorithm>
#include <cetl/variable_length_array.hpp>
#include <type_traits>

namespace
{
using sim::Mem;
using sim::Res;

enum Op : int
{
    NEW_DEFAULT,
    NEW_MAX,
    NEW_ILIST,
    NEW_RANGE,
    NEW_COPY,
    NEW_COPY_ALLOC,
    NEW_MOVE,
    NEW_MOVE_ALLOC,
    DESTROY,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    PUSH,
    EMPLACE,
    POP,
    RESIZE,
    RESIZE_VALUE,
    ASSIGN,
    RESERVE,
    SHRINK,
    CLEAR,
    WRITE,
    FLIP,
    COPY_REF,
    ITER_WRITE,
    COMPARE,
    AT_ACCESS,
    QUOTA,
    PUSH_MANY,
    POP_MANY,
    SELF_ASSIGN,
    MAKE_EQUAL,
    OP_COUNT
};

constexpr unsigned kSlots = 4;
using Seq                 = std::vector<unsigned char>;

template <typename A>
struct AT;
template <typename T, unsigned P>
struct AT<sim::SimAlloc<T, P>>
{
    static constexpr bool pocca = (P & 1U) != 0;
    static constexpr bool pocma = (P & 2U) != 0;
    static constexpr bool sel   = (P & 8U) != 0;
    static sim::SimAlloc<T, P> make(Mem* m, sim::SimResource*, Mem* alt)
    {
        return sim::SimAlloc<T, P>(m, alt);
    }
    template <typename B>
    static int mem_id(const B& a)
    {
        return a.mem()->id;
    }
};
template <typename T>
struct AT<cetl::pf17::pmr::polymorphic_allocator<T>>
{
    static constexpr bool pocca = false;
    static constexpr bool pocma = false;
    static constexpr bool sel   = false;
    static cetl::pf17::pmr::polymorphic_allocator<T> make(Mem*, sim::SimResource* r, Mem*)
    {
        return cetl::pf17::pmr::polymorphic_allocator<T>(r);
    }
    template <typename B>
    static int mem_id(const B& a)
    {
        return static_cast<sim::SimResource*>(a.resource())->mem.id;
    }
};

template <typename A>
class W final
{
    using V = cetl::VariableLengthArray<bool, A>;
    struct Slot
    {
        V*          v{nullptr};
        Seq         m;
        std::size_t mx{0};
        int         mem{0};
    };
    static constexpr std::size_t kNoMax = ~std::size_t{0} - 7U;

public:
    explicit W(const sim::Plan& p)
        : scale_{p.cfg[6] % 24 == 7 ? 48U : 1U}
    {
        for (int i = 0; i < 2; ++i)
        {
            const auto c           = p.cfg[static_cast<std::size_t>(i)];
            mem_[i].realloc_mode   = static_cast<sim::ReallocMode>(c % 5);
            res_[i].realloc_throws = (c / 5) % 4 == 0;
            const auto l           = p.cfg[static_cast<std::size_t>(i + 2)];
            if (l % 6 == 0)
            {
                mem_[i].max_size = 1 + amount(l / 6, 6);
            }
        }
    }

    /// An amount taken from an argument. A few runs work with large arrays.
    std::size_t amount(std::int64_t a, std::size_t small) const
    {
        const auto u = static_cast<std::size_t>(a);
        if (scale_ == 1)
        {
            return u % small;
        }
        constexpr std::size_t edges[] = {64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 2048};
        const std::uint64_t   h       = sim::mix(small, u);
        const std::size_t     e       = edges[h / 8 % 12];
        return h % 4 == 0 && e < small * scale_ ? e : static_cast<std::size_t>(h / 128 % (small * scale_));
    }

    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            kill(s);
        }
        for (auto& m : mem_)
        {
            m.check_empty("all arrays destroyed");
        }
    }

private:
    typename V::allocator_type alloc(int i)
    {
        return typename V::allocator_type(AT<A>::make(&mem_[i], &res_[i], &mem_[2]));
    }
    std::size_t alloc_max(int mem) const
    {
        return std::min<std::size_t>(std::min<std::size_t>(PTRDIFF_MAX, mem_[mem].max_size), kNoMax / 8U) * 8U;
    }
    std::size_t limit(const Slot& s) const
    {
        return std::min(s.mx, alloc_max(s.mem));
    }
    void kill(Slot& s)
    {
        delete s.v;
        s.v = nullptr;
        s.m.clear();
    }
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    static bool bit(std::int64_t x)
    {
        return ((x >> 3) & 1) != 0;
    }
    Seq bits(std::int64_t x, std::size_t n)
    {
        sim::Rng r(static_cast<std::uint64_t>(x));
        Seq      s;
        for (std::size_t i = 0; i < n; ++i)
        {
            s.push_back(static_cast<unsigned char>(r.next() & 1U));
        }
        return s;
    }
    Seq read(const V& v) const
    {
        Seq r;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            r.push_back(v[i] ? 1 : 0);
        }
        return r;
    }

    // ---- observation
    /// Every way of moving and comparing iterators, around the positions i <= k of the array.
    template <typename It>
    void walk(const It b, const It e, const Seq& m, std::size_t i, std::size_t k, const char* cls) const
    {
        const auto n  = static_cast<std::ptrdiff_t>(m.size());
        const auto pi = static_cast<std::ptrdiff_t>(i);
        const auto pk = static_cast<std::ptrdiff_t>(k);
        const It   x  = b + pi;
        const It   y  = e - (n - pk);
        bool       ok = x - b == pi && y - b == pk && y - x == pk - pi && x - y == pi - pk && e - x == n - pi;
        ok = ok && (x == y) == (i == k) && (x != y) == (i != k) && (x < y) == (i < k) && (x <= y) && (x > y) == false && (x >= y) == (i == k);
        ok = ok && (y < x) == false && (y <= x) == (i == k) && (y > x) == (i < k) && (y >= x) && x <= x && x >= x && !(x < x) && !(x > x);
        It p = x;
        p += pk - pi;
        ok = ok && p == y;
        p -= pk - pi;
        ok = ok && p == x;
        if (i < k)
        {
            It q = p++;
            ok   = ok && q == x && p - x == 1;
            q    = p--;
            ok   = ok && p == x && q - x == 1;
            ok   = ok && &++p == &p && p - x == 1 && &--p == &p && p == x;
        }
        if (i < m.size())
        {
            const bool want = m[i] != 0;
            It         w    = x;
            ok = ok && static_cast<bool>(*x) == want && static_cast<bool>(*w) == want && static_cast<bool>(x[0]) == want &&
                 static_cast<bool>(w[0]) == want;
            ok = ok && static_cast<bool>(y[pi - pk]) == want && static_cast<bool>(b[pi]) == want && static_cast<bool>(e[pi - n]) == want;
            if (k < m.size())
            {
                ok = ok && static_cast<bool>(x[pk - pi]) == (m[k] != 0) && static_cast<bool>(w[pk - pi]) == (m[k] != 0);
                ok = ok && (*x == *y) == ((m[i] != 0) == (m[k] != 0)) && (*x != *y) == ((m[i] != 0) != (m[k] != 0));
            }
        }
        if (!ok)
        {
            bad(cls, "iterators or what they refer to disagree with their positions");
        }
    }
    void check_slot(const Slot& s, const char* cls) const
    {
        const V&          v  = *s.v;
        V&                nv = *s.v;
        const std::size_t n  = s.m.size();
        if (v.size() != n)
        {
            sim::violation(cls, "bool array has %zu bits, expected %zu", v.size(), n);
        }
        if (v.empty() != (n == 0))
        {
            bad(cls, "empty() disagrees with size()");
        }
        if (v.capacity() < n)
        {
            bad("memory", "capacity is smaller than size");
        }
        if (v.size() > v.max_size())
        {
            sim::violation("bound", "bool array holds %zu bits but its maximum is %zu", v.size(), v.max_size());
        }
        if (v.max_size() != limit(s))
        {
            sim::violation("bound", "maximum size is %zu, expected %zu", v.max_size(), limit(s));
        }
        if (AT<A>::mem_id(v.get_allocator()) != s.mem)
        {
            bad("propagate", "bool array uses the wrong allocator");
        }
        const auto d1 = v.end() - v.begin();
        const auto d2 = nv.end() - nv.begin();
        const auto d3 = v.cend() - v.cbegin();
        if (static_cast<std::size_t>(d1) != n || static_cast<std::size_t>(d2) != n || static_cast<std::size_t>(d3) != n)
        {
            bad(cls, "iterator range length disagrees with size()");
        }
        std::size_t i  = 0;
        auto        it = nv.begin();
        for (auto c = v.begin(); c != v.end(); ++c, ++it, ++i)
        {
            const bool want = s.m[i] != 0;
            if (*c != want || static_cast<bool>(*it) != want || v[i] != want || static_cast<bool>(nv[i]) != want ||
                V::test(v, i) != want || ~nv[i] == want)
            {
                sim::violation(cls, "bit %zu is wrong", i);
            }
            if (v.begin()[static_cast<std::ptrdiff_t>(i)] != want || *(v.end() - static_cast<std::ptrdiff_t>(n - i)) != want)
            {
                sim::violation(cls, "bit %zu is wrong through an iterator", i);
            }
        }
        if (n < 64)
        {
            std::size_t a = (n * 7U + static_cast<std::size_t>(sim::ctx.step + 1) * 13U) % (n + 1U);
            std::size_t c = (n * 5U + static_cast<std::size_t>(sim::ctx.step + 1) * 11U) % (n + 1U);
            if (a > c)
            {
                std::swap(a, c);
            }
            walk(v.begin(), v.end(), s.m, a, c, cls);
            walk(nv.begin(), nv.end(), s.m, a, c, cls);
            walk(v.cbegin(), v.cend(), s.m, a, c, cls);
        }
        for (std::size_t k = n; k < v.capacity() && k < n + 24U; ++k)
        {
            if (V::test(v, k))
            {
                sim::violation(cls, "bit %zu past the end reads as set", k);
            }
        }
        if (n > 0 && (v.front() != (s.m[0] != 0) || v.back() != (s.m[n - 1] != 0) || static_cast<bool>(nv.front()) != (s.m[0] != 0) ||
                      static_cast<bool>(nv.back()) != (s.m[n - 1] != 0)))
        {
            bad(cls, "front()/back() are wrong");
        }
    }
    void check_all()
    {
        std::uint64_t h = 0;
        for (auto& s : s_)
        {
            if (s.v != nullptr)
            {
                check_slot(s, "content");
                const std::size_t n = s.m.size();
                h = sim::mix(h, (n << 8) ^ (s.v->capacity() / 8U << 20) ^ (n == limit(s) ? 8U : 0U) ^ (static_cast<unsigned>(s.mem) << 4));
            }
            else
            {
                h = sim::mix(h, 5);
            }
        }
        std::size_t held = 0;
        for (auto& s : s_)
        {
            held += s.v != nullptr ? s.v->capacity() / 8U : 0U;
        }
        if (held != mem_[0].live_bytes() + mem_[1].live_bytes() + mem_[2].live_bytes())
        {
            bad("memory", "memory held differs from the sum of the capacities");
        }
        sim::state(h);
    }
    bool mem_fault() const
    {
        return sim::ctx.injected_mem > 0;
    }
    void explain(Res r, bool over_limit)
    {
        switch (r)
        {
        case Res::ok:
            sim::outcome(0);
            break;
        case Res::bad_alloc:
            sim::outcome(1);
            break;
        case Res::length:
            if (!over_limit)
            {
                bad("exc", "length error although the request is within the limits");
            }
            sim::outcome(2);
            break;
        default:
            sim::violation("exc", "unexpected exception: %s", r == Res::std_bad_alloc ? "bad_alloc" : sim::last_other.c_str());
        }
    }

    /// Requests for memory made so far.
    std::uint64_t requests() const
    {
        return mem_[0].requests + mem_[1].requests + mem_[2].requests;
    }
    /// An operation that has all the storage it needs must not ask for memory.
    struct Frugal
    {
        const W&      w;
        const V*      v;
        std::size_t   cap;
        std::uint64_t req;
        Frugal(const W& world, const V* array)
            : w(world)
            , v(array)
            , cap(array != nullptr ? array->capacity() : 0)
            , req(world.requests())
        {
        }
        void check(const char* what) const
        {
            if (w.requests() != req)
            {
                sim::frugal("%s asked for memory although it has all it needs", what);
            }
            if (v != nullptr && v->capacity() < cap)
            {
                sim::frugal("%s gave up storage", what);
            }
        }
    };

    template <typename F>
    void growing(Slot& s, F f, const Seq& want, bool over, bool retry, std::size_t need = 0)
    {
        const Seq         old  = s.m;
        const std::size_t ocap = s.v->capacity();
        const Frugal      fr(*this, s.v);
        Res               r    = sim::call(f);
        if (std::max(need, want.size()) <= ocap && !over)
        {
            fr.check("an operation within the capacity");
            sim::probe("within_capacity");
        }
        explain(r, over);
#if !SIM_EXC
        const Seq now = read(*s.v);
        if (now == want && !over)
        {
            s.m = want;
            return;
        }
        sim::outcome(over ? 2 : 1);
        if (!over && !mem_fault())
        {
            bad("noexc", "operation failed although memory was available");
        }
        if (now.size() < std::min(old.size(), want.size()) || now.size() > std::max(want.size(), old.size()) ||
            !std::equal(old.begin(), old.begin() + static_cast<std::ptrdiff_t>(std::min(old.size(), now.size())), now.begin()))
        {
            bad("atomic", "contents damaged by a failed growth");
        }
        for (std::size_t i = old.size(); i < now.size(); ++i)
        {
            if (i >= want.size() || now[i] != want[i])
            {
                bad("content", "clamped growth produced wrong bits");
            }
        }
        if (now.size() != old.size() && want.size() == old.size() + 1)
        {
            bad("atomic", "append that failed changed the array");
        }
        s.m = now;
        check_slot(s, "atomic");
#else
        if (r == Res::ok)
        {
            if (over)
            {
                bad("bound", "request beyond the maximum size was accepted");
            }
            s.m = want;
            return;
        }
        sim::probe("failed_growth");
        check_slot(s, "atomic");
#endif
        if (s.v->capacity() < ocap)
        {
            bad("atomic", "storage lost by a failed growth");
        }
        if (retry && !over && mem_[s.mem].quota == ~std::size_t{0})
        {
            sim::ctx.fb       = sim::ctx.fe;
            sim::ctx.injected = sim::ctx.injected_elem = sim::ctx.injected_mem = 0;
            Res r2 = sim::call(f);
            if (read(*s.v) == want)
            {
                s.m = want;
                check_slot(s, "atomic");
                sim::probe("retry_ok");
            }
            else if (mem_[s.mem].max_size > 1000000 && !(s.mem < 2 && res_[s.mem].realloc_throws))
            {
                bad("atomic", "retry after a transient failure did not succeed");
            }
            (void) r2;
        }
    }

    template <typename F>
    void construct(Slot& s, F f, const Seq& want, std::size_t mx, int mem, Slot* src, bool move_src)
    {
        Slot tmp;
        tmp.mx          = mx;
        tmp.mem         = mem;
        const bool over = want.size() > limit(tmp);
        V*         made = nullptr;
        const Seq  sold = src ? src->m : Seq{};
        Res        r    = sim::call([&] { made = f(); });
        explain(r, over);
        if (r == Res::ok)
        {
            s.v   = made;
            s.m   = want;
            s.mx  = mx;
            s.mem = mem;
#if !SIM_EXC
            const Seq now = read(*s.v);
            if (now != want)
            {
                if (!over && !mem_fault())
                {
                    bad("noexc", "construction incomplete although memory was available");
                }
                sim::outcome(over ? 2 : 1);
                if (now.size() > want.size() || !std::equal(now.begin(), now.end(), want.begin()))
                {
                    bad("content", "incomplete construction produced wrong bits");
                }
                s.m = now;
                if (move_src)
                {
                    const Seq sn = read(*src->v);
                    if (!sn.empty() && sn != sold)
                    {
                        bad("transfer", "source of a failed move is damaged");
                    }
                    src->m = sn;
                }
                check_slot(s, "content");
                return;
            }
#endif
            if (over && src == nullptr)
            {
                bad("bound", "construction beyond the maximum size was accepted");
            }
            if (move_src)
            {
                src->m.clear();
            }
            check_slot(s, src ? "transfer" : "content");
        }
        if (src)
        {
            check_slot(*src, "transfer");
        }
    }

    void revive(Slot& s, std::int64_t salt)
    {
        if (s.v != nullptr)
        {
            return;
        }
        const auto q = static_cast<std::size_t>(salt);
        s.mem        = static_cast<int>(q % 2);
        s.mx         = (q / 2) % 3 == 0 ? amount(salt / 6, 30) : kNoMax;
        s.v          = (q / 2) % 3 == 0 ? new V(s.mx, alloc(s.mem)) : new V(alloc(s.mem));
        const auto n = std::min(limit(s), amount(salt / 84, 27));
        const auto kq = mem_[s.mem].quota;
        const auto kt = res_[s.mem].realloc_throws;
        mem_[s.mem].quota          = ~std::size_t{0};
        res_[s.mem].realloc_throws = false;
        for (auto b : bits(salt, n))
        {
            s.v->push_back(b != 0);
            s.m.push_back(b);
        }
        mem_[s.mem].quota          = kq;
        res_[s.mem].realloc_throws = kt;
        check_slot(s, "content");
    }

    std::size_t count(const sim::Step& st, const Slot& s)
    {
        std::size_t n = amount(st.a[1], 44);
        switch (st.a[2] % 4)
        {
        case 0:
            if (limit(s) < 100 * scale_)
            {
                n = limit(s) + static_cast<std::size_t>(st.a[1]) % 3;
            }
            break;
        case 1:
            n = s.m.size() + static_cast<std::size_t>(st.a[1]) % 4;
            break;
        case 2:
            n = (n / 8U) * 8U;
            break;
        default:
            break;
        }
        return n;
    }

    void step(const sim::Step& st)
    {
        std::size_t si = static_cast<std::size_t>(st.a[0]) % kSlots;
        std::size_t oi = static_cast<std::size_t>(st.a[1]) % kSlots;
        if (si == oi)
        {
            oi = (oi + 1) % kSlots;
        }
        Slot&      s     = s_[si];
        Slot&      o     = s_[oi];
        const int  m     = static_cast<int>(st.a[2] % 2);
        const bool retry = (st.a[3] % 2) != 0;
        if (st.op > DESTROY && st.op != QUOTA)
        {
            revive(s, st.a[2] + st.a[3]);
        }
        if (st.op == NEW_COPY || st.op == NEW_COPY_ALLOC || st.op == NEW_MOVE || st.op == NEW_MOVE_ALLOC || st.op == COPY_ASSIGN ||
            st.op == MOVE_ASSIGN || st.op == COMPARE || st.op == MAKE_EQUAL || st.op == COPY_REF)
        {
            revive(o, st.a[2] + 7 * st.a[3]);
        }
        switch (st.op)
        {
        case NEW_DEFAULT:
        {
            kill(s);
            const Frugal fr(*this, nullptr);
            construct(s, [&] { return new V(alloc(m)); }, {}, kNoMax, m, nullptr, false);
            fr.check("making an empty array");
            return;
        }
        case NEW_MAX:
        {
            kill(s);
            const auto mx = amount(st.a[1], 36);
            const Frugal fr(*this, nullptr);
            construct(s, [&] { return new V(mx, alloc(m)); }, {}, mx, m, nullptr, false);
            fr.check("making an empty array");
            return;
        }
        case NEW_ILIST:
        case NEW_RANGE:
        {
            kill(s);
            const bool        lim = (st.a[3] % 3) == 0;
            const std::size_t mx  = lim ? amount(st.a[3] / 3, 24) : kNoMax;
            Seq               w   = bits(st.a[2], amount(st.a[1], 30));
            if (st.op == NEW_RANGE)
            {
                construct(
                    s,
                    [&] { return lim ? new V(w.begin(), w.end(), mx, alloc(m)) : new V(w.begin(), w.end(), alloc(m)); },
                    w,
                    mx,
                    m,
                    nullptr,
                    false);
            }
            else
            {
                auto go = [&](std::initializer_list<bool> il) {
                    Seq x;
                    for (bool b : il)
                    {
                        x.push_back(b ? 1 : 0);
                    }
                    construct(s, [&] { return lim ? new V(il, mx, alloc(m)) : new V(il, alloc(m)); }, x, mx, m, nullptr, false);
                };
                switch (st.a[1] % 4)
                {
                case 0:
                    go({});
                    break;
                case 1:
                    go({true, false, true});
                    break;
                case 2:
                    go({true, false, false, true, true, true, false, true});
                    break;
                default:
                    go({false, true, true, false, true, false, false, true, true, true});
                    break;
                }
            }
            return;
        }
        case NEW_COPY:
        case NEW_COPY_ALLOC:
        {
            kill(s);
            const V& src = *o.v;
            if (st.op == NEW_COPY)
            {
                construct(s, [&] { return new V(src); }, o.m, o.mx, AT<A>::sel ? 2 : o.mem, &o, false);
            }
            else
            {
                construct(s, [&] { return new V(src, alloc(m)); }, o.m, o.mx, m, &o, false);
            }
            return;
        }
        case NEW_MOVE:
        {
            kill(s);
            const Frugal fr(*this, nullptr);
            construct(s, [&] { return new V(std::move(*o.v)); }, o.m, o.mx, o.mem, &o, true);
            fr.check("moving between equal allocators");
            return;
        }
        case NEW_MOVE_ALLOC:
        {
            kill(s);
            const Frugal fr(*this, nullptr);
            const bool   take = o.mem == m;
            construct(s, [&] { return new V(std::move(*o.v), alloc(m)); }, o.m, o.mx, m, &o, true);
            if (take)
            {
                fr.check("moving between equal allocators");
            }
            return;
        }
        case DESTROY:
            if (s.v != nullptr)
            {
                kill(s);
                sim::outcome(0);
            }
            return;
        case COPY_ASSIGN:
        case MOVE_ASSIGN:
        {
            const Seq  old  = s.m;
            const Seq  oold = o.m;
            const bool mv   = st.op == MOVE_ASSIGN;
            const int  nmem = (mv ? AT<A>::pocma : AT<A>::pocca) ? o.mem : s.mem;
            const bool over = o.m.size() > std::min(o.mx, alloc_max(nmem));
            const bool fits = nmem == s.mem && (!mv || s.mem != o.mem) && o.v->size() <= s.v->capacity();
            const Frugal fr(*this, nullptr);
            const Frugal keep(*this, s.v);
            Res        r    = sim::call([&] {
                if (mv)
                {
                    *s.v = std::move(*o.v);
                }
                else
                {
                    *s.v = static_cast<const V&>(*o.v);
                }
            });
            if (mv && (AT<A>::pocma || s.mem == o.mem))
            {
                fr.check("moving between equal allocators");
            }
            if (fits)
            {
                keep.check("assigning what fits");
            }
            explain(r, over);
            const Seq now = read(*s.v);
            const Seq on  = read(*o.v);
            if (r == Res::ok && now == oold && (on.empty() || !mv))
            {
                if (mv)
                {
                    o.m.clear();
                }
                s.m = oold;
                if (AT<A>::mem_id(s.v->get_allocator()) == nmem)
                {
                    s.mem = nmem;
                }
                s.mx = o.mx;
                check_slot(s, "transfer");
                check_slot(o, "transfer");
                return;
            }
            if (SIM_EXC != 0 && r == Res::ok)
            {
                bad("transfer", "assignment returned normally with wrong contents");
            }
            if (!mem_fault())
            {
                bad("noexc", "assignment failed although memory was available");
            }
            sim::outcome(1);
            sim::probe("failed_assign");
            if (now != old && !now.empty())
            {
                bad("transfer", "failed assignment left wrong bits");
            }
            if (on != oold)
            {
                bad("transfer", "source of a failed assignment is damaged");
            }
            s.m = now;
            if (AT<A>::mem_id(s.v->get_allocator()) == nmem)
            {
                s.mem = nmem;
            }
            check_slot(s, "transfer");
            return;
        }
        case PUSH:
        case EMPLACE:
        {
            const bool b    = bit(st.a[1]);
            Seq        want = s.m;
            want.push_back(b ? 1 : 0);
            const bool over = s.m.size() >= limit(s);
            if (st.op == PUSH)
            {
                growing(s, [&] { s.v->push_back(b); }, want, over, retry);
            }
            else
            {
                growing(s, [&] { s.v->emplace_back(b); }, want, over, retry);
            }
            return;
        }
        case PUSH_MANY:
        {
            for (auto b : bits(st.a[3], 2 + static_cast<std::size_t>(st.a[1]) % 24))
            {
                Seq               want   = s.m;
                const bool        over   = s.m.size() >= limit(s);
                const std::size_t before = s.m.size();
                want.push_back(b);
                growing(s, [&] { s.v->push_back(b != 0); }, want, over, false);
                if (s.m.size() == before)
                {
                    break;
                }
            }
            return;
        }
        case POP:
        case POP_MANY:
        {
            std::size_t n = st.op == POP ? 1 : 1 + static_cast<std::size_t>(st.a[1]) % 18;
            for (std::size_t i = 0; i < n; ++i)
            {
                const Frugal fr(*this, s.v);
                sim::call([&] { s.v->pop_back(); });
                fr.check("removing the last bit");
                if (!s.m.empty())
                {
                    s.m.pop_back();
                }
                check_slot(s, "content");
            }
            sim::outcome(0);
            return;
        }
        case RESIZE:
        case RESIZE_VALUE:
        {
            const std::size_t n    = count(st, s);
            const bool        b    = st.op == RESIZE_VALUE && bit(st.a[3]);
            Seq               want = s.m;
            want.resize(n, b ? 1 : 0);
            const bool over = n > limit(s);
            if (st.op == RESIZE)
            {
                growing(s, [&] { s.v->resize(n); }, want, over, retry);
            }
            else
            {
                growing(s, [&] { s.v->resize(n, b); }, want, over, retry);
            }
            return;
        }
        case ASSIGN:
        {
            const std::size_t n = count(st, s);
            const bool        b = bit(st.a[3]);
            const Seq         want(n, b ? 1 : 0);
            const bool        over = n > limit(s);
            const Frugal      fr(*this, s.v);
            Res               r    = sim::call([&] { s.v->assign(n, b); });
            if (n <= fr.cap && !over)
            {
                fr.check("assigning within the capacity");
            }
            explain(r, over);
            const Seq now = read(*s.v);
            if (now == want && r == Res::ok && !over)
            {
                s.m = want;
                return;
            }
#if !SIM_EXC
            sim::outcome(over ? 2 : 1);
            if (!over && !mem_fault())
            {
                bad("noexc", "assign failed although memory was available");
            }
            if (now.size() > n || now.size() > limit(s))
            {
                bad("bound", "failed assign left a wrong size");
            }
            s.m = now;
#else
            if (r == Res::ok)
            {
                bad(over ? "bound" : "content", "assign returned normally with wrong contents");
            }
            check_slot(s, "atomic");
#endif
            return;
        }
        case RESERVE:
        {
            const std::size_t n    = count(st, s);
            const bool        over = n > limit(s);
            growing(s, [&] { s.v->reserve(n); }, s.m, over, retry, n);
            if (!over && sim::ctx.injected == 0 && s.v->capacity() < n)
            {
                bad("content", "reserve did not provide the requested capacity");
            }
            return;
        }
        case SHRINK:
        {
            const std::size_t ocap = s.v->capacity();
            Res               r    = sim::call([&] { s.v->shrink_to_fit(); });
            if (s.v->capacity() > ocap)
            {
                sim::frugal("shrinking made the storage larger");
            }
            if (r == Res::ok && !mem_fault() && s.v->capacity() / 8U != (s.m.size() + 7U) / 8U)
            {
                sim::frugal("shrinking kept more storage than the bits need");
            }
            if (r != Res::ok)
            {
                bad("atomic", "shrinking let a failure escape");
            }
            sim::outcome(0);
            check_slot(s, mem_fault() ? "atomic" : "content");
            return;
        }
        case CLEAR:
        {
            const Frugal fr(*this, s.v);
            sim::call([&] { s.v->clear(); });
            fr.check("clearing");
            s.m.clear();
            sim::outcome(0);
            return;
        }
        case WRITE:
        case FLIP:
        case ITER_WRITE:
            if (!s.m.empty())
            {
                const std::size_t i = static_cast<std::size_t>(st.a[1]) % s.m.size();
                const bool        b = st.op == FLIP ? s.m[i] == 0 : bit(st.a[3]);
                if (st.op == FLIP)
                {
                    (*s.v)[i].flip();
                }
                else if (st.op == ITER_WRITE)
                {
                    auto it = s.v->begin();
                    it += static_cast<std::ptrdiff_t>(i);
                    *it = b;
                }
                else if ((st.a[2] % 2) != 0)
                {
                    (*s.v)[i] = b;
                }
                else
                {
                    V::set(*s.v, i, b);
                }
                if ((st.a[3] % 5) == 0)
                {
                    // Past the end, nothing happens.
                    V::set(*s.v, s.m.size() + i, true);
                    V::set(*s.v, s.m.size() + 8U * i, b);
                    if (V::test(*s.v, s.m.size() + i) || V::test(*s.v, std::numeric_limits<std::size_t>::max()))
                    {
                        bad("content", "a bit past the end reads as set");
                    }
                }
                s.m[i] = b ? 1 : 0;
                sim::outcome(0);
            }
            return;
        case COPY_REF:
            if (!s.m.empty() && !o.m.empty())
            {
                const std::size_t i = static_cast<std::size_t>(st.a[1]) % s.m.size();
                const std::size_t k = static_cast<std::size_t>(st.a[3]) % o.m.size();
                (*s.v)[i]           = (*o.v)[k];
                s.m[i]              = o.m[k];
                sim::outcome(0);
            }
            return;
        case MAKE_EQUAL:
            // Builds the same contents along another path, so that unused bits differ, and compares.
            {
                const Seq w  = o.m;
                bool      ok = true;
                Res       r  = sim::call([&] {
                    s.v->resize(std::min(limit(s), s.m.size() + 3), true);
                    s.v->clear();
                    for (auto b : w)
                    {
                        if (s.v->size() >= limit(s))
                        {
                            ok = false;
                            break;
                        }
                        s.v->push_back(b != 0);
                    }
                });
                explain(r, false);
                s.m = read(*s.v);
                if (r == Res::ok && ok && s.m == w)
                {
                    if (!(*s.v == *o.v) || *s.v != *o.v || !(*o.v == *s.v))
                    {
                        bad("content", "equal bool arrays compare unequal");
                    }
                    sim::probe("made_equal");
                }
                else if (r == Res::ok && ok && !mem_fault())
                {
                    bad("content", "rebuilt bool array has wrong contents");
                }
                return;
            }
        case COMPARE:
        {
            const bool e = s.m == o.m;
            if ((*s.v == *o.v) != e || (*s.v != *o.v) == e)
            {
                bad("content", "comparison of two bool arrays is wrong");
            }
            // one bit of difference anywhere must be seen
            if (e && !s.m.empty())
            {
                const std::size_t i = static_cast<std::size_t>(st.a[3]) % s.m.size();
                (*s.v)[i].flip();
                if (*s.v == *o.v)
                {
                    bad("content", "bool arrays that differ in one bit compare equal");
                }
                (*s.v)[i].flip();
                sim::probe("one_bit_difference");
            }
            sim::outcome(0);
            sim::probe(e ? "compare_equal" : "compare_unequal");
            return;
        }
        case AT_ACCESS:
#if SIM_EXC
        {
            const std::size_t i   = static_cast<std::size_t>(st.a[1]) % (s.m.size() + 3);
            bool              oor = false;
            try
            {
                const bool b = (st.a[2] % 2) != 0 ? static_cast<bool>(s.v->at(i)) : static_cast<const V&>(*s.v).at(i);
                if (i < s.m.size() && b != (s.m[i] != 0))
                {
                    bad("content", "at() returned a wrong bit");
                }
            } catch (const std::out_of_range&)
            {
                oor = true;
            }
            if (oor != (i >= s.m.size()))
            {
                bad("content", "checked access misjudged its argument");
            }
            sim::outcome(0);
        }
#endif
            return;
        case QUOTA:
            mem_[m].quota = (st.a[3] % 2) != 0 ? ~std::size_t{0} : mem_[m].live_bytes() + amount(st.a[1], 12);
            sim::outcome(0);
            return;
        case SELF_ASSIGN:
        {
            V&  alias = *s.v;
            Res r     = (st.a[1] & 1) != 0 ? sim::call([&] { *s.v = std::move(alias); })  //
                                           : sim::call([&] { *s.v = alias; });
            explain(r, false);
            check_slot(s, "transfer");
            return;
        }
        default:
            return;
        }
    }

    Mem              mem_[3]{Mem{0}, Mem{1}, Mem{2}};
    sim::SimResource res_[3]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}, sim::SimResource{mem_[2]}};
    Slot             s_[kSlots];
    std::size_t      scale_;
};

template <typename A>
void exec(const sim::Plan& p)
{
    W<A> w(p);
    w.run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "bool",
        {{"new_default", 2}, {"new_max", 4},      {"new_ilist", 3},    {"new_range", 4}, {"new_copy", 4},   {"new_copy_alloc", 4},
         {"new_move", 3},    {"new_move_alloc", 4}, {"destroy", 2},    {"copy_assign", 7}, {"move_assign", 7}, {"push", 8},
         {"emplace", 6},     {"pop", 5},          {"resize", 7},       {"resize_value", 9}, {"assign", 6},  {"reserve", 5},
         {"shrink", 6},      {"clear", 3},        {"write", 4},        {"flip", 4},      {"copy_ref", 3},   {"iter_write", 3},
         {"compare", 5},     {"at", 2},           {"quota", 2},        {"push_many", 8}, {"pop_many", 4},   {"self_assign", 1},
         {"make_equal", 5}},
        {{"pmr", &exec<cetl::pf17::pmr::polymorphic_allocator<bool>>, 3},
         {"nonprop", &exec<sim::SimAlloc<bool, 0>>, 2},
         {"prop", &exec<sim::SimAlloc<bool, 3>>, 2},
         {"pocca", &exec<sim::SimAlloc<bool, 1>>, 1},
         {"pocma+select", &exec<sim::SimAlloc<bool, 10>>, 2}},
        4,
        40,
        nullptr,
        true,
        false,
        "VariableLengthArray<bool>, polymorphic_allocator, memory_resource base",
        "memory sources, allocators",
    };
    return w;
}
