// World: several unbounded variants (all footprint / copyable / movable / memory-resource combinations) on simulated memory.
#include "sim_pmr.hpp"
#include <cetl/unbounded_variant.hpp>
#include <initializer_list>
#include <type_traits>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;

enum Op : int
{
    NEW_EMPTY,
    NEW_VALUE,
    NEW_INPLACE,
    NEW_MAKE,
    NEW_COPY,
    NEW_MOVE,
    DESTROY,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    ASSIGN_VALUE,
    EMPLACE,
    EMPLACE_LIST,
    SWAP,
    RESET,
    RESET_RES,
    SELF,
    WRITE,
    GET_WRONG,
    GET_COPY,
    QUOTA,
    OP_COUNT
};

constexpr unsigned kSlots = 5;

// ---- value types
template <int I, unsigned F, std::size_t Pad, std::size_t Align = alignof(void*)>
struct Val : sim::Tracked<I, F, Pad, Align>
{
    using B = sim::Tracked<I, F, Pad, Align>;
    explicit Val(std::int64_t v)
        : B(v)
    {
    }
    Val(std::int64_t v, std::int64_t w)
        : B(v, w)
    {
    }
    Val(std::initializer_list<std::int64_t> l, std::int64_t v)
        : B(v + static_cast<std::int64_t>(l.size()))
    {
    }
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {{0x10, static_cast<std::uint8_t>(I)}};
    }
};

struct IShape : cetl::rtti_helper<cetl::type_id_type<0xA1, 1>>
{
    virtual std::int64_t shape() const = 0;
};
struct IOther : cetl::rtti_helper<cetl::type_id_type<0xA2, 1>>
{
    virtual std::int64_t other() const = 0;
};
template <unsigned F>
struct Shape : cetl::rtti_helper<cetl::type_id_type<0xA3, 1>, IShape, IOther>
{
    sim::Tracked<50, F> t;
    explicit Shape(std::int64_t v)
        : t(v)
    {
    }
    Shape(std::int64_t v, std::int64_t w)
        : t(v, w)
    {
    }
    Shape(std::initializer_list<std::int64_t> l, std::int64_t v)
        : t(v + static_cast<std::int64_t>(l.size()))
    {
    }
    Shape(const Shape& o)
        : cetl::rtti_helper<cetl::type_id_type<0xA3, 1>, IShape, IOther>()
        , t(o.t)
    {
    }
    Shape(Shape&& o) noexcept((F & sim::F_NTMOVE) != 0)
        : cetl::rtti_helper<cetl::type_id_type<0xA3, 1>, IShape, IOther>()
        , t(std::move(o.t))
    {
    }
    std::int64_t shape() const override
    {
        return t.value();
    }
    std::int64_t other() const override
    {
        return t.value() + 1;
    }
    std::int64_t value() const
    {
        return t.value();
    }
    void set(std::int64_t v)
    {
        t.set(v);
    }
};

/// A plain trivially copyable value.
struct Plain
{
    std::int64_t v;
    explicit Plain(std::int64_t x)
        : v(x)
    {
        sim::user_point(sim::K_CTOR);
    }
    Plain(std::int64_t x, std::int64_t w)
        : v(x * 1000 + w)
    {
        sim::user_point(sim::K_CTOR);
    }
    Plain(std::initializer_list<std::int64_t> l, std::int64_t x)
        : v(x + static_cast<std::int64_t>(l.size()))
    {
        sim::user_point(sim::K_CTOR);
    }
    std::int64_t value() const
    {
        return v;
    }
    void set(std::int64_t x)
    {
        v = x;
    }
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {{0x10, 0x60}};
    }
};

template <typename T>
struct Tag
{
    using type = T;
};

constexpr int kTypes = 6;
template <unsigned F, std::size_t A, typename Fn>
void with_type(int k, Fn f)
{
    switch (k)
    {
    case 0:
        f(Tag<Val<1, F, 0>>{});
        break;
    case 1:
        f(Tag<Val<2, F, 40>>{});
        break;
    case 2:
        f(Tag<Val<3, F, 150, A>>{});
        break;
    case 3:
        f(Tag<Plain>{});
        break;
    case 4:
        f(Tag<Shape<F>>{});
        break;
    default:
        f(Tag<Val<4, F, 16>>{});
        break;
    }
}

template <std::size_t Footprint, bool C, bool M, bool P, std::size_t Al = 16>
class W final
{
    using V                     = cetl::unbounded_variant<Footprint, C, M, Al, std::conditional_t<P, Pmr, void>>;
    static constexpr unsigned F = sim::F_COPY | sim::F_MOVE | (M ? static_cast<unsigned>(sim::F_NTMOVE) : 0U);

    struct Slot
    {
        V*           v{nullptr};
        int          type{-1};
        std::int64_t val{0};
        int          res{0};
        int          vbe{0};  // 0 must be false, 1 must be true, 2 unspecified
    };

public:
    explicit W(const sim::Plan& p)
    {
        sim::ctx.null_fails = p.cfg[6] % 4 == 2;
        for (auto& r : res_)
        {
            r.fails_with_null = sim::ctx.null_fails;
        }
    }

    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            setup_                 = 0;
            const std::uint64_t rq = requests();
            step(p.steps[i]);
            if (quiet_ && requests() != rq + setup_)
            {
                sim::frugal("an operation that has all the storage it needs asked for memory");
            }
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            kill(s);
        }
        sim::life.check_empty("all variants destroyed");
        for (auto& m : mem_)
        {
            m.check_empty("all variants destroyed");
        }
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    void kill(Slot& s)
    {
        delete s.v;
        s = Slot{};
    }
    std::size_t blocks() const
    {
        return mem_[0].live_blocks() + mem_[1].live_blocks() + mem_[2].live_blocks();
    }
    std::uint64_t requests() const
    {
        return mem_[0].requests + mem_[1].requests + mem_[2].requests;
    }
    /// Whether a value of this type (-1: no value) is to be held without memory from a resource.
    static bool fits(int type)
    {
        bool f = true;
        if (type >= 0)
        {
            with_type<F, Al>(type, [&](auto tag) { f = sizeof(typename decltype(tag)::type) <= Footprint; });
        }
        return f;
    }
    int res_of(const V& v) const
    {
        if constexpr (P)
        {
            return static_cast<sim::SimResource*>(v.get_memory_resource())->mem.id;
        }
        else
        {
            (void) v;
            return 0;
        }
    }

    // ---- observation
    /// Reads type and value through all typed accessors and cross-checks them.
    void observe(const Slot& s, int& type, std::int64_t& val, const char* cls) const
    {
        V&       v  = *s.v;
        const V& cv = *s.v;
        type        = -1;
        val         = 0;
        int found   = 0;
        for (int k = 0; k < kTypes; ++k)
        {
            with_type<F, Al>(k, [&](auto tag) {
                using T     = typename decltype(tag)::type;
                T*       p  = cetl::get_if<T>(&v);
                const T* cp = cetl::get_if<T>(&cv);
                if (p != cp)
                {
                    bad(cls, "mutable and constant typed access disagree");
                }
                if (p == nullptr)
                {
                    return;
                }
                ++found;
                type = k;
                if ((reinterpret_cast<std::uintptr_t>(p) % alignof(T)) != 0)
                {
                    bad("memory", "contained value is misaligned");
                }
                val = p->value();
                if (v.type_size() != sizeof(T))
                {
                    bad(cls, "type_size() is wrong");
                }
                if (v.type_id() != cetl::type_id_value<T>)
                {
                    bad(cls, "type_id() is wrong");
                }
                if (&cetl::get<const T&>(cv) != p || &cetl::get<T&>(v) != p)
                {
                    bad(cls, "get() refers to something else than get_if()");
                }
            });
        }
        if (found > 1)
        {
            bad(cls, "typed access succeeds for several types");
        }
        if (v.has_value() != (found == 1))
        {
            bad(cls, "has_value() disagrees with typed access");
        }
        if (found == 0 && (v.type_size() != 0 || v.type_id() != cetl::type_id_value<void>))
        {
            bad(cls, "variant without value reports a type");
        }
        if (found == 1 && v.valueless_by_exception())
        {
            bad(cls, "variant with a value says it is valueless");
        }
        const IShape* sh = cetl::get_if<IShape>(&cv);
        const IOther* ot = cetl::get_if<IOther>(&v);
        if ((sh != nullptr) != (type == 4) || (ot != nullptr) != (type == 4))
        {
            bad(cls, "access through a base type is wrong");
        }
        if (type == 4 && (sh->shape() != val || ot->other() != val + 1))
        {
            bad(cls, "access through a base type gives a wrong object");
        }
    }
    void check_slot(const Slot& s, const char* cls) const
    {
        int          t = 0;
        std::int64_t x = 0;
        observe(s, t, x, cls);
        if (t != s.type)
        {
            sim::violation(cls, "variant holds type %d, expected %d", t, s.type);
        }
        if (x != s.val)
        {
            sim::violation(cls, "variant holds value %lld, expected %lld", static_cast<long long>(x), static_cast<long long>(s.val));
        }
        if (s.vbe != 2 && s.v->valueless_by_exception() != (s.vbe == 1))
        {
            sim::violation(cls, "valueless_by_exception() should be %s", s.vbe == 1 ? "true" : "false");
        }
        if (P && res_of(*s.v) != s.res)
        {
            bad("propagate", "variant uses the wrong memory resource");
        }
    }
    void check_all() const
    {
        std::uint64_t h = 0;
        for (const auto& s : s_)
        {
            if (s.v != nullptr)
            {
                check_slot(s, "content");
                h = sim::mix(h, static_cast<std::uint64_t>((s.type + 2) * 16 + s.vbe * 4 + s.res) + (s.v->valueless_by_exception() ? 1000U : 0U));
            }
            else
            {
                h = sim::mix(h, 5);
            }
        }
        sim::state(h);
    }
    bool faulted() const
    {
        return sim::ctx.injected > 0;
    }
    void explain(Res r)
    {
        switch (r)
        {
        case Res::ok:
            sim::outcome(0);
            break;
        case Res::injected:
        case Res::bad_alloc:
            sim::outcome(1);
            break;
        default:
            sim::violation("exc", "unexpected exception: %s", r == Res::std_bad_alloc ? "bad_alloc" : r == Res::length ? "length_error" : sim::last_other.c_str());
        }
#if SIM_EXC
        if (r == Res::ok && sim::ctx.injected_elem + sim::ctx.injected_mem > 0)
        {
            bad("exc", "a failure inside the operation did not reach the caller");
        }
#endif
    }
    /// After an interrupted operation: what it held (a), optionally b, or nothing.
    void resync(Slot& s, const Slot& a, const Slot* b)
    {
        int          t = 0;
        std::int64_t x = 0;
        observe(s, t, x, "atomic");
        if (t != -1 && !(t == a.type && x == a.val) && !(b != nullptr && t == b->type && x == b->val))
        {
            sim::violation("atomic", "interrupted operation left type %d value %lld", t, static_cast<long long>(x));
        }
        s.type = t;
        s.val  = x;
        const int r = res_of(*s.v);
        if (r != a.res && !(b != nullptr && r == b->res))
        {
            bad("propagate", "interrupted operation left a foreign memory resource");
        }
        s.res = r;
    }

    /// A value given as rvalue is moved in.
    template <typename T>
    void taken(const T& t, Res r, std::int64_t was)
    {
        if (r == Res::ok && !faulted() && !std::is_same<T, Plain>::value && t.value() == was)
        {
            bad("transfer", "a value given as rvalue was copied");
        }
    }

    // ---- making
    template <typename... A>
    static V* make(sim::SimResource& r, A&&... a)
    {
        if constexpr (P)
        {
            return new V(&r, std::forward<A>(a)...);
        }
        else
        {
            (void) r;
            return new V(std::forward<A>(a)...);
        }
    }
    void revive(Slot& s, std::int64_t salt)
    {
        if (s.v != nullptr && (s.type >= 0 || salt % 3 != 0))
        {
            return;
        }
        const std::uint64_t rq = requests();
        std::size_t         q[3];
        for (int i = 0; i < 3; ++i)
        {
            q[i]          = mem_[i].quota;
            mem_[i].quota = ~std::size_t{0};
        }
        if (s.v == nullptr)
        {
            s     = Slot{};
            s.res = P ? static_cast<int>(salt / 3 % 3) : 0;
            s.v   = make(res_[s.res]);
        }
        if (salt % 4 != 0)
        {
            const int          k = static_cast<int>(salt / 16 % kTypes);
            const std::int64_t x = 1 + salt % 97;
            with_type<F, Al>(k, [&](auto tag) {
                using T = typename decltype(tag)::type;
                s.v->template emplace<T>(x);
            });
            s.type = k;
            s.val  = x;
            s.vbe  = 0;
        }
        for (int i = 0; i < 3; ++i)
        {
            mem_[i].quota = q[i];
        }
        setup_ += requests() - rq;
    }
    /// Handles the outcome of a construction into an empty slot.
    void built(Slot& s, V* v, Res r, std::size_t before, int res, int type, std::int64_t val, int vbe_fail)
    {
        explain(r);
        if (v == nullptr)
        {
            if (blocks() != before)
            {
                bad("memory", "failed construction leaked memory");
            }
            return;
        }
        s     = Slot{};
        s.v   = v;
        s.res = res;
        if (type >= 0 && !v->has_value())
        {
            if (!faulted())
            {
                bad("noexc", "construction produced no value although nothing failed");
            }
            sim::outcome(1);
            s.vbe = vbe_fail;
            check_slot(s, "atomic");
            return;
        }
        s.type = type;
        s.val  = type >= 0 ? val : 0;
        s.vbe  = type >= 0 ? 0 : (vbe_fail == 3 ? 2 : 0);
        check_slot(s, "content");
    }

    void step(const sim::Step& st)
    {
        const std::size_t si = static_cast<std::size_t>(st.a[0]) % kSlots;
        std::size_t       oi = static_cast<std::size_t>(st.a[2]) % kSlots;
        if (oi == si)
        {
            oi = (oi + 1) % kSlots;
        }
        Slot&              s  = s_[si];
        Slot&              o  = s_[oi];
        const int          k  = static_cast<int>(st.a[1] % kTypes);
        const std::int64_t x  = 1 + st.a[3] % 1000;
        const int          ri = P ? static_cast<int>(st.a[3] / 7 % 3) : 0;
        sim::trace("  slot %zu other %zu type %d value %lld resource %d", si, oi, k, static_cast<long long>(x), ri);
        if (st.op > DESTROY && st.op != QUOTA)
        {
            revive(s, st.a[1] + st.a[3]);
        }
        if (st.op == NEW_COPY || st.op == NEW_MOVE || st.op == COPY_ASSIGN || st.op == MOVE_ASSIGN || st.op == SWAP)
        {
            revive(o, st.a[1] + 2 * st.a[3]);
        }
        switch (st.op)
        {
        case NEW_VALUE:
        case NEW_INPLACE:
        case NEW_MAKE:
        case ASSIGN_VALUE:
        case EMPLACE:
        case EMPLACE_LIST:
            quiet_ = fits(k);
            break;
        case NEW_COPY:
        case COPY_ASSIGN:
            quiet_ = fits(o.type);
            break;
        case SWAP:
            quiet_ = M || (fits(s.type) && fits(o.type));
            break;
        case SELF:
            quiet_ = fits(s.type);
            break;
        default:
            quiet_ = true;
            break;
        }
        if (quiet_ && Footprint > 0 && P && st.op == EMPLACE)
        {
            sim::probe("fits_in_place");
        }
        switch (st.op)
        {
        case NEW_EMPTY:
        {
            kill(s);
            V*                v = nullptr;
            const std::size_t b = blocks();
            Res               r = sim::call([&] { v = make(res_[ri]); });
            built(s, v, r, b, ri, -1, 0, 0);
            return;
        }
        case NEW_VALUE:
        case NEW_INPLACE:
        case NEW_MAKE:
            kill(s);
            with_type<F, Al>(k, [&](auto tag) {
                using T             = typename decltype(tag)::type;
                using I             = typename V::template in_place_type_t<T>;
                V*                v = nullptr;
                const std::size_t b = blocks();
                Res               r{};
                std::int64_t      e = x;
                if (st.op == NEW_VALUE)
                {
                    T        t(x);
                    const T& ct = t;
                    if ((st.a[2] & 8) != 0)
                    {
                        r = sim::call([&] { v = make(res_[ri], std::move(t)); });
                        taken(t, r, x);
                    }
                    else
                    {
                        r = sim::call([&] { v = make(res_[ri], ct); });
                        if (t.value() != x)
                        {
                            bad("content", "copying a value into a variant changed the original");
                        }
                    }
                }
                else if (st.op == NEW_INPLACE)
                {
                    sim::Lent lent{x};
                    switch ((st.a[2] / 8) % 4)
                    {
                    case 0:
                        r = sim::call([&] { v = make(res_[ri], I{}, sim::Given{x}); });
                        break;
                    case 3:
                        r = sim::call([&] { v = make(res_[ri], I{}, lent); });
                        break;
                    case 1:
                        r = sim::call([&] { v = make(res_[ri], I{}, x, std::int64_t{7}); });
                        e = x * 1000 + 7;
                        break;
                    default:
                        r = sim::call([&] { v = make(res_[ri], I{}, std::initializer_list<std::int64_t>{1, 2}, sim::Given{x}); });
                        e = x + 2;
                        break;
                    }
                }
                else
                {
                    sim::Lent lent{x};
                    if constexpr (P)
                    {
                        r = (st.a[2] & 8) != 0
                                ? sim::call([&] { v = new V(cetl::make_unbounded_variant<T, V>(&res_[ri], sim::Given{x})); })
                                : sim::call([&] { v = new V(cetl::make_unbounded_variant<T, V>(&res_[ri], lent)); });
                    }
                    else
                    {
                        r = (st.a[2] & 8) != 0 ? sim::call([&] { v = new V(cetl::make_unbounded_variant<T, V>(sim::Given{x})); })
                                               : sim::call([&] { v = new V(cetl::make_unbounded_variant<T, V>(lent)); });
                    }
                }
                built(s, v, r, b, ri, k, e, 1);
            });
            return;
        case NEW_COPY:
            if constexpr (C)
            {
                kill(s);
                const Slot        was = o;
                V*                v   = nullptr;
                const std::size_t b   = blocks();
                const V&          src = *o.v;
                Res               r   = sim::call([&] { v = new V(src); });
                check_slot(o, "transfer");
                if (o.v->valueless_by_exception())
                {
                    sim::probe("copied_a_valueless_variant");
                }
                built(s, v, r, b, was.res, was.type, was.val, was.type < 0 ? 3 : 1);
            }
            return;
        case NEW_MOVE:
            if constexpr (M)
            {
                kill(s);
                const Slot        was = o;
                V*                v   = nullptr;
                const std::size_t b   = blocks();
                if (o.v->valueless_by_exception())
                {
                    sim::probe("moved_a_valueless_variant");
                }
                Res r  = sim::call([&] { v = new V(std::move(*o.v)); });
                o.type = -1;
                o.val  = 0;
                o.vbe  = was.type >= 0 ? 0 : 2;
                check_slot(o, "transfer");
                built(s, v, r, b, was.res, was.type, was.val, was.type < 0 ? 3 : 1);
            }
            return;
        case DESTROY:
            kill(s);
            sim::outcome(0);
            return;
        case COPY_ASSIGN:
            if constexpr (C)
            {
                const Slot was = s;
                const V&   src = *o.v;
                if (src.valueless_by_exception())
                {
                    sim::probe("assigned_from_a_valueless_variant");
                }
                Res r = sim::call([&] { *s.v = src; });
                explain(r);
                check_slot(o, "transfer");
                if (r != Res::ok || (o.type >= 0 && !s.v->has_value()))
                {
                    if (!faulted())
                    {
                        bad("noexc", "copy assignment lost the value although nothing failed");
                    }
                    sim::outcome(1);
                    Slot alt = o;
                    alt.type = was.type;
                    alt.val  = was.val;
                    resync(s, was, &alt);
                    s.vbe = s.type >= 0 ? 0 : 1;
                    return;
                }
                s.type = o.type;
                s.val  = o.val;
                s.res  = o.res;
                s.vbe  = o.type >= 0 ? 0 : 2;
                check_slot(s, "transfer");
            }
            return;
        case MOVE_ASSIGN:
            if constexpr (M)
            {
                const Slot was = o;
                Res        r   = sim::call([&] { *s.v = std::move(*o.v); });
                explain(r);
                s.type = was.type;
                s.val  = was.val;
                s.res  = was.res;
                s.vbe  = was.type >= 0 ? 0 : 2;
                o.type = -1;
                o.val  = 0;
                o.vbe  = 2;
                check_slot(s, "transfer");
                check_slot(o, "transfer");
            }
            return;
        case ASSIGN_VALUE:
        case EMPLACE:
        case EMPLACE_LIST:
            with_type<F, Al>(k, [&](auto tag) {
                using T        = typename decltype(tag)::type;
                const Slot was = s;
                Res        r{};
                T*         p = nullptr;
                auto       e = x;
                if (st.op == ASSIGN_VALUE)
                {
                    T        t(x);
                    const T& ct = t;
                    r           = (st.a[2] & 8) != 0 ? sim::call([&] { *s.v = std::move(t); }) : sim::call([&] { *s.v = ct; });
                    if ((st.a[2] & 8) != 0)
                    {
                        taken(t, r, x);
                    }
                    if ((st.a[2] & 8) == 0 && t.value() != x)
                    {
                        bad("content", "copying a value into a variant changed the original");
                    }
                }
                else if (st.op == EMPLACE)
                {
                    if ((st.a[2] & 8) != 0)
                    {
                        r = sim::call([&] { p = s.v->template emplace<T>(sim::Given{x}); });
                    }
                    else
                    {
                        sim::Lent lent{x};
                        r = sim::call([&] { p = s.v->template emplace<T>(lent, std::int64_t{3}); });
                        e = x * 1000 + 3;
                    }
                }
                else
                {
                    r = sim::call([&] { p = s.v->template emplace<T>(std::initializer_list<std::int64_t>{4, 5, 6}, sim::Given{x}); });
                    e = x + 3;
                }
                explain(r);
                const bool emp = st.op != ASSIGN_VALUE;
                if (r != Res::ok || (emp ? p == nullptr : (faulted() && !s.v->has_value())))
                {
                    if (!faulted())
                    {
                        bad("noexc", "putting in a value failed although nothing failed");
                    }
                    sim::outcome(1);
                    resync(s, was, nullptr);
                    s.vbe = s.type >= 0 ? 0 : 1;
                    if (s.vbe == 1 && !s.v->valueless_by_exception())
                    {
                        bad("content", "failed operation is not reported by valueless_by_exception()");
                    }
                    return;
                }
                s.type = k;
                s.val  = e;
                s.vbe  = 0;
                check_slot(s, "content");
                if (emp && p != cetl::get_if<T>(s.v))
                {
                    bad("content", "emplace returned a pointer to something else");
                }
            });
            return;
        case SWAP:
            if constexpr (C || M)
            {
                const Slot ws = s;
                const Slot wo = o;
                if (s.v->valueless_by_exception() || o.v->valueless_by_exception())
                {
                    sim::probe("swapped_a_valueless_variant");
                }
                Res r = sim::call([&] { s.v->swap(*o.v); });
                explain(r);
                if (r != Res::ok || faulted())
                {
                    sim::outcome(1);
                    resync(s, ws, &wo);
                    resync(o, wo, &ws);
                    s.vbe = s.type >= 0 ? 0 : 2;
                    o.vbe = o.type >= 0 ? 0 : 2;
                    return;
                }
                s.type = wo.type;
                s.val  = wo.val;
                s.res  = wo.res;
                s.vbe  = wo.type >= 0 ? 0 : 2;
                o.type = ws.type;
                o.val  = ws.val;
                o.res  = ws.res;
                o.vbe  = ws.type >= 0 ? 0 : 2;
                check_slot(s, "transfer");
                check_slot(o, "transfer");
                if (ws.res != wo.res)
                {
                    sim::probe("swap_between_resources");
                }
            }
            return;
        case RESET:
        case RESET_RES:
        {
            Res r{};
            if (st.op == RESET)
            {
                r = sim::call([&] { s.v->reset(); });
            }
            else if constexpr (P)
            {
                r     = sim::call([&] { s.v->reset(&res_[ri]); });
                s.res = ri;
            }
            else
            {
                return;
            }
            explain(r);
            s.type = -1;
            s.val  = 0;
            s.vbe  = 0;
            check_slot(s, "content");
            return;
        }
        case SELF:
        {
            V&  alias = *s.v;
            Res r{};
            switch (st.a[2] % 3)
            {
            case 0:
                if constexpr (C)
                {
                    r = sim::call([&] { *s.v = static_cast<const V&>(alias); });
                }
                break;
            case 1:
                if constexpr (M)
                {
                    r = sim::call([&] { *s.v = std::move(alias); });
                }
                break;
            default:
                if constexpr (C || M)
                {
                    r = sim::call([&] { s.v->swap(alias); });
                }
                break;
            }
            explain(r);
            check_slot(s, "transfer");
            return;
        }
        case WRITE:
            if (s.type >= 0)
            {
                with_type<F, Al>(s.type, [&](auto tag) {
                    using T = typename decltype(tag)::type;
                    cetl::get_if<T>(s.v)->set(x);
                });
                s.val = x;
                sim::outcome(0);
            }
            return;
        case GET_WRONG:
#if SIM_EXC
        {
            const int w      = (s.type + 1 + k % (kTypes - 1)) % kTypes;
            bool      thrown = false;
            if (w == s.type)
            {
                return;
            }
            with_type<F, Al>(w, [&](auto tag) {
                using T = typename decltype(tag)::type;
                try
                {
                    switch (st.a[2] % 3)
                    {
                    case 0:
                        (void) cetl::get<const T&>(static_cast<const V&>(*s.v));
                        break;
                    case 1:
                        (void) cetl::get<T&>(*s.v);
                        break;
                    default:
                        (void) cetl::get<T&&>(std::move(*s.v));
                        break;
                    }
                } catch (const cetl::bad_unbounded_variant_access&)
                {
                    thrown = true;
                }
            });
            if (!thrown)
            {
                bad("content", "access with a wrong type did not report bad access");
            }
            sim::outcome(0);
        }
#endif
            return;
        case GET_COPY:
            if (s.type >= 0)
            {
                with_type<F, Al>(s.type, [&](auto tag) {
                    using T         = typename decltype(tag)::type;
                    std::int64_t g  = -1;
                    Res          r  = sim::call([&] {
                        switch (st.a[2] % 3)
                        {
                        case 0:
                        {
                            T t = cetl::get<T>(static_cast<const V&>(*s.v));
                            g   = t.value();
                            break;
                        }
                        case 1:
                        {
                            T t = cetl::get<T>(*s.v);
                            g   = t.value();
                            break;
                        }
                        default:
                        {
                            T t = cetl::get<T>(std::move(*s.v));
                            g   = t.value();
                            break;
                        }
                        }
                    });
                    explain(r);
                    if (st.a[2] % 3 == 2)
                    {
                        const T* const now = cetl::get_if<T>(static_cast<const V*>(s.v));
                        if (now == nullptr)
                        {
                            bad("content", "taking the value by get() emptied the variant");
                        }
                        if (r == Res::ok && !std::is_same<T, Plain>::value && now->value() != sim::kMoved)
                        {
                            bad("transfer", "get() from an rvalue copied the value");
                        }
                        if (r == Res::ok && g != s.val)
                        {
                            bad("content", "get() from an rvalue gives a wrong value");
                        }
                        if (now->value() != s.val && now->value() != sim::kMoved)
                        {
                            bad("content", "get() from an rvalue damaged the value");
                        }
                        s.val = now->value();
                        return;
                    }
                    if (r == Res::ok && g != s.val)
                    {
                        bad("content", "get() by value gives a wrong value");
                    }
                });
            }
            return;
        case QUOTA:
        {
            auto& m = mem_[st.a[1] % 3];
            m.quota = (st.a[3] % 2) != 0 ? ~std::size_t{0} : m.live_bytes() + static_cast<std::size_t>(st.a[2]) % 200;
            sim::outcome(0);
            return;
        }
        default:
            return;
        }
    }

    Mem              mem_[3]{Mem{0}, Mem{1}, Mem{2}};
    sim::SimResource res_[3]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}, sim::SimResource{mem_[2]}};
    Slot             s_[kSlots];
    std::uint64_t    setup_{0};     // requests made while preparing a step
    bool             quiet_{true};  // this step must not ask for memory
};

template <std::size_t Footprint, bool C, bool M, bool P, std::size_t Al = 16>
void exec(const sim::Plan& p)
{
    W<Footprint, C, M, P, Al> w(p);
    w.run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "uv",
        {{"new_empty", 2},  {"new_value", 5},    {"new_inplace", 4}, {"new_make", 3},    {"new_copy", 6}, {"new_move", 6}, {"destroy", 2},
         {"copy_assign", 9}, {"move_assign", 9}, {"assign_value", 10}, {"emplace", 9},   {"emplace_list", 3}, {"swap", 12},
         {"reset", 3},      {"reset_resource", 4}, {"self", 2},      {"write", 2},       {"get_wrong", 2}, {"get_copy", 2}, {"quota", 2}},
        {{"inplace_cm", &exec<256, true, true, false>, 2},
         {"inplace_c", &exec<256, true, false, false>, 1},
         {"inplace_m", &exec<256, false, true, false>, 1},
         {"inplace_none", &exec<256, false, false, false>, 1},
         {"pmr_cm", &exec<0, true, true, true>, 3},
         {"pmr_c", &exec<0, true, false, true>, 2},
         {"pmr_m", &exec<0, false, true, true>, 2},
         {"pmr_none", &exec<0, false, false, true>, 1},
         {"both_cm", &exec<32, true, true, true>, 4},
         {"both_c", &exec<32, true, false, true>, 3},
         {"both_m", &exec<32, false, true, true>, 2},
         {"both_none", &exec<32, false, false, true>, 1},
         {"wide_inplace_cm", &exec<256, true, true, false, 64>, 1},
         {"wide_pmr_cm", &exec<0, true, true, true, 64>, 1},
         {"wide_both_cm", &exec<64, true, true, true, 64>, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "unbounded_variant, rtti, memory_resource base",
        "memory resources, value types",
    };
    return w;
}
