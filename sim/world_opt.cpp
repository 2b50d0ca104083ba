// World: several optionals of same and converting types whose contained objects can fail at any of their operations.
#include "sim.hpp"
#include <cetl/pf17/optional.hpp>
#include <initializer_list>
#include <memory>
#include <type_traits>

namespace
{
using sim::Res;
using cetl::pf17::nullopt;
using cetl::pf17::optional;

enum Op : int
{
    MAKE_EMPTY,
    MAKE_INPLACE,
    MAKE_LIST,
    MAKE_VALUE,
    COPY_CTOR,
    MOVE_CTOR,
    CONV_CTOR,
    CONV_MOVE_CTOR,
    ASSIGN_NULL,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    SELF_ASSIGN,
    VALUE_ASSIGN,
    RVALUE_ASSIGN,
    NUMBER_ASSIGN,
    OWN_VALUE_ASSIGN,
    CONV_ASSIGN,
    CONV_MOVE_ASSIGN,
    EMPLACE,
    EMPLACE_LIST,
    SWAP,
    SELF_SWAP,
    RESET,
    ACCESS,
    TAKE,
    VALUE_OR,
    COMPARE,
    WRITE,
    OP_COUNT
};

constexpr int kSlots = 4;

/// Sources of conversions, implicit and explicit.
template <bool Explicit>
struct Src
{
    explicit Src(std::int64_t x) noexcept
        : v(x)
    {
    }
    Src(const Src&) = default;
    Src(Src&& o) noexcept
        : v(o.v)
    {
        o.v = sim::kMoved;
    }
    Src& operator=(const Src&) = default;
    std::int64_t v;
};
using Num = Src<false>;
using Exp = Src<true>;

// What every contained class has in common.
#define CONVERSIONS(C)                      \
    C(const Num& n)                         \
        : C(n.v)                            \
    {                                       \
    }                                       \
    C(Num&& n)                              \
        : C(n.v)                            \
    {                                       \
        n.v = sim::kMoved;                  \
    }                                       \
    explicit C(const Exp& n)                \
        : C(n.v)                            \
    {                                       \
    }                                       \
    explicit C(Exp&& n)                     \
        : C(n.v)                            \
    {                                       \
        n.v = sim::kMoved;                  \
    }                                       \
    template <bool E>                       \
    C& operator=(const Src<E>& n)           \
    {                                       \
        return *this = std::int64_t(n.v);   \
    }                                       \
    template <bool E>                       \
    C& operator=(Src<E>&& n)                \
    {                                       \
        *this = std::int64_t(n.v);          \
        n.v   = sim::kMoved;                \
        return *this;                       \
    }

template <int Tag, unsigned Flags>
class Obj : public sim::Tracked<Tag, Flags>
{
    using B = sim::Tracked<Tag, Flags>;

public:
    Obj(std::int64_t v)
        : B(v)
    {
    }
    Obj(std::initializer_list<int> l, std::int64_t v)
        : B(v + static_cast<std::int64_t>(l.size()))
    {
    }
    CONVERSIONS(Obj)
    Obj(const Obj&)            = default;
    Obj(Obj&&)                 = default;
    Obj& operator=(const Obj&) = default;
    Obj& operator=(Obj&&)      = default;
    Obj& operator=(std::int64_t v)
    {
        this->check("assigned to");
        sim::user_point(sim::K_COPYASSIGN);
        this->set(v);
        return *this;
    }
    bool operator==(const Obj& o) const
    {
        return B::operator==(o);
    }
    bool operator!=(const Obj& o) const
    {
        return !B::operator==(o);
    }
    bool operator<(const Obj& o) const
    {
        return this->value() < o.value();
    }
    bool operator>(const Obj& o) const
    {
        return this->value() > o.value();
    }
    bool operator<=(const Obj& o) const
    {
        return this->value() <= o.value();
    }
    bool operator>=(const Obj& o) const
    {
        return this->value() >= o.value();
    }
};
/// Copy operations deleted.
template <int Tag, unsigned Flags>
class MoveOnly : public sim::TrackedMO<Tag, Flags>
{
    using B = sim::TrackedMO<Tag, Flags>;

public:
    MoveOnly(std::int64_t v)
        : B(v)
    {
    }
    MoveOnly(std::initializer_list<int> l, std::int64_t v)
        : B(v + static_cast<std::int64_t>(l.size()))
    {
    }
    CONVERSIONS(MoveOnly)
#if SIM_LEAN
    MoveOnly(const MoveOnly&)            = default;
    MoveOnly& operator=(const MoveOnly&) = default;
#endif
    MoveOnly(MoveOnly&&)            = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    MoveOnly& operator=(std::int64_t v)
    {
        this->check("assigned to");
        sim::user_point(sim::K_COPYASSIGN);
        this->set(v);
        return *this;
    }
    bool operator==(const MoveOnly& o) const
    {
        return B::operator==(o);
    }
    bool operator!=(const MoveOnly& o) const
    {
        return !B::operator==(o);
    }
    bool operator<(const MoveOnly& o) const
    {
        return this->value() < o.value();
    }
    bool operator>(const MoveOnly& o) const
    {
        return this->value() > o.value();
    }
    bool operator<=(const MoveOnly& o) const
    {
        return this->value() <= o.value();
    }
    bool operator>=(const MoveOnly& o) const
    {
        return this->value() >= o.value();
    }
};
/// Trivially destructible, but copies and moves are not trivial and can fail.
class Pod
{
public:
    Pod(std::int64_t v)
        : v_(v)
    {
        sim::user_point(sim::K_CTOR);
    }
    Pod(std::initializer_list<int> l, std::int64_t v)
        : v_(v + static_cast<std::int64_t>(l.size()))
    {
        sim::user_point(sim::K_CTOR);
    }
    CONVERSIONS(Pod)
    Pod(const Pod& o)
        : v_(o.v_)
    {
        sim::user_point(sim::K_COPY);
    }
    Pod(Pod&& o)
    {
        sim::user_point(sim::K_MOVE);
        v_   = o.v_;
        o.v_ = sim::kMoved;
    }
    Pod& operator=(const Pod& o)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = o.v_;
        return *this;
    }
    Pod& operator=(Pod&& o)
    {
        sim::user_point(sim::K_MOVEASSIGN);
        if (this != &o)
        {
            v_   = o.v_;
            o.v_ = sim::kMoved;
        }
        return *this;
    }
    Pod& operator=(std::int64_t v)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = v;
        return *this;
    }
    std::int64_t value() const
    {
        return v_;
    }
    void set(std::int64_t v)
    {
        v_ = v;
    }
    bool operator==(const Pod& o) const
    {
        return v_ == o.v_;
    }
    bool operator!=(const Pod& o) const
    {
        return v_ != o.v_;
    }
    bool operator<(const Pod& o) const
    {
        return v_ < o.v_;
    }
    bool operator>(const Pod& o) const
    {
        return v_ > o.v_;
    }
    bool operator<=(const Pod& o) const
    {
        return v_ <= o.v_;
    }
    bool operator>=(const Pod& o) const
    {
        return v_ >= o.v_;
    }

private:
    std::int64_t v_;
};
static_assert(std::is_trivially_destructible<Pod>::value, "");

/// Construction, assignment or destruction is trivial where the others are not.
template <int Tag, bool C, bool A, bool D>
class Mix
{
public:
    Mix(std::int64_t v)
        : v_(v)
    {
        sim::user_point(sim::K_CTOR);
    }
    Mix(std::initializer_list<int> l, std::int64_t v)
        : Mix(v + static_cast<std::int64_t>(l.size()))
    {
    }
    CONVERSIONS(Mix)
    Mix(const Mix&)            = default;
    Mix(Mix&&)                 = default;
    Mix& operator=(const Mix&) = default;
    Mix& operator=(Mix&&)      = default;
    Mix& operator=(std::int64_t v)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = v;
        return *this;
    }
    std::int64_t value() const
    {
        return v_;
    }
    void set(std::int64_t v)
    {
        v_ = v;
    }
    bool operator==(const Mix& o) const
    {
        return v_ == o.v_;
    }
    bool operator!=(const Mix& o) const
    {
        return v_ != o.v_;
    }
    bool operator<(const Mix& o) const
    {
        return v_ < o.v_;
    }
    bool operator>(const Mix& o) const
    {
        return v_ > o.v_;
    }
    bool operator<=(const Mix& o) const
    {
        return v_ <= o.v_;
    }
    bool operator>=(const Mix& o) const
    {
        return v_ >= o.v_;
    }

private:
    sim::CtorPart<C>        c_;
    sim::AssignPart<A>      a_;
    sim::DtorPart<D, Tag>   d_;
    std::int64_t            v_;
};
template <typename T>
struct IsMix : std::false_type
{};
template <int Tag, bool C, bool A, bool D>
struct IsMix<Mix<Tag, C, A, D>> : std::true_type
{};
/// Objects of the type are known to the registry of living objects.
template <typename T>
struct Counted : std::true_type
{};
template <>
struct Counted<Pod> : std::false_type
{};
template <>
struct Counted<std::int64_t> : std::false_type
{};
template <int Tag, bool C, bool A>
struct Counted<Mix<Tag, C, A, false>> : std::false_type
{};

template <typename T>
std::int64_t get(const T& v)
{
    return v.value();
}
inline std::int64_t get(std::int64_t v)
{
    return v;
}
template <typename T>
void put(T& t, std::int64_t v)
{
    t.set(v);
}
inline void put(std::int64_t& t, std::int64_t v)
{
    t = v;
}

template <typename T>
void assign(optional<T>& o, const T& v)
{
    o = v;
}
inline void assign(optional<std::int64_t>& o, const std::int64_t& v)
{
    o = std::int64_t(v);  // an optional scalar does not accept a const lvalue
}

template <typename T>
class W final
{
    using O = optional<T>;
    static constexpr bool kTrivial = std::is_same<T, std::int64_t>::value;
    static constexpr bool kCopy    = std::is_copy_constructible<T>::value;

    struct Slot
    {
        O*           o{nullptr};
        bool         on{false};
        std::int64_t v{0};
    };

public:
    explicit W(const sim::Plan&)
    {
        for (int i = 0; i < kSlots; ++i)
        {
            s_[i].o = new O();
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            delete s.o;
        }
        sim::life.check_empty("all optionals destroyed");
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    void check_all()
    {
        std::uint64_t h  = 0;
        std::size_t   on = 0;
        for (const auto& s : s_)
        {
            const O& o = *s.o;
            if (o.has_value() != s.on || static_cast<bool>(o) != s.on)
            {
                bad("content", s.on ? "optional lost its value" : "optional is engaged without a value");
            }
            if (s.on)
            {
                ++on;
                if (get(*o) != s.v)
                {
                    sim::violation("content", "optional holds %lld instead of %lld", static_cast<long long>(get(*o)), static_cast<long long>(s.v));
                }
                if (get(o.value()) != s.v || o.operator->() != &*o)
                {
                    bad("content", "checked and unchecked access differ");
                }
            }
            h = sim::mix(h, s.on ? (s.v == sim::kMoved ? 2U : 1U) : 0U);
        }
        if (Counted<T>::value && sim::life.count() != on)
        {
            sim::violation("lifetime", "%zu objects alive in %zu engaged optionals", sim::life.count(), on);
        }
        sim::state(h);
    }
    /// Reports how a call ended; true if it succeeded.
    bool done(Res r)
    {
        if (r == Res::ok)
        {
#if SIM_EXC
            if (sim::ctx.injected > 0)
            {
                bad("exc", "a failure inside the operation did not reach the caller");
            }
#endif
            sim::outcome(0);
            return true;
        }
        if (r != Res::injected)
        {
            bad("exc", "unexpected exception");
        }
        sim::outcome(1);
        return false;
    }
    static std::int64_t moved(std::int64_t v)
    {
        return kTrivial || IsMix<T>::value ? v : sim::kMoved;
    }
    template <typename F>
    void rebuild(Slot& s, bool on, std::int64_t v, F f)
    {
        delete s.o;
        s.o = nullptr;
        O* n{nullptr};
        if (done(sim::call([&] { n = f(); })))
        {
            s.o  = n;
            s.on = on;
            s.v  = v;
        }
        else
        {
            s.o  = new O();
            s.on = false;
        }
    }
    /// Engages the slot in most cases so that operations have something to act on.
    void prime(Slot& s, std::int64_t salt)
    {
        if (!s.on && salt % 3 != 0)
        {
            s.o->emplace(1 + salt % 40);
            s.on = true;
            s.v  = 1 + salt % 40;
        }
    }

    /// The source of a conversion afterwards.
    template <typename S>
    void source(const optional<S>& n, bool on, std::int64_t x, bool move)
    {
        if (n.has_value() != on)
        {
            bad("content", "conversion changed the engagement of its source");
        }
        if (on && n->v != x && !(move && n->v == sim::kMoved))
        {
            bad("content", "conversion changed its source");
        }
        if (on && move && sim::ctx.injected == 0 && n->v != sim::kMoved)
        {
            bad("content", "source of a converting move was copied");
        }
    }
    template <typename S>
    void conv_ctor(Slot& s, std::int64_t x, bool on, bool move)
    {
        optional<S> n;
        if (on)
        {
            n.emplace(x);
        }
        rebuild(s, on, x, [&] { return move ? new O(std::move(n)) : new O(static_cast<const optional<S>&>(n)); });
        source(n, on, x, move);
    }
    template <typename S>
    void conv_assign(Slot& s, std::int64_t x, bool on, bool move)
    {
        optional<S> n;
        if (on)
        {
            n.emplace(x);
        }
        const Res r = move ? sim::call([&] { *s.o = std::move(n); }) : sim::call([&] { *s.o = static_cast<const optional<S>&>(n); });
        if (done(r))
        {
            s.on = on;
            s.v  = x;
        }
        source(n, on, x, move);
    }

    /// All six comparisons against what they must say.
    template <typename L, typename R>
    static void compare(const L& a, const R& b, bool eq, bool lt, const char* what)
    {
        if ((a == b) != eq || (a != b) == eq || (a < b) != lt || (a >= b) == lt || (a <= b) != (lt || eq) || (a > b) == (lt || eq))
        {
            bad("content", what);
        }
    }

    void step(const sim::Step& st)
    {
        const int          i = static_cast<int>(st.a[0] % kSlots);
        const int          j = static_cast<int>((i + 1 + st.a[1] % (kSlots - 1)) % kSlots);
        const std::int64_t x = 1 + st.a[3] % 1000;
        Slot&              s = s_[i];
        Slot&              o = s_[j];
        switch (st.op)
        {
        case MAKE_EMPTY:
            rebuild(s, false, 0, [&] { return st.a[1] % 2 == 0 ? new O() : new O(nullopt); });
            return;
        case MAKE_INPLACE:
            {
                sim::Lent lent{x};
                rebuild(s, true, x, [&] {
                    return st.a[1] % 2 == 0 ? new O(cetl::pf17::in_place, lent) : new O(cetl::pf17::in_place, sim::Given{x});
                });
            }
            return;
        case MAKE_LIST:
            if constexpr (!kTrivial)
            {
                rebuild(s, true, x + 3, [&] { return new O(cetl::pf17::in_place, {1, 2, 3}, sim::Given{x}); });
            }
            return;
        case MAKE_VALUE:
        {
            std::unique_ptr<T> v;
            if (!done(sim::call([&] { v = std::make_unique<T>(x); })))
            {
                return;
            }
            if constexpr (kCopy)
            {
                if (st.a[1] % 2 == 0)
                {
                    const T& c = *v;
                    rebuild(s, true, x, [&] { return new O(c); });
                    return;
                }
            }
            rebuild(s, true, x, [&] { return new O(std::move(*v)); });
            return;
        }
        case COPY_CTOR:
            prime(o, st.a[2]);
            if constexpr (kCopy)
            {
                const O& c = *o.o;
                rebuild(s, o.on, o.v, [&] { return new O(c); });
            }
            return;
        case MOVE_CTOR:
        {
            prime(o, st.a[2]);
            rebuild(s, o.on, o.v, [&] { return new O(std::move(*o.o)); });
            after_move(o);
            return;
        }
        case CONV_CTOR:
        case CONV_MOVE_CTOR:
            if constexpr (!kTrivial)
            {
                if (st.a[1] % 2 == 0)
                {
                    conv_ctor<Num>(s, x, st.a[2] % 3 != 0, st.op == CONV_MOVE_CTOR);
                }
                else
                {
                    conv_ctor<Exp>(s, x, st.a[2] % 3 != 0, st.op == CONV_MOVE_CTOR);
                }
            }
            return;
        case ASSIGN_NULL:
            prime(s, st.a[2]);
            (void) done(sim::call([&] { *s.o = nullopt; }));
            s.on = false;
            return;
        case RESET:
            prime(s, st.a[2]);
            (void) done(sim::call([&] { s.o->reset(); }));
            s.on = false;
            return;
        case COPY_ASSIGN:
            prime(o, st.a[2]);
            prime(s, st.a[3]);
            if constexpr (kCopy)
            {
                if (done(sim::call([&] { *s.o = *o.o; })))
                {
                    s.on = o.on;
                    s.v  = o.v;
                }
            }
            return;
        case MOVE_ASSIGN:
            prime(o, st.a[2]);
            prime(s, st.a[3]);
            if (done(sim::call([&] { *s.o = std::move(*o.o); })))
            {
                s.on = o.on;
                s.v  = o.v;
            }
            after_move(o);
            return;
        case SELF_ASSIGN:
            prime(s, st.a[2]);
            if constexpr (kCopy)
            {
                const O& c = *s.o;
                (void) done(sim::call([&] { *s.o = c; }));
            }
            return;
        case VALUE_ASSIGN:
        case RVALUE_ASSIGN:
        {
            prime(s, st.a[2]);
            std::unique_ptr<T> v;
            if (!done(sim::call([&] { v = std::make_unique<T>(x); })))
            {
                return;
            }
            bool ok = false;
            if (st.op == RVALUE_ASSIGN || !kCopy)
            {
                ok = done(sim::call([&] { *s.o = std::move(*v); }));
            }
            else if constexpr (kCopy)
            {
                const T& c = *v;
                ok         = done(sim::call([&] { assign(*s.o, c); }));
                if (get(c) != x)
                {
                    bad("content", "assignment changed its source");
                }
            }
            if (ok)
            {
                s.on = true;
                s.v  = x;
            }
            return;
        }
        case NUMBER_ASSIGN:
            prime(s, st.a[2]);
            if (done(sim::call([&] { *s.o = std::int64_t(x); })))
            {
                s.on = true;
                s.v  = x;
            }
            return;
        case OWN_VALUE_ASSIGN:
            prime(s, 1);
            if constexpr (kCopy)
            {
                if (s.on)
                {
                    (void) done(sim::call([&] { assign(*s.o, **s.o); }));
                }
            }
            return;
        case CONV_ASSIGN:
        case CONV_MOVE_ASSIGN:
            prime(s, st.a[2]);
            if constexpr (!kTrivial)
            {
                if (st.a[1] % 2 == 0)
                {
                    conv_assign<Num>(s, x, st.a[1] % 3 != 0, st.op == CONV_MOVE_ASSIGN);
                }
                else
                {
                    conv_assign<Exp>(s, x, st.a[1] % 3 != 0, st.op == CONV_MOVE_ASSIGN);
                }
            }
            return;
        case EMPLACE:
            prime(s, st.a[2]);
            if (done(sim::call([&] {
                    sim::Lent lent{x};
                    (void) (st.a[3] % 2 == 0 ? s.o->emplace(lent) : s.o->emplace(sim::Given{x}));
                })))
            {
                s.on = true;
                s.v  = x;
            }
            else
            {
                s.on = false;
            }
            return;
        case EMPLACE_LIST:
            prime(s, st.a[2]);
            if constexpr (!kTrivial)
            {
                if (done(sim::call([&] { (void) s.o->emplace({4, 5}, sim::Given{x}); })))
                {
                    s.on = true;
                    s.v  = x + 2;
                }
                else
                {
                    s.on = false;
                }
            }
            return;
        case SWAP:
            prime(s, st.a[2]);
            prime(o, st.a[3]);
            if (done(sim::call([&] {
                    s.o->swap(*o.o);
                })))
            {
                std::swap(s.on, o.on);
                std::swap(s.v, o.v);
            }
            else if (s.on && o.on)
            {
                // the exchange of two values stopped in the middle: which values remain is up to the contained type
                half_swapped(s, o);
            }
            return;
        case SELF_SWAP:
            prime(s, st.a[2]);
            if (!done(sim::call([&] { s.o->swap(*s.o); })) && s.on)
            {
                s.v = s.o->has_value() ? get(**s.o) : s.v;
            }
            return;
        case ACCESS:
            if (st.a[2] % 2 == 0)
            {
                prime(s, st.a[2]);
            }
#if SIM_EXC
            {
                bool thrown = false;
                try
                {
                    if (get(s.o->value()) != s.v)
                    {
                        bad("content", "checked access returned a wrong value");
                    }
                } catch (const cetl::pf17::bad_optional_access&)
                {
                    thrown = true;
                }
                if (thrown == s.on)
                {
                    bad("content", "checked access does not agree with engagement");
                }
            }
#endif
            sim::outcome(0);
            return;
        case TAKE:
            prime(s, st.a[2]);
            if (s.on)
            {
                std::unique_ptr<T> v;
                if (done(sim::call([&] {
                        v = (st.a[1] & 1) != 0 ? std::make_unique<T>(std::move(*s.o).value()) : std::make_unique<T>(*std::move(*s.o));
                    })))
                {
                    if (get(*v) != s.v)
                    {
                        bad("content", "value moved out is wrong");
                    }
                    s.v = moved(s.v);
                }
            }
            return;
        case VALUE_OR:
            prime(s, st.a[2]);
            {
                std::unique_ptr<T> v;
                const bool         move_out = st.a[1] % 2 == 0 || !kCopy;
                const Res          r        = sim::call([&] {
                    if (move_out)
                    {
                        v = std::make_unique<T>(std::move(*s.o).value_or(x));
                    }
                    else if constexpr (kCopy)
                    {
                        const O& c = *s.o;
                        v          = std::make_unique<T>(c.value_or(x));
                    }
                });
                if (done(r))
                {
                    if (get(*v) != (s.on ? s.v : x))
                    {
                        bad("content", "value_or returned a wrong value");
                    }
                }
                if (s.on && move_out)
                {
                    // only the contained value may have been moved out
                    const std::int64_t now = s.o->has_value() ? get(**s.o) : s.v;
                    if (now != s.v && now != moved(s.v))
                    {
                        bad("content", "value_or changed the value");
                    }
                    if (r == Res::ok && now != moved(s.v))
                    {
                        bad("transfer", "value_or copied the value of an optional given away");
                    }
                    s.v = now;
                }
            }
            return;
        case COMPARE:
        {
            prime(s, st.a[2]);
            prime(o, st.a[3]);
            const O& a = *s.o;
            const O& b = *o.o;
            compare(a, b, s.on == o.on && (!s.on || s.v == o.v), o.on && (!s.on || s.v < o.v), "comparison is wrong");
            compare(a, a, true, false, "comparison with itself is wrong");
            compare(a, nullopt, !s.on, false, "comparison with nothing is wrong");
            compare(nullopt, a, !s.on, s.on, "comparison with nothing is wrong");
            if (s.on)
            {
                const T& v = *a;
                compare(b, v, o.on && o.v == s.v, !o.on || o.v < s.v, "comparison with a value is wrong");
                compare(v, b, o.on && o.v == s.v, o.on && s.v < o.v, "comparison with a value is wrong");
            }
            sim::outcome(0);
            return;
        }
        case WRITE:
            prime(s, 1);
            if (s.on)
            {
                put(**s.o, x);
                s.v = x;
                sim::outcome(0);
            }
            return;
        default:
            return;
        }
    }
    /// A moved-from optional stays engaged; its object was moved from unless the move failed.
    void after_move(Slot& o)
    {
        if (o.on && o.o->has_value())
        {
            const std::int64_t now = get(**o.o);
            if (now != o.v && now != moved(o.v))
            {
                bad("content", "move changed the source beyond moving from it");
            }
            if (sim::ctx.injected == 0 && now != moved(o.v))
            {
                bad("content", "value was copied instead of moved");
            }
            o.v = now;
        }
    }
    void half_swapped(Slot& s, Slot& o)
    {
        if (!s.o->has_value() || !o.o->has_value())
        {
            return;  // check_all reports it
        }
        const std::int64_t a = get(**s.o);
        const std::int64_t b = get(**o.o);
        if ((a != s.v && a != o.v && a != sim::kMoved) || (b != s.v && b != o.v && b != sim::kMoved))
        {
            bad("content", "a failed swap produced a foreign value");
        }
        s.v = a;
        o.v = b;
    }

    Slot s_[kSlots];
};

template <typename T>
void exec(const sim::Plan& p)
{
    W<T> w(p);
    w.run(p);
}

using AllThrow  = Obj<1, sim::F_COPY | sim::F_MOVE>;
using SafeMove  = Obj<2, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE>;
using SafeCopy  = Obj<3, sim::F_COPY | sim::F_MOVE | sim::F_NTCOPY>;
using OnlyMove  = MoveOnly<4, sim::F_MOVE>;
using OnlyMoveS = MoveOnly<5, sim::F_MOVE | sim::F_NTMOVE>;
using HalfCtor  = Obj<6, sim::F_COPY | sim::F_MOVE | sim::F_NTMC | sim::F_NTCC>;
using HalfAsgn  = Obj<7, sim::F_COPY | sim::F_MOVE | sim::F_NTMA | sim::F_NTCA>;
using NoThrow   = Obj<8, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE | sim::F_NTCOPY>;

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "opt",
        {{"make_empty", 1},   {"make_inplace", 3}, {"make_list", 1},  {"make_value", 3},   {"copy_ctor", 4},       {"move_ctor", 4},
         {"conv_ctor", 2},    {"conv_move_ctor", 2}, {"assign_null", 2}, {"copy_assign", 6}, {"move_assign", 6},     {"self_assign", 1},
         {"value_assign", 3}, {"rvalue_assign", 3}, {"number_assign", 3}, {"own_value", 1},  {"conv_assign", 2},     {"conv_move_assign", 2},
         {"emplace", 4},      {"emplace_list", 1}, {"swap", 6},       {"self_swap", 1},    {"reset", 2},           {"access", 2},
         {"take", 2},         {"value_or", 2},     {"compare", 2},    {"write", 2}},
        {{"all_throw", &exec<AllThrow>, 2},
         {"safe_move", &exec<SafeMove>, 2},
         {"safe_copy", &exec<SafeCopy>, 1},
         {"move_only", &exec<OnlyMove>, 1},
         {"move_only_safe", &exec<OnlyMoveS>, 1},
         {"trivial_dtor", &exec<Pod>, 1},
         {"int", &exec<std::int64_t>, 1},
         {"safe_construction", &exec<HalfCtor>, 1},
         {"safe_assignment", &exec<HalfAsgn>, 1},
         {"nothrow", &exec<NoThrow>, 1},
         {"trivial_construction", &exec<Mix<20, false, true, false>>, 1},
         {"trivial_assignment", &exec<Mix<21, true, false, false>>, 1},
         {"only_destruction", &exec<Mix<22, false, false, true>>, 1},
         {"assignment_trivial", &exec<Mix<23, true, false, true>>, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "optional",
        "contained objects",
    };
    return w;
}
