// World: several variants whose alternatives can fail at any of their operations. Must stay valid C++14: the variant
// has different dispatch code in C++14 and in later standards.
#include "sim.hpp"
#include <cetl/pf17/variant.hpp>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

namespace
{
using sim::Res;
namespace pf = cetl::pf17;

enum Op : int
{
    MAKE_DEFAULT,
    MAKE_INDEX,
    MAKE_TYPE,
    MAKE_LIST,
    MAKE_CONV,
    MAKE_VALUE,
    COPY_CTOR,
    MOVE_CTOR,
    COPY_ASSIGN,
    MOVE_ASSIGN,
    SELF_ASSIGN,
    CONV_ASSIGN,
    VALUE_ASSIGN,
    RVALUE_ASSIGN,
    EMPLACE,
    EMPLACE_TYPE,
    EMPLACE_LIST,
    BREAK,
    SWAP,
    SELF_SWAP,
    VISIT,
    VISIT_TWO,
    VISIT_TAKE,
    GET,
    GET_TAKE,
    VISIT_THREE,
    COMPARE,
    WRITE,
    OP_COUNT
};

constexpr int kSlots = 4;
constexpr int kNone  = -1;

/// Source of converting construction and assignment for the alternative with tag K.
/// It is always given away.
template <int K>
struct Num
{
    explicit Num(std::int64_t x) noexcept
        : v(x)
    {
    }
    Num(Num&&) noexcept = default;
    Num(const Num& o) noexcept
        : v(o.v)
    {
        sim::violation("transfer", "the source of a conversion was copied instead of moved");
    }
    std::int64_t v;
};

template <typename T, bool Ok>
struct Ordered
{
    friend bool operator<(const T& a, const T& b)
    {
        return a.value() < b.value();
    }
    friend bool operator==(const T& a, const T& b)
    {
        return a.value() == b.value();
    }
};

/// Copyable and movable; Safe: converting construction cannot fail.
template <int Tag, unsigned Flags>
class Obj : public sim::Tracked<Tag, Flags>, public Ordered<Obj<Tag, Flags>, true>
{
    using B = sim::Tracked<Tag, Flags>;

public:
    static constexpr int kTag = Tag;
    Obj()                     = default;
    explicit Obj(std::int64_t v)
        : B(v)
    {
    }
    Obj(Num<Tag> n)
        : B(n.v)
    {
    }
    Obj(std::initializer_list<int> l, std::int64_t v)
        : B(v + static_cast<std::int64_t>(l.size()))
    {
    }
    Obj(const Obj&)            = default;
    Obj(Obj&&)                 = default;
    Obj& operator=(const Obj&) = default;
    Obj& operator=(Obj&&)      = default;
    Obj& operator=(Num<Tag> n)
    {
        this->check("assigned to");
        sim::user_point(sim::K_COPYASSIGN);
        this->set(n.v);
        return *this;
    }
};
template <int Tag, unsigned Flags>
class Mov : public sim::TrackedMO<Tag, Flags>, public Ordered<Mov<Tag, Flags>, true>
{
    using B = sim::TrackedMO<Tag, Flags>;

public:
    static constexpr int kTag = Tag;
    Mov()                     = default;
    explicit Mov(std::int64_t v)
        : B(v)
    {
    }
    Mov(Num<Tag> n)
        : B(n.v)
    {
    }
    Mov(std::initializer_list<int> l, std::int64_t v)
        : B(v + static_cast<std::int64_t>(l.size()))
    {
    }
#if SIM_LEAN
    Mov(const Mov&)            = default;
    Mov& operator=(const Mov&) = default;
#endif
    Mov(Mov&&)            = default;
    Mov& operator=(Mov&&) = default;
    Mov& operator=(Num<Tag> n)
    {
        this->check("assigned to");
        sim::user_point(sim::K_COPYASSIGN);
        this->set(n.v);
        return *this;
    }
};
/// Trivially destructible; other operations are not trivial and can fail unless Safe.
template <int Tag, bool SafeMove>
class Pod : public Ordered<Pod<Tag, SafeMove>, true>
{
public:
    static constexpr int kTag = Tag;
    Pod()
        : Pod(0)
    {
    }
    explicit Pod(std::int64_t v)
    {
        sim::user_point(sim::K_CTOR);
        v_ = v;
    }
    Pod(Num<Tag> n)
        : Pod(n.v)
    {
    }
    Pod(std::initializer_list<int> l, std::int64_t v)
        : Pod(v + static_cast<std::int64_t>(l.size()))
    {
    }
    Pod(const Pod& o)
    {
        sim::user_point(sim::K_COPY);
        v_ = o.v_;
    }
    Pod(Pod&& o) noexcept(SafeMove)
    {
        if (!SafeMove)
        {
            sim::user_point(sim::K_MOVE);
        }
        v_   = o.v_;
        o.v_ = sim::kMoved;
    }
    Pod& operator=(const Pod& o)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = o.v_;
        return *this;
    }
    Pod& operator=(Pod&& o) noexcept(SafeMove)
    {
        if (!SafeMove)
        {
            sim::user_point(sim::K_MOVEASSIGN);
        }
        if (this != &o)
        {
            v_   = o.v_;
            o.v_ = sim::kMoved;
        }
        return *this;
    }
    Pod& operator=(Num<Tag> n)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = n.v;
        return *this;
    }
    std::int64_t value() const
    {
        return v_;
    }
    void set(std::int64_t v)
    {
        v_ = v;
    }

private:
    std::int64_t v_;
};
/// Trivial in every respect, except that conversion from a number can fail.
template <int Tag>
class Triv : public Ordered<Triv<Tag>, true>
{
public:
    static constexpr int kTag = Tag;
    Triv()                    = default;
    explicit Triv(std::int64_t v)
    {
        sim::user_point(sim::K_CTOR);
        v_ = v;
    }
    Triv(Num<Tag> n)
        : Triv(n.v)
    {
    }
    Triv(std::initializer_list<int> l, std::int64_t v)
        : Triv(v + static_cast<std::int64_t>(l.size()))
    {
    }
    Triv& operator=(Num<Tag> n)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = n.v;
        return *this;
    }
    std::int64_t value() const
    {
        return v_;
    }
    void set(std::int64_t v)
    {
        v_ = v;
    }

private:
    std::int64_t v_{0};
};
static_assert(std::is_trivially_copyable<Triv<1>>::value, "");

/// Construction, assignment or destruction is trivial where the others are not; a move leaves the value as it is.
template <int Tag, bool C, bool A, bool D>
class Mix : public Ordered<Mix<Tag, C, A, D>, true>
{
public:
    static constexpr int kTag = Tag;
    Mix()
        : Mix(0)
    {
    }
    explicit Mix(std::int64_t v)
        : v_(v)
    {
        sim::user_point(sim::K_CTOR);
    }
    Mix(Num<Tag> n)
        : Mix(n.v)
    {
    }
    Mix(std::initializer_list<int> l, std::int64_t v)
        : Mix(v + static_cast<std::int64_t>(l.size()))
    {
    }
    Mix(const Mix&)            = default;
    Mix(Mix&&)                 = default;
    Mix& operator=(const Mix&) = default;
    Mix& operator=(Mix&&)      = default;
    Mix& operator=(Num<Tag> n)
    {
        sim::user_point(sim::K_COPYASSIGN);
        v_ = n.v;
        return *this;
    }
    std::int64_t value() const
    {
        return v_;
    }
    void set(std::int64_t v)
    {
        v_ = v;
    }

private:
    sim::CtorPart<C>      c_;
    sim::AssignPart<A>    a_;
    sim::DtorPart<D, Tag> d_;
    std::int64_t          v_;
};

template <typename T>
struct Counted : std::true_type
{};
template <int K, bool C, bool A>
struct Counted<Mix<K, C, A, false>> : std::false_type
{};
template <typename T>
struct Keeps : std::is_trivially_move_constructible<T>
{};
template <int K, bool C, bool A, bool D>
struct Keeps<Mix<K, C, A, D>> : std::true_type
{};
template <int K, bool S>
struct Counted<Pod<K, S>> : std::false_type
{};
template <int K>
struct Counted<Triv<K>> : std::false_type
{};

template <bool Unique, typename... Ts>
class W final
{
    using V                      = pf::variant<Ts...>;
    static constexpr int kAlts   = static_cast<int>(sizeof...(Ts));
    using CanCopy                = std::integral_constant<bool, std::is_copy_constructible<V>::value>;
    using IsUnique               = std::integral_constant<bool, Unique>;
    template <int I>
    using Alt = std::tuple_element_t<static_cast<std::size_t>(I), std::tuple<Ts...>>;

    struct Slot
    {
        V*           p{nullptr};
        int          i{0};
        std::int64_t v{0};
    };
    struct Ind
    {
        std::int64_t (*get)(const V&);
        const void* (*addr)(const V&);
        void (*put)(V&, std::int64_t);
        void (*emplace)(V&, std::int64_t, int how);
        V* (*make)(std::int64_t, int how);
        V* (*make_value)(std::int64_t, bool move);
        void (*assign)(V&, std::int64_t, int how);
        bool (*checked)(V&, std::int64_t&, int how);
        bool (*take)(V&, std::int64_t&, bool by_type);
        bool counted;
        bool trivial_move;
        bool keeps_copy;  // failed copy assignment from another alternative keeps the old value
        bool keeps_conv;
        bool keeps_rvalue;
    };

public:
    explicit W(const sim::Plan&)
    {
        for (int k = 0; k < kSlots; ++k)
        {
            s_[k].p = tab()[k % kAlts].make(k + 1, 0);
            s_[k].i = k % kAlts;
            s_[k].v = k + 1;
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t k = 0; k < p.steps.size(); ++k)
        {
            sim::begin_step(static_cast<int>(k), p.steps[k]);
            step(p.steps[k]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (auto& s : s_)
        {
            delete s.p;
        }
        sim::life.check_empty("all variants destroyed");
    }

private:
    // ------------------------------------------------------------------ per alternative entry points
    template <int I>
    static std::int64_t get_i(const V& v)
    {
        return pf::get_if<I>(&v)->value();
    }
    template <int I>
    static const void* addr_i(const V& v)
    {
        return pf::get_if<I>(&v);
    }
    template <int I>
    static void put_i(V& v, std::int64_t x)
    {
        pf::get<I>(v).set(x);
    }
    template <int I>
    static void emplace_type(V& v, std::int64_t x, std::true_type)
    {
        sim::Lent lent{x};
        auto&     r = x % 3 == 0 ? v.template emplace<Alt<I>>({3, 4}, sim::Given{x - 2}) : (x % 3 == 1 ? v.template emplace<Alt<I>>(lent) : v.template emplace<Alt<I>>(sim::Given{x}));
        if (&r != pf::get_if<I>(&v))
        {
            sim::violation("content", "emplace by type returned a wrong reference");
        }
    }
    template <int I>
    static void emplace_type(V& v, std::int64_t x, std::false_type)
    {
        v.template emplace<I>(x);
    }
    template <int I>
    static void emplace_i(V& v, std::int64_t x, int how)
    {
        if (how == 0)
        {
            sim::Lent lent{x};
            auto&     r = x % 2 == 0 ? v.template emplace<I>(lent) : v.template emplace<I>(sim::Given{x});
            if (&r != pf::get_if<I>(&v))
            {
                sim::violation("content", "emplace returned a wrong reference");
            }
        }
        else if (how == 1)
        {
            emplace_type<I>(v, x, IsUnique());
        }
        else
        {
            auto& r = v.template emplace<I>({1, 2}, sim::Given{x - 2});
            if (&r != pf::get_if<I>(&v))
            {
                sim::violation("content", "emplace from a list returned a wrong reference");
            }
        }
    }
    template <int I>
    static V* make_type(std::int64_t x, std::true_type)
    {
        sim::Lent lent{x};
        return x % 2 == 0 ? new V(pf::in_place_type_t<Alt<I>>(), lent) : new V(pf::in_place_type_t<Alt<I>>(), sim::Given{x});
    }
    template <int I>
    static V* make_type(std::int64_t x, std::false_type)
    {
        return new V(pf::in_place_index_t<I>(), x);
    }
    template <int I>
    static V* make_conv(std::int64_t x, std::true_type)
    {
        return new V(Num<Alt<I>::kTag>{x});
    }
    template <int I>
    static V* make_conv(std::int64_t x, std::false_type)
    {
        return new V(pf::in_place_index_t<I>(), x);
    }
    template <int I>
    static V* make_i(std::int64_t x, int how)
    {
        sim::Lent lent{x};
        return how == 0   ? (x % 2 == 0 ? new V(pf::in_place_index_t<I>(), lent) : new V(pf::in_place_index_t<I>(), sim::Given{x}))
               : how == 1 ? make_type<I>(x, IsUnique())
               : how == 2 ? new V(pf::in_place_index_t<I>(), {1, 2, 3}, sim::Given{x - 3})
                          : make_conv<I>(x, IsUnique());
    }
    template <int I>
    static V* copy_of(const Alt<I>& a, std::true_type)
    {
        return new V(a);
    }
    template <int I, typename A>
    static V* copy_of(A& a, std::false_type)
    {
        return new V(std::move(a));
    }
    template <int I>
    static void was_moved(const Alt<I>& a, bool expected, std::int64_t was)
    {
        if (a.value() != (expected && !Keeps<Alt<I>>::value ? sim::kMoved : was))
        {
            sim::violation("transfer", expected ? "the given object was copied instead of moved" : "the given object was changed");
        }
    }
    template <int I>
    static V* make_value_u(Alt<I>& a, bool move, std::true_type)
    {
        const std::int64_t was = a.value();
        V* const           n   = move ? new V(std::move(a)) : copy_of<I>(a, CanCopy());
        was_moved<I>(a, move || !CanCopy::value, was);
        return n;
    }
    template <int I>
    static V* make_value_u(Alt<I>& a, bool, std::false_type)
    {
        const std::int64_t was = a.value();
        V* const           n   = new V(pf::in_place_index_t<I>(), std::move(a));
        was_moved<I>(a, true, was);
        return n;
    }
    template <int I>
    static V* make_value_i(std::int64_t x, bool move)
    {
        Alt<I> a(x);
        return make_value_u<I>(a, move, IsUnique());
    }
    template <int I>
    static void assign_copy(V& v, const Alt<I>& a, std::true_type)
    {
        const std::int64_t was = a.value();
        v                      = a;
        if (a.value() != was)
        {
            sim::violation("content", "assignment changed its source");
        }
    }
    template <int I, typename A>
    static void assign_copy(V& v, A& a, std::false_type)
    {
        v = std::move(a);
    }
    template <int I>
    static void assign_u(V& v, std::int64_t x, int how, std::true_type)
    {
        if (how == 0)
        {
            v = Num<Alt<I>::kTag>{x};
            return;
        }
        if (how == 3)
        {
            assign_copy<I>(v, *pf::get_if<I>(&v), CanCopy());
            return;
        }
        Alt<I> a(x);
        if (how == 1)
        {
            assign_copy<I>(v, a, CanCopy());
        }
        else
        {
            v = std::move(a);
            was_moved<I>(a, true, x);
        }
    }
    template <int I>
    static void assign_u(V&, std::int64_t, int, std::false_type)
    {
    }
    template <int I>
    static void assign_i(V& v, std::int64_t x, int how)
    {
        assign_u<I>(v, x, how, IsUnique());
    }
    /// Moves the alternative out through checked access.
    template <int I>
    static std::int64_t out_of(V& v, bool by_type, std::true_type)
    {
        Alt<I> a = by_type ? Alt<I>(pf::get<Alt<I>>(std::move(v))) : Alt<I>(pf::get<I>(std::move(v)));
        return a.value();
    }
    template <int I>
    static std::int64_t out_of(V& v, bool, std::false_type)
    {
        Alt<I> a(pf::get<I>(std::move(v)));
        return a.value();
    }
    template <int I>
    static bool take_i(V& v, std::int64_t& x, bool by_type)
    {
#if SIM_EXC
        try
        {
            x = out_of<I>(v, by_type, IsUnique());
            return true;
        } catch (const pf::bad_variant_access&)
        {
            return false;
        }
#else
        if (pf::get_if<I>(&v) == nullptr)
        {
            return false;
        }
        x = out_of<I>(v, by_type, IsUnique());
        return true;
#endif
    }
    template <int I>
    static bool by_type(V& v, std::int64_t& x, std::true_type)
    {
        const V& c = v;
        x          = x % 2 == 0 ? pf::get<Alt<I>>(v).value() : x % 3 == 0 ? pf::get<Alt<I>>(c).value() : pf::get<Alt<I>>(std::move(c)).value();
        if (pf::get_if<Alt<I>>(&c) != pf::get_if<I>(&c))
        {
            sim::violation("content", "read access by type and by index differ");
        }
        if (!pf::holds_alternative<Alt<I>>(v) || pf::get_if<Alt<I>>(&v) != pf::get_if<I>(&v))
        {
            sim::violation("content", "access by type and by index differ");
        }
        return true;
    }
    template <int I>
    static bool by_type(V& v, std::int64_t& x, std::false_type)
    {
        x = pf::get<I>(v).value();
        return true;
    }
    /// Checked access; false when bad access was reported.
    template <int I>
    static bool checked_i(V& v, std::int64_t& x, int how)
    {
#if SIM_EXC
        try
        {
            if (how == 0)
            {
                x = pf::get<I>(v).value();
                return true;
            }
            if (how == 1)
            {
                const V& c = v;
                x          = x % 2 == 0 ? pf::get<I>(c).value() : pf::get<I>(std::move(c)).value();
                return true;
            }
            return by_type<I>(v, x, IsUnique());
        } catch (const pf::bad_variant_access&)
        {
            return false;
        }
#else
        if (pf::get_if<I>(&v) == nullptr)
        {
            return false;
        }
        return by_type<I>(v, x, IsUnique());
#endif
    }
    template <int I>
    static Ind ind()
    {
        using A = Alt<I>;
        return Ind{&get_i<I>,
                   &addr_i<I>,
                   &put_i<I>,
                   &emplace_i<I>,
                   &make_i<I>,
                   &make_value_i<I>,
                   &assign_i<I>,
                   &checked_i<I>,
                   &take_i<I>,
                   Counted<A>::value,
                   Keeps<A>::value,
                   std::is_nothrow_move_constructible<A>::value && !std::is_nothrow_copy_constructible<A>::value,
                   std::is_nothrow_move_constructible<A>::value && !std::is_nothrow_constructible<A, Num<A::kTag>>::value,
                   std::is_nothrow_move_constructible<A>::value && !std::is_nothrow_constructible<A, A>::value};
    }
    template <int... Is>
    static const Ind* tab(std::integer_sequence<int, Is...>)
    {
        static const Ind t[] = {ind<Is>()...};
        return t;
    }
    static const Ind* tab()
    {
        return tab(std::make_integer_sequence<int, kAlts>());
    }
    template <typename X>
    static X* copy(const X& x, std::true_type)
    {
        return new X(x);
    }
    template <typename X>
    static X* copy(const X&, std::false_type)
    {
        return nullptr;
    }
    template <typename X>
    static void copy_assign(X& d, const X& x, std::true_type)
    {
        d = x;
    }
    template <typename X>
    static void copy_assign(X&, const X&, std::false_type)
    {
    }

    // ------------------------------------------------------------------ oracle
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    void check_all()
    {
        std::uint64_t h       = 0;
        std::size_t   counted = 0;
        for (const auto& s : s_)
        {
            const V& v = *s.p;
            if (v.valueless_by_exception() != (s.i == kNone) || (v.index() == pf::variant_npos) != (s.i == kNone))
            {
                bad("content", s.i == kNone ? "variant reports an alternative though it must be valueless" : "variant lost its value");
            }
            if (s.i != kNone)
            {
                if (v.index() != static_cast<std::size_t>(s.i))
                {
                    sim::violation("content", "variant is on alternative %zu instead of %d", v.index(), s.i);
                }
                const auto x = tab()[s.i].get(v);
                if (x != s.v)
                {
                    sim::violation("content", "variant holds %lld instead of %lld", static_cast<long long>(x), static_cast<long long>(s.v));
                }
                const auto at = reinterpret_cast<std::uintptr_t>(tab()[s.i].addr(v)) - reinterpret_cast<std::uintptr_t>(&v);
                if (at >= sizeof(V))
                {
                    bad("content", "the alternative is not inside the variant");
                }
                counted += tab()[s.i].counted ? 1 : 0;
            }
            for (int k = 0; k < kAlts; ++k)
            {
                if (k != s.i && tab()[k].addr(v) != nullptr)
                {
                    bad("content", "an alternative that is not held is accessible");
                }
            }
            h = sim::mix(h, static_cast<std::uint64_t>(s.i + 1) * 2 + (s.v == sim::kMoved ? 1 : 0));
        }
        if (sim::life.count() != counted)
        {
            sim::violation("lifetime", "%zu objects alive for %zu variants", sim::life.count(), counted);
        }
        sim::state(h);
    }
    bool done(Res r)
    {
        if (r == Res::ok)
        {
#if SIM_EXC
            if (sim::ctx.injected > 0)
            {
                bad("exc", "a failure inside the operation did not reach the caller");
            }
#endif
            sim::outcome(0);
            return true;
        }
        if (r != Res::injected)
        {
            bad("exc", "unexpected exception");
        }
        sim::outcome(1);
        return false;
    }
    std::int64_t moved(int i, std::int64_t v) const
    {
        return tab()[i].trivial_move ? v : sim::kMoved;
    }
    template <typename F>
    void rebuild(Slot& s, int i, std::int64_t v, F f)
    {
        delete s.p;
        s.p  = nullptr;
        V* n = nullptr;
        if (done(sim::call([&] { n = f(); })))
        {
            s.p = n;
            s.i = i;
            s.v = v;
        }
        else
        {
            s.p = tab()[0].make(5, 0);
            s.i = 0;
            s.v = 5;
        }
    }
    /// Gives a valueless variant a value again in most cases.
    void revive(Slot& s, std::int64_t salt)
    {
        if (s.i == kNone && salt % 4 != 0)
        {
            s.i = static_cast<int>(salt / 4 % kAlts);
            s.v = 1 + salt % 50;
            tab()[s.i].emplace(*s.p, s.v, 0);
        }
    }
    /// After a failed operation that may, but need not, have lost the value.
    void lost_or_kept(Slot& s, bool may_lose)
    {
        if (s.p->valueless_by_exception())
        {
            if (!may_lose && s.i != kNone)
            {
                bad("atomic", "a failed assignment lost the value of the variant though a safe intermediate copy exists");
            }
            sim::probe("valueless");
            s.i = kNone;
        }
        else
        {
            sim::probe("kept");
        }
    }
    /// A moved-from variant stays on its alternative.
    void after_move(Slot& o, bool failed)
    {
        if (o.i != kNone && o.p->index() == static_cast<std::size_t>(o.i))
        {
            const std::int64_t now = tab()[o.i].get(*o.p);
            if (now != o.v && now != moved(o.i, o.v))
            {
                bad("content", "move changed the source beyond moving from it");
            }
            if (!failed && now != moved(o.i, o.v))
            {
                bad("content", "the alternative was copied instead of moved");
            }
            o.v = now;
        }
    }
    /// After a failed swap: any of both alternatives or nothing, but only values that were there.
    void half_swapped(Slot& s, const Slot& a, const Slot& b)
    {
        const V& v = *s.p;
        if (v.valueless_by_exception())
        {
            if (a.i == b.i)
            {
                bad("content", "a failed exchange of values of the same alternative lost one of them");
            }
            s.i = kNone;
            return;
        }
        const int          i = static_cast<int>(v.index());
        const std::int64_t x = i < kAlts ? tab()[i].get(v) : 0;
        const bool         fits_a = i == a.i && (x == a.v || x == sim::kMoved);
        const bool         fits_b = i == b.i && (x == b.v || x == sim::kMoved);
        if (!fits_a && !fits_b)
        {
            bad("content", "a failed swap produced a foreign value");
        }
        s.i = i;
        s.v = x;
    }

    struct Reader
    {
        int          calls{0};
        std::int64_t sum{0};
        const void*  at{nullptr};
        template <typename T>
        std::int64_t operator()(const T& t)
        {
            sim::user_point(sim::K_CALL);
            ++calls;
            at  = &t;
            sum = t.value();
            return sum;
        }
        template <typename T, typename U>
        std::int64_t operator()(const T& t, const U& u)
        {
            sim::user_point(sim::K_CALL);
            ++calls;
            sum = t.value() * 100000 + u.value();
            return sum;
        }
        template <typename T, typename U, typename X>
        std::int64_t operator()(const T& t, const U& u, const X& x)
        {
            sim::user_point(sim::K_CALL);
            ++calls;
            sum = t.value() * 10000 + u.value() * 100 + x.value();
            return sum;
        }
    };
    struct Taker
    {
        std::int64_t sum{0};
        template <typename T>
        void operator()(T&& t)
        {
            std::decay_t<T> d(std::forward<T>(t));
            sum = d.value();
        }
        template <typename T, typename U>
        void operator()(T&& t, U&& u)
        {
            std::decay_t<T> d(std::forward<T>(t));
            std::decay_t<U> e(std::forward<U>(u));
            sum = d.value() * 100000 + e.value();
        }
    };

    /// Runs a visit; returns false when bad access was reported.
    template <typename F>
    bool visiting(F f, bool& ok)
    {
        bool      bad_access = false;
        const Res r          = sim::call([&] {
#if SIM_EXC
            try
            {
                f();
            } catch (const pf::bad_variant_access&)
            {
                bad_access = true;
            }
#else
            f();
#endif
        });
        ok = done(r);
        return !bad_access;
    }

    void step(const sim::Step& st)
    {
        const int          i = static_cast<int>(st.a[0] % kSlots);
        const int          j = static_cast<int>((i + 1 + st.a[1] % (kSlots - 1)) % kSlots);
        const int          k = static_cast<int>(st.a[2] % kAlts);
        const std::int64_t x = 1 + st.a[3] % 1000;
        Slot&              s = s_[i];
        Slot&              o = s_[j];
        const Ind&         t = tab()[k];
        revive(s, st.a[1]);
        revive(o, st.a[3]);
        switch (st.op)
        {
        case MAKE_DEFAULT:
            rebuild(s, 0, 0, [&] { return new V(); });
            return;
        case MAKE_INDEX:
        case MAKE_TYPE:
        case MAKE_LIST:
        case MAKE_CONV:
            rebuild(s, k, x, [&] { return t.make(x, st.op - MAKE_INDEX); });
            return;
        case MAKE_VALUE:
            rebuild(s, k, x, [&] { return t.make_value(x, st.a[1] % 2 == 0); });
            return;
        case COPY_CTOR:
            if (CanCopy::value)
            {
                rebuild(s, o.i, o.v, [&] { return copy(*o.p, CanCopy()); });
            }
            return;
        case MOVE_CTOR:
        {
            rebuild(s, o.i, o.v, [&] { return new V(std::move(*o.p)); });
            after_move(o, sim::ctx.injected > 0);
            return;
        }
        case COPY_ASSIGN:
            if (CanCopy::value)
            {
                if (done(sim::call([&] { copy_assign(*s.p, *o.p, CanCopy()); })))
                {
                    s.i = o.i;
                    s.v = o.v;
                }
                else if (s.i != o.i)
                {
                    lost_or_kept(s, o.i != kNone && !tab()[o.i].keeps_copy);
                }
            }
            return;
        case MOVE_ASSIGN:
        {
            const bool ok = done(sim::call([&] { *s.p = std::move(*o.p); }));
            if (ok)
            {
                s.i = o.i;
                s.v = o.v;
            }
            else if (s.i != o.i)
            {
                lost_or_kept(s, true);
            }
            after_move(o, !ok);
            return;
        }
        case SELF_ASSIGN:
            if (CanCopy::value && Unique && st.a[2] % 2 != 0 && s.i != kNone)
            {
                (void) done(sim::call([&] { tab()[s.i].assign(*s.p, x, 3); }));  // from the value it holds
            }
            else if (CanCopy::value)
            {
                (void) done(sim::call([&] { copy_assign(*s.p, *s.p, CanCopy()); }));
            }
            return;
        case CONV_ASSIGN:
        case VALUE_ASSIGN:
        case RVALUE_ASSIGN:
            if (Unique)
            {
                const int how = st.op - CONV_ASSIGN;
                if (done(sim::call([&] { t.assign(*s.p, x, how); })))
                {
                    s.i = k;
                    s.v = x;
                }
                else if (s.i != k)
                {
                    lost_or_kept(s, how == 0 ? !t.keeps_conv : how == 1 && CanCopy::value ? !t.keeps_copy : !t.keeps_rvalue);
                }
            }
            return;
        case EMPLACE:
        case EMPLACE_TYPE:
        case EMPLACE_LIST:
        case BREAK:
            if (done(sim::call([&] { t.emplace(*s.p, x, st.op == BREAK ? 0 : st.op - EMPLACE); })))
            {
                s.i = k;
                s.v = x;
            }
            else
            {
                s.i = kNone;  // as documented
                sim::probe("emplace failed");
            }
            return;
        case SWAP:
        {
            const Slot a = s;
            const Slot b = o;
            if (done(sim::call([&] { s.p->swap(*o.p); })))
            {
                s.i = b.i;
                s.v = b.v;
                o.i = a.i;
                o.v = a.v;
            }
            else
            {
                half_swapped(s, a, b);
                half_swapped(o, a, b);
                sim::probe("swap failed");
            }
            return;
        }
        case SELF_SWAP:
        {
            const Slot a = s;
            if (!done(sim::call([&] { s.p->swap(*s.p); })))
            {
                half_swapped(s, a, a);
            }
            return;
        }
        case VISIT:
        {
            Reader   r;
            bool     ok  = false;
            const V& c   = *s.p;
            const bool b = visiting(
                [&] {
                    if (pf::visit(r, c) != r.sum)
                    {
                        bad("content", "visit returned a wrong result");
                    }
                },
                ok);
            if (b == (s.i == kNone))
            {
                bad("content", "visit does not agree with the variant having a value");
            }
            if (ok && b && (r.calls != 1 || r.sum != s.v || r.at != tab()[s.i].addr(c)))
            {
                bad("content", "visitor saw a wrong value");
            }
            return;
        }
        case VISIT_TWO:
            if (st.a[3] % 3 == 0)
            {
                Taker      r;
                bool       ok = false;
                const bool b  = visiting([&] { pf::visit(r, std::move(*s.p), std::move(*o.p)); }, ok);
                if (b == (s.i == kNone || o.i == kNone))
                {
                    bad("content", "visit of two does not agree with the variants having values");
                }
                if (ok && b && r.sum != s.v * 100000 + o.v)
                {
                    bad("content", "visitor of two took wrong values");
                }
                if (b)
                {
                    after_move(s, !ok);
                    after_move(o, !ok);
                }
                return;
            }
        {
            Reader     r;
            bool       ok = false;
            const bool b  = visiting([&] { (void) pf::visit(r, *s.p, static_cast<const V&>(*o.p)); }, ok);
            if (b == (s.i == kNone || o.i == kNone))
            {
                bad("content", "visit of two does not agree with the variants having values");
            }
            if (ok && b && (r.calls != 1 || r.sum != s.v * 100000 + o.v))
            {
                bad("content", "visitor of two saw wrong values");
            }
            return;
        }
        case VISIT_TAKE:
        {
            Taker      r;
            bool       ok = false;
            const bool b  = visiting([&] { pf::visit(r, std::move(*s.p)); }, ok);
            if (b == (s.i == kNone))
            {
                bad("content", "visit does not agree with the variant having a value");
            }
            if (b && ok)
            {
                if (r.sum != s.v)
                {
                    bad("content", "visitor took a wrong value");
                }
            }
            after_move(s, !ok);
            return;
        }
        case GET:
        {
            std::int64_t y  = st.a[1];
            const bool   ok = t.checked(*s.p, y, static_cast<int>(st.a[3] % 3));
            if (ok != (k == s.i) || (ok && y != s.v))
            {
                bad("content", "checked access does not agree with the alternative held");
            }
            sim::outcome(0);
            return;
        }
        case GET_TAKE:
        {
            std::int64_t y     = 0;
            bool         found = false;
            const bool   ok    = done(sim::call([&] { found = t.take(*s.p, y, st.a[1] % 2 == 0); }));
            if (ok && (found != (k == s.i) || (found && y != s.v)))
            {
                bad("content", "taking by checked access does not agree with the alternative held");
            }
            if (k == s.i)
            {
                after_move(s, !ok);
            }
            return;
        }
        case VISIT_THREE:
        {
            Reader     r;
            bool       ok = false;
            Slot&      q  = s_[(j + 1) % kSlots];
            const bool b  = visiting([&] { (void) pf::visit(r, *s.p, static_cast<const V&>(*o.p), *q.p); }, ok);
            if (b == (s.i == kNone || o.i == kNone || q.i == kNone))
            {
                bad("content", "visit of three does not agree with the variants having values");
            }
            if (ok && b && (r.calls != 1 || r.sum != s.v * 10000 + o.v * 100 + q.v))
            {
                bad("content", "visitor of three saw wrong values");
            }
            return;
        }
        case COMPARE:
        {
            const V&   a  = *s.p;
            const V&   b  = *o.p;
            const bool eq = s.i == o.i && (s.i == kNone || s.v == o.v);
            const bool lt = s.i < o.i || (s.i == o.i && s.i != kNone && s.v < o.v);
            if ((a == b) != eq || (a != b) == eq || (a < b) != lt || (b > a) != lt || (a >= b) == lt || (b <= a) == lt)
            {
                bad("content", "comparison is wrong");
            }
            if (!(a == a) || a < a)
            {
                bad("content", "comparison with itself is wrong");
            }
            sim::outcome(0);
            return;
        }
        case WRITE:
            if (s.i != kNone)
            {
                tab()[s.i].put(*s.p, x);
                s.v = x;
                sim::outcome(0);
            }
            return;
        default:
            return;
        }
    }

    Slot s_[kSlots];
};

template <bool U, typename... Ts>
void exec(const sim::Plan& p)
{
    W<U, Ts...> w(p);
    w.run(p);
}

using A = Obj<1, sim::F_COPY | sim::F_MOVE>;
using B = Obj<2, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE>;
using C = Obj<3, sim::F_COPY | sim::F_MOVE | sim::F_NTCOPY>;
using D = Obj<4, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE>;
using M = Mov<5, sim::F_MOVE>;
using N = Mov<6, sim::F_MOVE | sim::F_NTMOVE>;
using P = Pod<7, false>;
using Q = Pod<8, true>;
using T = Triv<9>;
// Only one of the operations cannot fail.
using E = Obj<11, sim::F_COPY | sim::F_MOVE | sim::F_NTMC>;
using F = Obj<12, sim::F_COPY | sim::F_MOVE | sim::F_NTMA>;
using G = Obj<13, sim::F_COPY | sim::F_MOVE | sim::F_NTCC>;
using H = Obj<14, sim::F_COPY | sim::F_MOVE | sim::F_NTCA>;
using I = Obj<15, sim::F_COPY | sim::F_MOVE | sim::F_NTMC | sim::F_NTCA>;
using J = Obj<16, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE | sim::F_NTCOPY>;
using K = Mov<17, sim::F_MOVE | sim::F_NTMC>;
using L = Mov<18, sim::F_MOVE | sim::F_NTMA>;
using U = Triv<10>;
using X = Mix<20, false, true, false>;
using Y = Mix<21, true, false, false>;
using Z = Mix<22, false, false, true>;
}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "var",
        {{"make_default", 1}, {"make_index", 2},  {"make_type", 1},    {"make_list", 1},     {"make_conv", 1},   {"make_value", 2},
         {"copy_ctor", 4},    {"move_ctor", 4},   {"copy_assign", 8},  {"move_assign", 7},   {"self_assign", 1}, {"conv_assign", 5},
         {"value_assign", 4}, {"rvalue_assign", 4}, {"emplace", 3},    {"emplace_type", 2},  {"emplace_list", 1}, {"emplace_again", 2},
         {"swap", 6},         {"self_swap", 1},   {"visit", 2},        {"visit_two", 2},     {"visit_take", 2},  {"get", 2},
         {"get_take", 3},     {"visit_three", 1},
         {"compare", 2},      {"write", 1}},
        {{"mixed", &exec<true, A, B, C, T>, 3},
         {"safe_moves", &exec<true, B, D>, 2},
         {"move_only", &exec<true, M, N>, 1},
         {"trivial_dtor", &exec<true, P, Q, T>, 2},
         {"trivial", &exec<true, T, U>, 1},
         {"repeated", &exec<false, A, B, A, B>, 1},
         {"one", &exec<true, A>, 1},
         {"odd", &exec<true, T, C, Q, A, B>, 2},
         {"half_safe", &exec<true, E, F, G, H, I>, 2},
         {"half_safe_moves", &exec<true, K, L, N>, 1},
         {"nothrow_but_one", &exec<true, I, E, J, B>, 1},
         {"nothrow", &exec<true, J, B, E>, 1},
         {"trivial_construction", &exec<true, X, T>, 1},
         {"trivial_assignment", &exec<true, Y, T, U>, 1},
         {"only_destruction", &exec<true, Z, T>, 1},
         {"part_trivial", &exec<true, X, Z, Y, T>, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "variant, its dispatch and visitation",
        "alternatives, visitors",
    };
    return w;
}
