// World: smart pointers made by the factories, and memory held by MemoryResourceDeleter, on simulated memory.
#include "sim_pmr.hpp"
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <memory>
#include <type_traits>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;

enum Op : int
{
    U_MAKE,
    U_MOVE,
    U_ASSIGN,
    U_SWAP,
    U_RESET,
    U_SELF,
    U_ADOPT,
    I_MAKE,
    I_MOVE,
    I_ASSIGN,
    I_SWAP,
    I_RESET,
    I_SELF,
    I_ADOPT,
    I_SHARE,
    I_DROP_SHARED,
    M_MAKE,
    M_MOVE,
    M_ASSIGN,
    M_RESET,
    M_SELF,
    C_MAKE,
    C_MOVE,
    C_ASSIGN,
    C_COPY,
    C_SWAP,
    C_RESET,
    WRITE,
    QUOTA,
    OP_COUNT
};

constexpr unsigned kSlots = 3;

inline std::int64_t sum(std::initializer_list<std::int64_t> l)
{
    std::int64_t r = 0;
    for (const auto x : l)
    {
        r += x;
    }
    return r;
}

/// The interface has no virtual destructor: only destruction as the concrete type is right.
struct Iface
{
    virtual std::int64_t get() const          = 0;
    virtual void         put(std::int64_t v) = 0;

protected:
    ~Iface() = default;
};
struct Other
{
    virtual std::int64_t other() const = 0;
    std::int64_t         filler[3]{1, 2, 3};

protected:
    ~Other() = default;
};

constexpr unsigned kFlags = sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE;

template <int Tag, std::size_t Pad, std::size_t Align>
struct Single final : Iface
{
    sim::Tracked<Tag, kFlags, Pad, Align> t;
    explicit Single(std::int64_t v)
        : t(v)
    {
    }
    template <typename... As>
    Single(std::int64_t v, const As&... as)
        : t(v + sum({std::int64_t{0}, as...}))
    {
    }
    std::int64_t get() const override
    {
        return t.value();
    }
    void put(std::int64_t v) override
    {
        t.set(v);
    }
};
template <int Tag>
struct Multi final : Other, Iface
{
    sim::Tracked<Tag, kFlags, 33> t;
    sim::Tracked<Tag + 1, kFlags> t2;  // second member whose construction can fail
    explicit Multi(std::int64_t v)
        : t(v)
        , t2(v)
    {
    }
    template <typename... As>
    Multi(std::int64_t v, const As&... as)
        : t(v + sum({std::int64_t{0}, as...}))
        , t2(v)
    {
    }
    std::int64_t other() const override
    {
        return 5;
    }
    std::int64_t get() const override
    {
        return t.value();
    }
    void put(std::int64_t v) override
    {
        t.set(v);
    }
};

using C0 = Single<1, 0, 8>;
using C1 = Multi<2>;
using C2 = Single<4, 200, 8>;
using C3 = Single<5, 3, 64>;

template <typename T>
struct Tag
{
    using type = T;
};
template <typename Fn>
void with_type(int k, Fn f)
{
    switch (k)
    {
    case 0:
        f(Tag<C0>{});
        break;
    case 1:
        f(Tag<C1>{});
        break;
    case 2:
        f(Tag<C2>{});
        break;
    default:
        f(Tag<C3>{});
        break;
    }
}

/// A minimal assignable allocator with construct(), which is what the factories require.
template <typename T>
class CAlloc
{
public:
    using value_type = T;
    template <typename U>
    struct rebind
    {
        using other = CAlloc<U>;
    };
    explicit CAlloc(sim::SimResource* r) noexcept
        : r_(r)
    {
    }
    template <typename U>
    CAlloc(const CAlloc<U>& o) noexcept
        : r_(o.resource())
    {
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>(static_cast<Pmr*>(r_)->allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        static_cast<Pmr*>(r_)->deallocate(p, n * sizeof(T), alignof(T));
    }
    template <typename U, typename... A>
    void construct(U* p, A&&... a)
    {
        new (p) U(std::forward<A>(a)...);
    }
    sim::SimResource* resource() const
    {
        return r_;
    }

private:
    sim::SimResource* r_;
};

template <typename T, bool PA>
class W final
{
    template <typename X>
    using Al = std::conditional_t<PA, cetl::pf17::pmr::polymorphic_allocator<X>, CAlloc<X>>;
    using UP = cetl::pmr::Factory::unique_ptr_t<Al<T>>;
    using IP = cetl::pmr::InterfacePtr<Iface>;
    using MD = cetl::pmr::MemoryResourceDeleter<Pmr>;
    using MP = std::unique_ptr<unsigned char, MD>;
    using CD = cetl::pmr::PolymorphicDeleter<CAlloc<std::uint64_t>>;
    using CP = std::unique_ptr<std::uint64_t, CD>;  // deleter that returns more than one object

    template <typename H>
    struct Slot
    {
        H*           h{nullptr};
        bool         full{false};
        std::int64_t val{0};
        int          type{0};
        bool         gone{false};  // moved-from deleter, must not be moved again
    };

public:
    explicit W(const sim::Plan&) {}

    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        for (unsigned i = 0; i < kSlots; ++i)
        {
            drop(u_[i]);
            drop(i_[i]);
            drop(m_[i]);
            drop(c_[i]);
        }
        sh_.reset();
        sim::life.check_empty("all pointers destroyed");
        for (auto& m : mem_)
        {
            m.check_empty("all pointers destroyed");
        }
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    template <typename S>
    static void drop(S& s)
    {
        delete s.h;
        s = S{};
    }
    std::size_t blocks() const
    {
        return mem_[0].live_blocks() + mem_[1].live_blocks();
    }
    void explain(Res r)
    {
        switch (r)
        {
        case Res::ok:
            sim::outcome(0);
            break;
        case Res::injected:
        case Res::bad_alloc:
            sim::outcome(1);
            break;
        default:
            sim::violation("exc", "unexpected exception: %s", r == Res::std_bad_alloc ? "bad_alloc" : r == Res::length ? "length_error" : sim::last_other.c_str());
        }
#if SIM_EXC
        if (r == Res::ok && sim::ctx.injected > 0)
        {
            bad("exc", "a failure inside the operation did not reach the caller");
        }
#endif
    }
    void check_all()
    {
        std::uint64_t h     = 0;
        std::size_t   alive = 0;
        for (unsigned i = 0; i < kSlots; ++i)
        {
            if (u_[i].h != nullptr)
            {
                const auto& p = *u_[i].h;
                if (static_cast<bool>(p) != u_[i].full)
                {
                    bad("content", "owning pointer is null or not null against its history");
                }
                if (p && p->get() != u_[i].val)
                {
                    bad("content", "object made by a factory has a wrong value");
                }
            }
            if (i_[i].h != nullptr)
            {
                const auto& p = *i_[i].h;
                if (static_cast<bool>(p) != i_[i].full)
                {
                    bad("content", "interface pointer is null or not null against its history");
                }
                if (p && p->get() != i_[i].val)
                {
                    bad("content", "object behind an interface pointer has a wrong value");
                }
            }
            if (m_[i].h != nullptr)
            {
                const auto& p = *m_[i].h;
                if (static_cast<bool>(p) != m_[i].full)
                {
                    bad("content", "memory pointer is null or not null against its history");
                }
                if (p)
                {
                    const auto n = p.get_deleter().size();
                    if (n != static_cast<std::size_t>(m_[i].val) || p.get_deleter().alignment() != static_cast<std::size_t>(m_[i].type) ||
                        !(mem_[0].owns(p.get(), n) || mem_[1].owns(p.get(), n)))
                    {
                        bad("memory", "deleter lost the size or alignment of its memory");
                    }
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        if (p.get()[k] != static_cast<unsigned char>(n + k))
                        {
                            bad("memory", "memory held by a deleter was overwritten");
                        }
                    }
                }
                else if (m_[i].gone && p.get_deleter().resource() != nullptr)
                {
                    bad("content", "a deleter that was moved from still names a resource");
                }
            }
            if (c_[i].h != nullptr)
            {
                const auto& p = *c_[i].h;
                if (static_cast<bool>(p) != c_[i].full)
                {
                    bad("content", "counted pointer is null or not null against its history");
                }
                for (std::int64_t k = 0; p && k < c_[i].val; ++k)
                {
                    if (p.get()[k] != static_cast<std::uint64_t>(c_[i].type + k))
                    {
                        bad("memory", "memory held by a counting deleter was overwritten");
                    }
                }
            }
            alive += (u_[i].full ? 1U : 0U) + (i_[i].full ? 1U : 0U) + (m_[i].full ? 1U : 0U) + (c_[i].full ? 1U : 0U);
            h = sim::mix(h, (u_[i].full ? 1U : 0U) + (i_[i].full ? 2U + 8U * static_cast<unsigned>(i_[i].type) : 0U) + (m_[i].full ? 64U : 0U) +
                                (c_[i].full ? 128U * static_cast<unsigned>(c_[i].val) : 0U));
        }
        if (sh_)
        {
            ++alive;
            if (sh_->get() != sh_val_)
            {
                bad("content", "shared object has a wrong value");
            }
        }
        if (blocks() != alive)
        {
            sim::violation("memory", "%zu blocks held for %zu owned objects", blocks(), alive);
        }
        sim::state(h);
    }

    // ---- making
    UP make_u(int r, std::int64_t v)
    {
        Al<T> a(&res_[r]);
        if (v % 2 == 0)
        {
            sim::Lent lent{v};
            return cetl::pmr::Factory::make_unique(a, lent);
        }
        return cetl::pmr::Factory::make_unique(a, sim::Given{v});
    }
    template <typename C>
    static IP make_i(Al<C> a, std::int64_t v, std::int64_t form)
    {
        using F = cetl::pmr::InterfaceFactory;
        switch (form % 5)
        {
        case 0:
            return F::make_unique<Iface>(a, v - 9, 9);
        case 1:
            return F::make_unique<Iface>(a, v - 9, short{4}, 5LL);
        case 2:
            return F::make_unique<Iface>(a, v - 9, 2, 3, 4, 0, 0);
        case 3:
        {
            sim::Lent lent{v};
            return F::make_unique<Iface>(a, lent);
        }
        default:
            return F::make_unique<Iface>(a, sim::Given{v});
        }
    }
    template <typename H, typename F>
    bool build(Slot<H>& s, F f)
    {
        drop(s);
        const std::size_t b = blocks();
        const std::size_t l = sim::life.count();
        H*                h = nullptr;
        const Res         r = sim::call([&] { h = new H(f()); });
        explain(r);
        if (h == nullptr)
        {
            if (blocks() != b || sim::life.count() != l)
            {
                bad("memory", "failed creation left memory or an object behind");
            }
            return false;
        }
        s.h = h;
        if (!*h)
        {
            if (sim::ctx.injected_mem == 0)
            {
                bad("noexc", "null pointer although memory was available");
            }
            sim::outcome(1);
            return false;
        }
        s.full = true;
        return true;
    }
    void revive_u(Slot<UP>& s, std::int64_t salt)
    {
        if (s.h != nullptr && (s.full || salt % 4 == 0))
        {
            return;
        }
        Unlimited q(*this);
        drop(s);
        s.val  = 1 + salt % 50;
        s.h    = new UP(make_u(static_cast<int>(salt % 2), s.val));
        s.full = true;
    }
    void revive_i(Slot<IP>& s, std::int64_t salt)
    {
        if (s.h != nullptr && (s.full || salt % 4 == 0))
        {
            return;
        }
        Unlimited q(*this);
        drop(s);
        s.type = static_cast<int>(salt / 2 % 4);
        s.val  = 1 + salt % 50;
        with_type(s.type, [&](auto tag) {
            using C = typename decltype(tag)::type;
            s.h     = new IP(cetl::pmr::InterfaceFactory::make_unique<Iface>(Al<C>(&res_[salt % 2]), s.val));
        });
        s.full = true;
    }
    void revive_m(Slot<MP>& s, std::int64_t salt)
    {
        if (s.h != nullptr && !s.gone && (s.full || salt % 4 == 0))
        {
            return;
        }
        Unlimited q(*this);
        drop(s);
        make_m(s, static_cast<int>(salt % 2), 1 + static_cast<std::size_t>(salt / 2) % 60, std::size_t{1} << (salt % 7));
    }
    void make_m(Slot<MP>& s, int r, std::size_t n, std::size_t al)
    {
        if (!build(s, [&] {
                Pmr* const pmr = &res_[r];
                return MP(static_cast<unsigned char*>(pmr->allocate(n, al)), MD(pmr, n, al));
            }))
        {
            return;
        }
        s.val  = static_cast<std::int64_t>(n);
        s.type = static_cast<int>(al);
        for (std::size_t k = 0; k < n; ++k)
        {
            s.h->get()[k] = static_cast<unsigned char>(n + k);
        }
    }
    void make_c(Slot<CP>& s, int r, std::int64_t n, int mark)
    {
        if (!build(s, [&] {
                CAlloc<std::uint64_t> a(&res_[r]);
                std::uint64_t* const  q = a.allocate(static_cast<std::size_t>(n));
                return CP(q, CD(a, static_cast<std::size_t>(n)));
            }))
        {
            return;
        }
        s.val  = n;
        s.type = mark;
        for (std::int64_t k = 0; k < n; ++k)
        {
            s.h->get()[k] = static_cast<std::uint64_t>(mark + k);
        }
    }
    void revive_c(Slot<CP>& s, std::int64_t salt)
    {
        if (s.h != nullptr && (s.full || salt % 4 == 0))
        {
            return;
        }
        Unlimited q(*this);
        drop(s);
        make_c(s, static_cast<int>(salt % 2), 1 + salt / 2 % 6, static_cast<int>(salt % 100));
    }
    struct Unlimited
    {
        explicit Unlimited(W& w)
            : w_(w)
        {
            for (int i = 0; i < 2; ++i)
            {
                q_[i]             = w_.mem_[i].quota;
                w_.mem_[i].quota = ~std::size_t{0};
            }
            en_             = sim::ctx.fb;
            sim::ctx.fb     = sim::ctx.fe;
            ord_            = sim::ctx.ordinal;
        }
        ~Unlimited()
        {
            for (int i = 0; i < 2; ++i)
            {
                w_.mem_[i].quota = q_[i];
            }
            sim::ctx.fb      = en_;
            sim::ctx.ordinal = ord_;
        }
        W&                w_;
        std::size_t       q_[2];
        const sim::Fault* en_;
        std::uint32_t     ord_;
    };

    void step(const sim::Step& st)
    {
        const std::size_t si = static_cast<std::size_t>(st.a[0]) % kSlots;
        const std::size_t oi = (si + 1 + static_cast<std::size_t>(st.a[2]) % (kSlots - 1)) % kSlots;
        const int         ri = static_cast<int>(st.a[3] % 2);
        const std::int64_t x = 1 + st.a[3] % 1000;
        sim::trace("  slot %zu other %zu resource %d value %lld", si, oi, ri, static_cast<long long>(x));
        auto& u  = u_[si];
        auto& uo = u_[oi];
        auto& ip = i_[si];
        auto& io = i_[oi];
        auto& m  = m_[si];
        auto& mo = m_[oi];
        auto& c  = c_[si];
        auto& co = c_[oi];
        switch (st.op)
        {
        case U_MAKE:
            if (build(u, [&] { return make_u(ri, x); }))
            {
                u.val = x;
            }
            return;
        case U_MOVE:
            revive_u(uo, st.a[1]);
            drop(u);
            call_ok([&] { u.h = new UP(std::move(*uo.h)); });
            take(u, uo);
            return;
        case U_ASSIGN:
            revive_u(uo, st.a[1]);
            revive_u(u, st.a[1] + st.a[2]);
            if constexpr (!PA)
            {
                call_ok([&] { *u.h = std::move(*uo.h); });
                take(u, uo);
            }
            return;
        case U_SWAP:
            revive_u(uo, st.a[1]);
            revive_u(u, st.a[1] + st.a[2]);
            if constexpr (!PA)
            {
                call_ok([&] { u.h->swap(*uo.h); });
                exchange(u, uo);
            }
            return;
        case U_RESET:
            revive_u(u, st.a[1]);
            if ((st.a[2] & 1) != 0)
            {
                call_ok([&] { u.h->reset(); });
            }
            else
            {
                call_ok([&] { delete u.h; });
                u.h = nullptr;
            }
            u.full = false;
            return;
        case U_SELF:
            revive_u(u, st.a[1]);
            if constexpr (!PA)
            {
                UP& alias = *u.h;
                call_ok([&] { *u.h = std::move(alias); });
            }
            return;
        case U_ADOPT:
            revive_u(u, st.a[1]);
            if (u.full)
            {
                // hand the object over to another pointer with an equal deleter
                T* const raw = u.h->release();
                call_ok([&] {
                    UP n(raw, u.h->get_deleter());
                    delete u.h;
                    u.h = new UP(std::move(n));
                });
            }
            return;
        case I_MAKE:
        {
            const int k = static_cast<int>(st.a[1] % 4);
            with_type(k, [&](auto tag) {
                using C = typename decltype(tag)::type;
                if (build(ip, [&] {
                        // every fourth pointer gets a deleter that returns room for several objects
                        const std::size_t n = 1 + static_cast<std::size_t>(st.a[2] / 4 % 3);
                        return st.a[2] % 4 != 0 ? make_i<C>(Al<C>(&res_[ri]), x, st.a[3])
                                                : counted<C>(Al<C>(&res_[ri]), n, x);
                    }))
                {
                    ip.val  = x;
                    ip.type = k;
                }
            });
            return;
        }
        case I_MOVE:
            revive_i(io, st.a[1]);
            drop(ip);
            call_ok([&] { ip.h = new IP(std::move(*io.h)); });
            take(ip, io);
            return;
        case I_ASSIGN:
            revive_i(io, st.a[1]);
            revive_i(ip, st.a[1] + st.a[2]);
            call_ok([&] { *ip.h = std::move(*io.h); });
            take(ip, io);
            return;
        case I_SWAP:
            revive_i(io, st.a[1]);
            revive_i(ip, st.a[1] + st.a[2]);
            call_ok([&] { ip.h->swap(*io.h); });
            exchange(ip, io);
            return;
        case I_RESET:
            revive_i(ip, st.a[1]);
            switch (st.a[2] % 3)
            {
            case 0:
                call_ok([&] { ip.h->reset(); });
                break;
            case 1:
                call_ok([&] { *ip.h = nullptr; });
                break;
            default:
                call_ok([&] { delete ip.h; });
                ip.h = (st.a[2] & 8) != 0 ? new IP() : nullptr;
                break;
            }
            ip.full = false;
            return;
        case I_SELF:
            revive_i(ip, st.a[1]);
            {
                IP& alias = *ip.h;
                call_ok([&] { *ip.h = std::move(alias); });
            }
            return;
        case I_ADOPT:
            revive_i(ip, st.a[1]);
            if (ip.full)
            {
                Iface* const raw = ip.h->release();
                call_ok([&] {
                    IP n(raw, std::move(ip.h->get_deleter()));
                    delete ip.h;
                    ip.h = new IP(std::move(n));
                });
            }
            return;
        case I_SHARE:
            revive_i(ip, st.a[1]);
            if (ip.full)
            {
                call_ok([&] { sh_ = std::shared_ptr<Iface>(std::move(*ip.h)); });
                sh_val_ = ip.val;
                ip.full = false;
            }
            return;
        case I_DROP_SHARED:
            if (sh_)
            {
                std::shared_ptr<Iface> second = sh_;
                sh_.reset();
                if (second->get() != sh_val_)
                {
                    bad("lifetime", "shared object destroyed too early");
                }
                call_ok([&] { second.reset(); });
            }
            return;
        case M_MAKE:
            make_m(m, ri, 1 + static_cast<std::size_t>(st.a[1]) % 60, std::size_t{1} << (st.a[2] % 7));
            return;
        case M_MOVE:
            revive_m(mo, st.a[1]);
            drop(m);
            call_ok([&] { m.h = new MP(std::move(*mo.h)); });
            take(m, mo);
            mo.gone = true;
            return;
        case M_ASSIGN:
            revive_m(mo, st.a[1]);
            revive_m(m, st.a[1] + st.a[2]);
            call_ok([&] { *m.h = std::move(*mo.h); });
            take(m, mo);
            m.gone  = false;
            mo.gone = true;
            return;
        case M_RESET:
            revive_m(m, st.a[1]);
            call_ok([&] { m.h->reset(); });
            m.full = false;
            return;
        case M_SELF:
            revive_m(m, st.a[1]);
            {
                MP& alias = *m.h;
                call_ok([&] { *m.h = std::move(alias); });
            }
            return;
        case C_MAKE:
            make_c(c, ri, 1 + st.a[1] % 6, static_cast<int>(st.a[2] % 100));
            return;
        case C_MOVE:
            revive_c(co, st.a[1]);
            drop(c);
            call_ok([&] { c.h = new CP(std::move(*co.h)); });
            take(c, co);
            return;
        case C_ASSIGN:
            revive_c(co, st.a[1]);
            revive_c(c, st.a[1] + st.a[2]);
            call_ok([&] { *c.h = std::move(*co.h); });
            take(c, co);
            return;
        case C_COPY:
        {
            // the deleter is an lvalue: a copy of it takes over, by construction or by assignment
            revive_c(co, st.a[1]);
            revive_c(c, st.a[1] + st.a[2]);
            call_ok([&] {
                c.h->reset();
                if ((st.a[2] & 1) != 0)
                {
                    c.h->get_deleter() = co.h->get_deleter();
                    c.h->reset(co.h->release());
                }
                else
                {
                    delete c.h;
                    c.h = nullptr;
                    c.h = new CP(co.h->get(), co.h->get_deleter());
                    (void) co.h->release();
                }
            });
            take(c, co);
            return;
        }
        case C_SWAP:
            revive_c(co, st.a[1]);
            revive_c(c, st.a[1] + st.a[2]);
            call_ok([&] { c.h->swap(*co.h); });
            exchange(c, co);
            return;
        case C_RESET:
            revive_c(c, st.a[1]);
            call_ok([&] { c.h->reset(); });
            c.full = false;
            return;
        case WRITE:
            revive_u(u, st.a[1]);
            revive_i(ip, st.a[1] + 1);
            if (u.full)
            {
                (*u.h)->put(x);
                u.val = x;
            }
            if (ip.full)
            {
                (*ip.h)->put(x + 1);
                ip.val = x + 1;
            }
            sim::outcome(0);
            return;
        case QUOTA:
            mem_[ri].quota = (st.a[1] % 2) != 0 ? ~std::size_t{0} : mem_[ri].live_bytes() + static_cast<std::size_t>(st.a[2]) % 200;
            sim::outcome(0);
            return;
        default:
            return;
        }
    }
    template <typename C>
    static IP counted(Al<C> a, std::size_t n, std::int64_t v)
    {
        C* const c = a.allocate(n);
        if (c == nullptr)
        {
            return IP();
        }
#if SIM_EXC
        try
        {
            a.construct(c, v);
        }
        catch (...)
        {
            a.deallocate(c, n);
            throw;
        }
#else
        a.construct(c, v);
#endif
        return IP(c, cetl::pmr::PmrInterfaceDeleter<Iface>(a, n));
    }
    template <typename F>
    void call_ok(F f)
    {
        const Res r = sim::call(f);
        explain(r);
        if (r != Res::ok)
        {
            bad("exc", "an operation that only passes ownership on failed");
        }
    }
    template <typename S>
    static void take(S& d, S& s)
    {
        d.full = s.full;
        d.val  = s.val;
        d.type = s.type;
        s.full = false;
    }
    template <typename S>
    static void exchange(S& d, S& s)
    {
        std::swap(d.full, s.full);
        std::swap(d.val, s.val);
        std::swap(d.type, s.type);
    }

    Mem                    mem_[2]{Mem{0}, Mem{1}};
    sim::SimResource       res_[2]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}};
    Slot<UP>               u_[kSlots];
    Slot<IP>               i_[kSlots];
    Slot<MP>               m_[kSlots];
    Slot<CP>               c_[kSlots];
    std::shared_ptr<Iface> sh_;
    std::int64_t           sh_val_{0};
};

template <typename T, bool PA>
void exec(const sim::Plan& p)
{
    W<T, PA> w(p);
    w.run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "ptr",
        {{"factory_make", 12}, {"factory_move", 5}, {"factory_assign", 5}, {"factory_swap", 3}, {"factory_reset", 4}, {"factory_self", 1},
         {"factory_adopt", 2}, {"iface_make", 12},  {"iface_move", 5},     {"iface_assign", 6}, {"iface_swap", 4},    {"iface_reset", 4},
         {"iface_self", 1},    {"iface_adopt", 2},  {"iface_share", 2},    {"drop_shared", 2},  {"mem_make", 6},      {"mem_move", 4},
         {"mem_assign", 5},    {"mem_reset", 3},    {"mem_self", 1},       {"count_make", 4},
         {"count_move", 2},    {"count_assign", 3}, {"count_copy", 3},     {"count_swap", 2},   {"count_reset", 2},   {"write", 3},        {"quota", 2}},
        {{"single_pmr", &exec<C0, true>, 2},
         {"multi_pmr", &exec<C1, true>, 2},
         {"aligned_pmr", &exec<C3, true>, 2},
         {"multi_plain", &exec<C1, false>, 2},
         {"big_plain", &exec<C2, false>, 2},
         {"aligned_plain", &exec<C3, false>, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "Factory, PolymorphicDeleter, InterfaceFactory, InterfacePtr, PmrInterfaceDeleter, MemoryResourceDeleter, function, polymorphic_allocator",
        "memory resources, objects",
    };
    return w;
}
