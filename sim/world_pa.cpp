// World: polymorphic_allocator handing several memory resources down to single objects, pairs and nested containers.
#include "sim_pmr.hpp"
#include <list>
#include <map>
#include <memory>
#include <tuple>
#include <utility>
#include <vector>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;

enum Op : int
{
    RAW_MAKE,
    RAW_DROP,
    RAW_HUGE,
    BYTES_MAKE,
    BYTES_REALLOC,
    BYTES_REALLOC_HUGE,
    V_PUSH,
    V_PUSH_INNER,
    V_COPY,
    V_ASSIGN,
    V_MOVE,
    V_POP,
    V_CLEAR,
    M_PUT,
    M_INSERT,
    M_ERASE,
    M_COPY,
    M_ASSIGN,
    M_MOVE,
    L_PUSH,
    L_POP,
    QUOTA,
    OP_COUNT
};

constexpr int kRes   = 3;
constexpr int kSlots = 3;

constexpr unsigned kFlags = sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE;

/// Object that takes an allocator and keeps a block of its memory.
template <bool Leading, int Tag>
class Aware
{
public:
    using allocator_type = PA<std::int64_t>;

    Aware(std::allocator_arg_t, const allocator_type& a)
        : Aware(0, a, 0)
    {
        static_assert(Leading, "");
    }
    Aware(std::allocator_arg_t, const allocator_type& a, std::int64_t v)
        : Aware(v, a, 0)
    {
    }
    Aware(std::allocator_arg_t, const allocator_type& a, const Aware& o)
        : Aware(o.value(), a, 0)
    {
    }

    ~Aware()
    {
        if (p_ != nullptr)
        {
            a_.deallocate(p_, 2);
        }
    }
    Aware& operator=(const Aware&) = delete;

    std::int64_t value() const
    {
        if (p_ != nullptr && (p_[0] != t_.value() || p_[1] != ~t_.value()))
        {
            sim::violation("content", "memory of an object was overwritten");
        }
        return t_.value();
    }
    const void* resource() const
    {
        return a_.resource();
    }
    bool holds() const
    {
        return p_ != nullptr;
    }

protected:
    Aware(std::int64_t v, const allocator_type& a, int)
        : a_(a)
        , t_(v)
        , p_(a_.allocate(2))
    {
        if (p_ != nullptr)
        {
            p_[0] = v;
            p_[1] = ~v;
        }
    }

private:
    allocator_type            a_;
    sim::Tracked<Tag, kFlags> t_;
    std::int64_t*             p_;
};

class Lead final : public Aware<true, 1>
{
public:
    using Aware<true, 1>::Aware;
    Lead(std::allocator_arg_t x, const allocator_type& a, const Lead& o)
        : Aware<true, 1>(x, a, o.value())
    {
    }
};
class Trail final : public Aware<false, 2>
{
public:
    using Base = Aware<false, 2>;
    explicit Trail(const allocator_type& a)
        : Base(0, a, 0)
    {
    }
    Trail(std::int64_t v, const allocator_type& a)
        : Base(v, a, 0)
    {
    }
    Trail(const Trail& o, const allocator_type& a)
        : Base(o.value(), a, 0)
    {
    }
};
using Plain = sim::Tracked<3, kFlags, 3>;

/// More aligned than anything the platform aligns to by itself.
class alignas(64) Over final
{
public:
    explicit Over(std::int64_t v)
        : t_(v)
    {
    }
    std::int64_t value() const
    {
        return t_.value();
    }

private:
    sim::Tracked<4, kFlags> t_;
};

using P1 = std::pair<Lead, Trail>;
using P2 = std::pair<std::int64_t, Trail>;
using P3 = std::pair<Lead, Plain>;
using P4 = std::pair<Trail, Over>;

// ---- uniform access
inline std::int64_t val(const Lead& o)
{
    return o.value();
}
inline std::int64_t val(const Trail& o)
{
    return o.value();
}
inline std::int64_t val(const Plain& o)
{
    return o.value();
}
inline std::int64_t val(const Over& o)
{
    return o.value();
}
inline std::int64_t val(std::int64_t v)
{
    return v;
}
template <typename A, typename B>
std::int64_t val(const std::pair<A, B>& p)
{
    const std::int64_t a = val(p.first);
    const std::int64_t b = val(p.second);
    if (b != (a == 0 ? 0 : a + 1))
    {
        sim::violation("content", "members of a constructed pair have wrong values");
    }
    return a;
}
inline bool on(const Lead& o, const void* r)
{
    return o.resource() == r;
}
inline bool on(const Trail& o, const void* r)
{
    return o.resource() == r;
}
inline bool on(const Plain&, const void*)
{
    return true;
}
inline bool on(const Over&, const void*)
{
    return true;
}
inline bool on(std::int64_t, const void*)
{
    return true;
}
template <typename A, typename B>
bool on(const std::pair<A, B>& p, const void* r)
{
    return on(p.first, r) && on(p.second, r);
}

/// Source of a value that knows whether it was copied or given away.
struct Given
{
    explicit Given(std::int64_t x)
        : v(x)
    {
    }
    operator std::int64_t() const&
    {
        copied = true;
        return v;
    }
    operator std::int64_t() &&
    {
        return v;
    }
    std::int64_t v;
    mutable bool copied{false};
};

template <typename T>
constexpr bool kPlain = std::is_same_v<T, Plain> || std::is_same_v<T, Over>;

template <typename T>
class W final
{
    using In  = std::vector<std::int64_t, PA<std::int64_t>>;
    using V   = std::vector<In, PA<In>>;
    using M   = std::map<int, In, std::less<int>, PA<std::pair<const int, In>>>;
    using L   = std::list<T, PA<T>>;
    using MV  = std::vector<std::vector<std::int64_t>>;
    using MM  = std::map<int, std::vector<std::int64_t>>;

    struct Raw
    {
        T*                        p;
        std::size_t               n;
        std::size_t               built;
        int                       r;
        std::vector<std::int64_t> v;
    };
    struct Bytes
    {
        std::int64_t* p;
        std::size_t   n;
        int           r;
        std::int64_t  salt;
    };

public:
    explicit W(const sim::Plan& p)
    {
        for (auto& m : mem_)
        {
            m.cls          = "memory";
            m.realloc_mode = static_cast<sim::ReallocMode>(p.cfg[0] % 5);
        }
        for (int i = 0; i < kSlots; ++i)
        {
            v_[i] = std::make_unique<V>(PA<In>(&res_[i % kRes]));
            m_[i] = std::make_unique<M>(PA<std::pair<const int, In>>(&res_[i % kRes]));
        }
        l_ = std::make_unique<L>(PA<T>(&res_[p.cfg[1] % kRes]));
    }
    /// Allocators are equal exactly when their resources are, whichever objects stand for them.
    void compare()
    {
        for (int i = 0; i < kRes; ++i)
        {
            sim::SimResource            twin(mem_[i]);
            const PA<T>                 a(&res_[i]);
            const PA<std::int64_t>      b(&twin);
            const PA<T>                 c(&res_[(i + 1) % kRes]);
            const cetl::pf17::pmr::memory_resource& x = res_[i];
            const cetl::pf17::pmr::memory_resource& y = twin;
            const cetl::pf17::pmr::memory_resource& z = res_[(i + 1) % kRes];
            if (!(a == b) || a != b || a == c || !(a != c) || !(x == y) || x != y || x == z || !(x != z) || !(x == x))
            {
                bad("propagate", "allocators or resources compare wrongly");
            }
            if (a.max_size() != mem_[i].max_size / sizeof(T) || PA<T>(b).resource() != &twin || a.select_on_container_copy_construction().resource() != &res_[i])
            {
                bad("propagate", "an allocator reports or hands on the wrong resource");
            }
        }
    }
    void run(const sim::Plan& p)
    {
        compare();
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        while (!raw_.empty())
        {
            drop_raw(raw_.size() - 1);
        }
        while (!by_.empty())
        {
            drop_bytes(by_.size() - 1);
        }
        for (int i = 0; i < kSlots; ++i)
        {
            v_[i].reset();
            m_[i].reset();
        }
        l_.reset();
        sim::life.check_empty("everything destroyed");
        for (auto& m : mem_)
        {
            m.check_empty("everything destroyed");
        }
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    std::size_t blocks() const
    {
        return mem_[0].live_blocks() + mem_[1].live_blocks() + mem_[2].live_blocks();
    }
    bool explain(Res r)
    {
        switch (r)
        {
        case Res::ok:
            sim::outcome(0);
#if SIM_EXC
            if (sim::ctx.injected > 0 && sim::ctx.injected != realloc_faults_)
            {
                bad("exc", "a failure inside the operation did not reach the caller");
            }
#endif
            return true;
        case Res::injected:
        case Res::bad_alloc:
            sim::outcome(1);
            return false;
        default:
            sim::violation("exc", "unexpected exception");
        }
        return false;
    }
    void drop_raw(std::size_t i)
    {
        Raw   w = std::move(raw_[i]);
        PA<T> a(&res_[w.r]);
        raw_.erase(raw_.begin() + static_cast<std::ptrdiff_t>(i));
        for (std::size_t k = w.built; k > 0; --k)
        {
            a.destroy(w.p + k - 1);
        }
        a.deallocate(w.p, w.n);
    }
    void drop_bytes(std::size_t i)
    {
        const Bytes b = by_[i];
        by_.erase(by_.begin() + static_cast<std::ptrdiff_t>(i));
        PA<std::int64_t> a(&res_[b.r]);
        a.deallocate(b.p, b.n);
    }
    void check_in(const In& in, const std::vector<std::int64_t>& m, int r)
    {
        if (in.get_allocator().resource() != &res_[r])
        {
            bad("propagate", "a nested container does not use the resource of its container");
        }
        if (in.capacity() > 0 && !mem_[r].owns(in.data(), in.capacity() * sizeof(std::int64_t)))
        {
            bad("memory", "memory of a nested container comes from a wrong resource");
        }
        if (in.size() != m.size() || !std::equal(in.begin(), in.end(), m.begin()))
        {
            bad("content", "a nested container has wrong contents");
        }
    }
    void check_all()
    {
        std::uint64_t h = 0;
        for (int i = 0; i < kSlots; ++i)
        {
            const V& v = *v_[i];
            if (v.size() != mv_[i].size())
            {
                bad("content", "a container has a wrong size");
            }
            if (v.get_allocator().resource() != &res_[i])
            {
                bad("propagate", "a container changed its resource");
            }
            for (std::size_t k = 0; k < v.size(); ++k)
            {
                check_in(v[k], mv_[i][k], i);
            }
            const M& m = *m_[i];
            if (m.size() != mm_[i].size())
            {
                bad("content", "a map has a wrong size");
            }
            for (const auto& kv : m)
            {
                const auto it = mm_[i].find(kv.first);
                if (it == mm_[i].end())
                {
                    bad("content", "a map has a wrong key");
                }
                if (!mem_[i].owns(&kv, sizeof(kv)))
                {
                    bad("memory", "a map node comes from a wrong resource");
                }
                check_in(kv.second, it->second, i);
            }
            h = sim::mix(h, v.size() * 16 + m.size());
        }
        std::size_t k = 0;
        for (const auto& o : *l_)
        {
            if (val(o) != ml_[k++])
            {
                bad("content", "a list element has a wrong value");
            }
            if (!on(o, l_->get_allocator().resource()))
            {
                bad("propagate", "a list element does not use the resource of the list");
            }
        }
        for (const auto& w : raw_)
        {
            for (std::size_t j = 0; j < w.built; ++j)
            {
                if (val(w.p[j]) != w.v[j])
                {
                    bad("content", "a constructed object has a wrong value");
                }
                if (!on(w.p[j], &res_[w.r]))
                {
                    bad("propagate", "a constructed object does not use the resource of the allocator");
                }
            }
            if (!mem_[w.r].owns(w.p, w.n * sizeof(T)))
            {
                bad("memory", "allocated memory does not come from the resource");
            }
        }
        for (const auto& b : by_)
        {
            if (!mem_[b.r].owns(b.p, b.n * sizeof(std::int64_t)))
            {
                bad("memory", "memory for the requested number of objects is too small");
            }
            for (std::size_t j = 0; j < b.n; ++j)
            {
                if (b.p[j] != b.salt + static_cast<std::int64_t>(j))
                {
                    bad("content", "reallocation lost data");
                }
            }
        }
        sim::state(sim::mix(h, raw_.size() * 64 + by_.size() * 8 + ml_.size()));
    }

    /// Constructs one object through one of the construct() forms; returns the expected value.
    static std::int64_t construct(PA<T>& a, T* p, int form, std::int64_t x)
    {
        if constexpr (kPlain<T> || std::is_same_v<T, Lead> || std::is_same_v<T, Trail>)
        {
            if constexpr (!kPlain<T>)
            {
                if (form % 3 == 0)
                {
                    a.construct(p);
                    return 0;
                }
            }
            if (form % 3 == 1)
            {
                Given from{x};
                a.construct(p, std::move(from));
                if (from.copied)
                {
                    bad("transfer", "an argument given away was copied");
                }
                return x;
            }
            sim::Lent lent{x};
            a.construct(p, lent);
            return x;
        }
        else
        {
            using F = typename T::first_type;
            using S = typename T::second_type;
            switch (form % 12)
            {
            case 8:
            case 9:
            case 10:
            {
                sim::Lent f{x};
                Given     s{x + 1};
                if (form % 12 == 8)
                {
                    a.construct(p, f, std::move(s));
                }
                else if (form % 12 == 9)
                {
                    a.construct(p, std::piecewise_construct, std::forward_as_tuple(f), std::forward_as_tuple(std::move(s)));
                }
                else
                {
                    a.construct(p, std::pair<sim::Lent&, Given&&>(f, std::move(s)));
                }
                if (s.copied)
                {
                    bad("transfer", "a member given away was copied");
                }
                return x;
            }
            case 11:
            {
                std::pair<sim::Lent, sim::Lent> from{sim::Lent{x}, sim::Lent{x + 1}};
                a.construct(p, from);
                return x;
            }
            case 6:
            case 7:
            {
                Given f{x};
                Given s{x + 1};
                if (form % 12 == 6)
                {
                    a.construct(p, std::move(f), std::move(s));
                }
                else
                {
                    a.construct(p, std::piecewise_construct, std::forward_as_tuple(std::move(f)), std::forward_as_tuple(std::move(s)));
                }
                if (f.copied || s.copied)
                {
                    bad("transfer", "a member given away was copied");
                }
                return x;
            }
            case 5:
            {
                std::pair<Given, Given> from{Given{x}, Given{x + 1}};
                a.construct(p, std::move(from));
                if (from.first.copied || from.second.copied)
                {
                    bad("transfer", "a pair given away was copied");
                }
                return x;
            }
            case 0:
                if constexpr (!kPlain<S>)
                {
                    a.construct(p);
                    return 0;
                }
                [[fallthrough]];
            case 1:
                a.construct(p, x, x + 1);
                return x;
            case 2:
                a.construct(p, std::piecewise_construct, std::make_tuple(x), std::make_tuple(x + 1));
                return x;
            case 3:
            {
                const std::int64_t y = x + 1;
                a.construct(p, std::piecewise_construct, std::forward_as_tuple(x), std::tie(y));
                return x;
            }
            default:
            {
                const std::pair<std::int64_t, int> from{x, static_cast<int>(x + 1)};
                (void) sizeof(F);
                a.construct(p, from);
                return x;
            }
            }
        }
    }

    template <typename F>
    bool guarded(F f)
    {
        const Res r = sim::call(f);
        return explain(r);
    }
    static MV model(const V& v)
    {
        MV m;
        for (const auto& in : v)
        {
            m.emplace_back(in.begin(), in.end());
        }
        return m;
    }
    static MM model(const M& x)
    {
        MM m;
        for (const auto& kv : x)
        {
            m.emplace(kv.first, std::vector<std::int64_t>(kv.second.begin(), kv.second.end()));
        }
        return m;
    }
    /// What a failed or moved-from standard container holds is its own business.
    void resync(int i)
    {
        mv_[i] = model(*v_[i]);
        mm_[i] = model(*m_[i]);
    }

    void step(const sim::Step& st)
    {
        realloc_faults_     = 0;
        const int          r = static_cast<int>(st.a[0] % kRes);
        const int          i = static_cast<int>(st.a[0] % kSlots);
        const int          j = static_cast<int>((i + 1 + st.a[1] % (kSlots - 1)) % kSlots);
        const std::int64_t x = 1 + st.a[3] % 1000;
        switch (st.op)
        {
        case RAW_MAKE:
        {
            if (raw_.size() >= 6)
            {
                drop_raw(0);
            }
            const std::size_t n = 1 + static_cast<std::size_t>(st.a[1]) % 5;
            PA<T>             a(&res_[r]);
            T*                p = nullptr;
            if (!guarded([&] { p = a.allocate(n); }))
            {
                return;
            }
            if (p == nullptr)
            {
                if (sim::ctx.injected_mem == 0)
                {
                    bad("noexc", "null although memory was available");
                }
                sim::outcome(1);
                return;
            }
            const auto it = mem_[r].blocks().find(reinterpret_cast<std::uintptr_t>(p));
            if (it == mem_[r].blocks().end() || it->second.size != n * sizeof(T) || it->second.align != alignof(T))
            {
                bad("memory", "the resource was asked for a wrong size or alignment");
            }
            raw_.push_back(Raw{p, n, 0, r, {}});
            Raw& w = raw_.back();
            for (std::size_t k = 0; k < n; ++k)
            {
                const std::size_t b = blocks();
                const std::size_t l = sim::life.count();
                std::int64_t      v = 0;
                if (!guarded([&] { v = construct(a, p + k, static_cast<int>(st.a[2] + static_cast<std::int64_t>(k)), x + static_cast<std::int64_t>(k)); }))
                {
                    if (blocks() != b || sim::life.count() != l)
                    {
                        bad("memory", "failed construction left something behind");
                    }
                    drop_raw(raw_.size() - 1);
                    return;
                }
                w.v.push_back(v);
                ++w.built;
            }
            return;
        }
        case RAW_DROP:
            if (!raw_.empty())
            {
                drop_raw(static_cast<std::size_t>(st.a[1]) % raw_.size());
                sim::outcome(0);
            }
            return;
        case RAW_HUGE:
        {
            const std::size_t top = ~std::size_t{0} / sizeof(T);
            const std::size_t n   = st.a[1] % 4 == 0 ? ~std::size_t{0} : st.a[1] % 4 == 1 ? top + 1 + static_cast<std::size_t>(st.a[2]) % 9 : st.a[1] % 4 == 2 ? top : (top + 1) * 2;
            if (n < top)
            {
                return;
            }
            PA<T>      a(&res_[r]);
            const auto q = mem_[r].requests;
            T*         p = nullptr;
            const Res  e = sim::call([&] { p = a.allocate(n); });
            if (n > top && (p != nullptr || mem_[r].requests != q))
            {
                bad("bound", "a count whose byte size cannot be represented was not refused");
            }
            if (n == top && mem_[r].requests == q)
            {
                bad("memory", "a count whose byte size can be represented did not reach the resource");
            }
#if SIM_EXC
            if (n > top ? e != Res::std_bad_alloc : e != Res::bad_alloc)
            {
                bad("exc", "an impossible count was not reported as bad_alloc");
            }
#endif
            sim::outcome(2);
            return;
        }
        case BYTES_MAKE:
        {
            if (by_.size() >= 6)
            {
                drop_bytes(0);
            }
            const std::size_t n = 1 + static_cast<std::size_t>(st.a[1]) % 9;
            PA<std::int64_t>  a(&res_[r]);
            std::int64_t*     p = nullptr;
            if (!guarded([&] { p = a.allocate(n); }) || p == nullptr)
            {
                return;
            }
            by_.push_back(Bytes{p, n, r, x});
            for (std::size_t k = 0; k < n; ++k)
            {
                p[k] = x + static_cast<std::int64_t>(k);
            }
            return;
        }
        case BYTES_REALLOC:
        case BYTES_REALLOC_HUGE:
        {
            if (by_.empty())
            {
                return;
            }
            Bytes&           b = by_[static_cast<std::size_t>(st.a[1]) % by_.size()];
            PA<std::int64_t> a(&res_[b.r]);
            std::size_t      n = 1 + static_cast<std::size_t>(st.a[2]) % 20;
            if (st.op == BYTES_REALLOC_HUGE)
            {
                n = (~std::size_t{0} / sizeof(std::int64_t)) + 1 + static_cast<std::size_t>(st.a[2]) % 20;
            }
            const auto    q = mem_[b.r].requests;
            std::int64_t* p = nullptr;
            const Res     e = sim::call([&] { p = a.reallocate(b.p, b.n, n); });
            if (st.op == BYTES_REALLOC_HUGE)
            {
                if (p != nullptr || mem_[b.r].requests != q)
                {
                    bad("bound", "a count whose byte size cannot be represented was not refused");
                }
                sim::outcome(2);
                return;
            }
            if (mem_[b.r].requests == q)
            {
                bad("memory", "the resource was not asked to reallocate");
            }
            if (e != Res::ok || p == nullptr)
            {
                sim::outcome(1);
                return;
            }
            for (std::size_t k = b.n; k < n; ++k)
            {
                p[k] = b.salt + static_cast<std::int64_t>(k);
            }
            b.p = p;
            b.n = n;
            sim::outcome(0);
            return;
        }
        case QUOTA:
            mem_[r].quota = (st.a[1] % 2) != 0 ? ~std::size_t{0} : mem_[r].live_bytes() + static_cast<std::size_t>(st.a[2]) % 400;
            sim::outcome(0);
            return;
        default:
#if SIM_EXC
            containers(st, i, j, x);
#endif
            return;
        }
    }
    void containers(const sim::Step& st, int i, int j, std::int64_t x)
    {
        V& v = *v_[i];
        M& m = *m_[i];
        switch (st.op)
        {
        case V_PUSH:
            if (v.size() < 8 && guarded([&] { v.emplace_back(); }))
            {
                mv_[i].emplace_back();
            }
            resync_if_failed(i);
            return;
        case V_PUSH_INNER:
            if (!v.empty())
            {
                const std::size_t k = static_cast<std::size_t>(st.a[2]) % v.size();
                if (v[k].size() < 12 && guarded([&] { v[k].push_back(x); }))
                {
                    mv_[i][k].push_back(x);
                }
            }
            return;
        case V_COPY:
        {
            // copy with the other's resource, then put the copy's elements into this container
            const V&          o = *v_[j];
            const std::size_t b = blocks();
            std::unique_ptr<V> c;
            if (guarded([&] { c = std::make_unique<V>(o, v.get_allocator()); }))
            {
                v_[i].swap(c);
                mv_[i] = mv_[j];
            }
            else if (blocks() != b)
            {
                bad("memory", "failed copy left memory behind");
            }
            return;
        }
        case V_ASSIGN:
            if (guarded([&] { v = *v_[j]; }))
            {
                mv_[i] = mv_[j];
            }
            resync_if_failed(i);
            return;
        case V_MOVE:
            // element-wise: the resources differ
            if (guarded([&] { v = std::move(*v_[j]); }))
            {
                mv_[i] = mv_[j];
            }
            resync_if_failed(i);
            resync(j);
            return;
        case V_POP:
            if (!v.empty())
            {
                v.pop_back();
                mv_[i].pop_back();
                sim::outcome(0);
            }
            return;
        case V_CLEAR:
            v.clear();
            m.clear();
            mv_[i].clear();
            mm_[i].clear();
            sim::outcome(0);
            return;
        case M_PUT:
        {
            const int k = static_cast<int>(st.a[2] % 6);
            if (guarded([&] { m[k].push_back(x); }))
            {
                mm_[i][k].push_back(x);
            }
            resync_if_failed(i);
            return;
        }
        case M_INSERT:
        {
            const int                 k = static_cast<int>(st.a[2] % 6);
            std::vector<std::int64_t> vals{x, x + 1, x + 2};
            const In*                 other = v_[j]->empty() ? nullptr : &v_[j]->front();
            const bool                fresh = mm_[i].count(k) == 0;
            if (guarded([&] {
                    if (other != nullptr)
                    {
                        m.emplace(k, *other);  // copy of a container on another resource
                    }
                    else
                    {
                        m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(vals.begin(), vals.end()));
                    }
                }) &&
                fresh)
            {
                mm_[i][k] = other != nullptr ? mv_[j].front() : vals;
            }
            return;
        }
        case M_ERASE:
            if (!m.empty())
            {
                mm_[i].erase(m.begin()->first);
                m.erase(m.begin());
                sim::outcome(0);
            }
            return;
        case M_COPY:
        {
            std::unique_ptr<M> c;
            const std::size_t  b = blocks();
            if (guarded([&] { c = std::make_unique<M>(*m_[j], m.get_allocator()); }))
            {
                m_[i].swap(c);
                mm_[i] = mm_[j];
            }
            else if (blocks() != b)
            {
                bad("memory", "failed copy left memory behind");
            }
            return;
        }
        case M_ASSIGN:
            if (guarded([&] { m = *m_[j]; }))
            {
                mm_[i] = mm_[j];
            }
            resync_if_failed(i);
            return;
        case M_MOVE:
            if (guarded([&] { m = std::move(*m_[j]); }))
            {
                mm_[i] = mm_[j];
            }
            resync_if_failed(i);
            resync(j);
            return;
        case L_PUSH:
            if (l_->size() < 10)
            {
                if constexpr (kPlain<T> || std::is_same_v<T, Lead> || std::is_same_v<T, Trail>)
                {
                    if (guarded([&] { l_->emplace_back(x); }))
                    {
                        ml_.push_back(x);
                    }
                }
                else
                {
                    if (guarded([&] { l_->emplace_back(x, x + 1); }))
                    {
                        ml_.push_back(x);
                    }
                }
            }
            return;
        case L_POP:
            if (!l_->empty())
            {
                l_->pop_front();
                ml_.erase(ml_.begin());
                sim::outcome(0);
            }
            return;
        default:
            return;
        }
    }
    void resync_if_failed(int i)
    {
        if (sim::ctx.injected > 0)
        {
            resync(i);
        }
    }

    Mem                       mem_[kRes]{Mem{0}, Mem{1}, Mem{2}};
    sim::SimResource          res_[kRes]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}, sim::SimResource{mem_[2]}};
    std::unique_ptr<V>        v_[kSlots];
    std::unique_ptr<M>        m_[kSlots];
    std::unique_ptr<L>        l_;
    MV                        mv_[kSlots];
    MM                        mm_[kSlots];
    std::vector<std::int64_t> ml_;
    std::vector<Raw>          raw_;
    std::vector<Bytes>        by_;
    std::uint32_t             realloc_faults_{0};
};

template <typename T>
void exec(const sim::Plan& p)
{
    W<T> w(p);
    w.run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "pa",
        {{"make_objects", 10}, {"drop_objects", 3},  {"allocate_huge", 1}, {"make_bytes", 3}, {"reallocate", 3}, {"reallocate_huge", 1},
         {"vec_push", 6},      {"vec_push_inner", 8}, {"vec_copy", 3},      {"vec_assign", 4}, {"vec_move", 3},   {"vec_pop", 2},
         {"clear", 1},         {"map_put", 6},       {"map_insert", 4},    {"map_erase", 2},  {"map_copy", 2},   {"map_assign", 2},
         {"map_move", 2},      {"list_push", 4},     {"list_pop", 2},      {"quota", 2}},
        {{"plain", &exec<Plain>, 1},
         {"leading", &exec<Lead>, 2},
         {"trailing", &exec<Trail>, 2},
         {"pair_aware", &exec<P1>, 2},
         {"pair_trailing", &exec<P2>, 2},
         {"pair_mixed", &exec<P3>, 2},
         {"over_aligned", &exec<Over>, 1},
         {"pair_over_aligned", &exec<P4>, 1}},
        4,
        50,
        nullptr,
        true,
        false,
        "polymorphic_allocator and its uses-allocator construction; std::vector, std::map and std::list as containers",
        "memory resources, objects",
    };
    return w;
}
