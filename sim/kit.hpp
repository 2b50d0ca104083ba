// A set of objects of every kind with operations on them; what they give depends on nothing but the operations. Used by the
// worlds that let several such sets run at the same time. Must stay valid C++14.
#ifndef KIT_HPP
#define KIT_HPP
#include "sim.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/string_view.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/pf20/span.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <cetl/visit_helpers.hpp>
#include <memory>
#include <new>
#include <stdexcept>
#include <utility>

/// Where user code called by the library gets control.
#ifndef KIT_POINT
#    define KIT_POINT() ((void) 0)
#endif
/// Where user code called by the library fails.
#ifndef KIT_FAULT
#    define KIT_FAULT(kind) ((void) 0)
#endif

namespace
{
namespace pmr = cetl::pf17::pmr;
using Pmr     = pmr::memory_resource;

enum Op : int
{
    VLA,
    VBOOL,
    UVAR,
    FUNC,
    OPT,
    VAR,
    PTR,
    BUF,
    MONO,
    ALLOC,
    SYS,
    MISC,
    OP_COUNT
};

struct Err
{
    std::int64_t v;
};

/// Failure plan of one thread.
struct Budget
{
    int copies{0};  // 0: never fails; n: the n-th copy fails
};

struct Val
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {0x70, 1};
    }
    std::int64_t v;
    Budget*      b;
    explicit Val(std::int64_t x = 0, Budget* y = nullptr)
        : v(x)
        , b(y)
    {
        KIT_POINT();
    }
    Val(const Val& o)
        : v(o.v)
        , b(o.b)
    {
        KIT_POINT();
        may_fail();
    }
    Val(Val&& o) noexcept
        : v(o.v)
        , b(o.b)
    {
        o.v = -2;
        KIT_POINT();
    }
    Val& operator=(const Val& o)
    {
        b = o.b;
        KIT_POINT();
        may_fail();
        v = o.v;
        return *this;
    }
    Val& operator=(Val&& o) noexcept
    {
        v   = o.v;
        b   = o.b;
        o.v = -2;
        KIT_POINT();
        return *this;
    }
    ~Val()
    {
        KIT_POINT();
        v = -1;
    }
    void may_fail() const
    {
        if (b != nullptr && b->copies > 0 && --b->copies == 0)
        {
            KIT_FAULT(K_COPY);
            throw Err{v};
        }
    }
    bool operator==(const Val& o) const
    {
        KIT_POINT();
        return v == o.v;
    }
    bool operator!=(const Val& o) const
    {
        KIT_POINT();
        return v != o.v;
    }
    bool operator<(const Val& o) const
    {
        KIT_POINT();
        return v < o.v;
    }
};
struct Big : Val
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {0x71, 1};
    }
    using Val::Val;
    char pad[80];
};

struct IFace : cetl::rtti_helper<cetl::type_id_type<0x72, 1>>
{
    virtual std::int64_t get() const = 0;
};
struct ISecond : cetl::rtti_helper<cetl::type_id_type<0x73, 1>>
{
    virtual std::int64_t other() const = 0;
};
struct Impl : cetl::rtti_helper<cetl::type_id_type<0x74, 1>, IFace, ISecond>
{
    explicit Impl(const Val& x)
        : val(x)
    {
    }
    std::int64_t get() const override
    {
        return val.v;
    }
    std::int64_t other() const override
    {
        return val.v + 1;
    }
    Val val;
};

/// Memory of one thread; fails by count.
class Src final : public Pmr
{
public:
    int fail_in{0};  // 0: never
    int live{0};

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        KIT_POINT();
        if (a > 16 || (fail_in > 0 && --fail_in == 0))
        {
            KIT_FAULT(K_ALLOC);
            throw std::bad_alloc();
        }
        ++live;
        return ::operator new(n);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override
    {
        KIT_POINT();
        if (p != nullptr)
        {
            --live;
        }
        ::operator delete(p);
    }
    bool do_is_equal(const Pmr& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return 4096;
    }
    void* do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t) override
    {
        (void) p;
        return n <= o ? p : nullptr;
    }
};

using Arr  = cetl::VariableLengthArray<Val, pmr::polymorphic_allocator<Val>>;
using Bits = cetl::VariableLengthArray<bool, pmr::polymorphic_allocator<bool>>;
using Uv   = cetl::unbounded_variant<32, true, true, alignof(std::max_align_t), Pmr>;
using Uin  = cetl::unbounded_variant<128>;
using Fn   = cetl::pmr::function<std::int64_t(std::int64_t), 24, Pmr>;
using Fin  = cetl::pmr::function<std::int64_t(std::int64_t), 128>;
using Opt  = cetl::pf17::optional<Val>;
using Var  = cetl::pf17::variant<cetl::pf17::monostate, std::int64_t, Val, Big>;
using IP   = cetl::pmr::InterfacePtr<IFace>;
using UP   = cetl::pmr::Factory::unique_ptr_t<pmr::polymorphic_allocator<Impl>>;
using Buf  = pmr::UnsynchronizedBufferMemoryResource;
using ArrR = pmr::UnsynchronizedArrayMemoryResource<64>;
using Mono = pmr::monotonic_buffer_resource;
using MD   = std::unique_ptr<std::int64_t, cetl::pmr::MemoryResourceDeleter<Pmr>>;

/// Everything one thread owns.
class Kit final
{
public:
    Kit(std::int64_t salt, bool filled)
        : salt_(salt)
    {
        src_.reset(new Src);
        budget_.reset(new Budget);
        for (auto& a : arr_)
        {
            a.reset(new Arr(100, pmr::polymorphic_allocator<Val>(src_.get())));
        }
        bits_.reset(new Bits(pmr::polymorphic_allocator<bool>(src_.get())));
        for (auto& u : uv_)
        {
            u.reset(new Uv(src_.get()));
        }
        for (auto& u : uin_)
        {
            u.reset(new Uin);
        }
        for (auto& f : fn_)
        {
            f.reset(new Fn(src_.get()));
        }
        for (auto& f : fin_)
        {
            f.reset(new Fin);
        }
        for (auto& o : opt_)
        {
            o.reset(new Opt);
        }
        for (auto& v : var_)
        {
            v.reset(new Var);
        }
        area_.reset(new Area);
        buf_.reset(new Buf(area_->b, sizeof(area_->b), src_.get(), 256));
        arr_res_.reset(new ArrR(src_.get(), 128));
        mono_.reset(new Mono(area_->m, sizeof(area_->m), src_.get()));
        if (filled)
        {
            const Val  val(salt_ + 5, budget_.get());
            const Call call{val};
            for (std::size_t i = 0; i < 2; ++i)
            {
                arr_[i]->assign(4, val);
                *uv_[i]  = val;
                *uin_[i] = val;
                *fn_[i]  = BigCall{call};
                *fin_[i] = call;
                *opt_[i] = val;
                *var_[i] = val;
            }
            bits_->assign(13, true);
        }
    }

    ~Kit()
    {
        for (auto& h : held_)
        {
            give(h);
        }
    }
    Kit(const Kit&)            = delete;
    Kit& operator=(const Kit&) = delete;

    void step(const sim::Step& s)
    {
        const std::int64_t x = salt_ * 1000 + s.a[3] % 50;
        src_->fail_in        = s.a[2] % 4 == 0 ? 1 + static_cast<int>((s.a[2] / 4) % 3) : 0;
        budget_->copies      = s.a[2] % 4 == 1 ? 1 + static_cast<int>((s.a[2] / 4) % 4) : 0;
        try
        {
            act(s.op, s.a[1], x);
            note(1);
        }
        catch (const Err& e)
        {
            note(e.v);
        }
        catch (const std::bad_alloc&)
        {
            note(2);
        }
        catch (const std::length_error&)
        {
            note(3);
        }
        catch (const std::exception&)
        {
            note(4);
        }
        src_->fail_in   = 0;
        budget_->copies = 0;
        note(src_->live);
    }
    void look()
    {
        for (const auto& a : arr_)
        {
            note(static_cast<std::int64_t>(a->size()));
            for (const auto& v : *a)
            {
                note(v.v);
            }
        }
        for (const bool b : static_cast<const Bits&>(*bits_))
        {
            note(b ? 1 : 0);
        }
        for (const auto& u : uv_)
        {
            read(*u);
        }
        for (const auto& o : opt_)
        {
            note(o->has_value() ? (*o)->v : -7);
        }
        for (const auto& v : var_)
        {
            read(*v);
        }
        for (auto& h : held_)
        {
            give(h);
        }
        note(src_->live);
    }
    std::uint64_t digest() const
    {
        return digest_;
    }

private:
    struct Area
    {
        alignas(16) unsigned char b[128];
        alignas(16) unsigned char m[128];
    };
    struct Held
    {
        Pmr*           r{nullptr};
        unsigned char* p{nullptr};
        std::size_t    n{0};
        unsigned char  fill{0};
    };
    struct Call
    {
        Val          val;
        std::int64_t operator()(std::int64_t y) const
        {
            KIT_POINT();
            if (y == 3)
            {
                KIT_FAULT(K_CALL);
                throw Err{val.v + y};
            }
            return val.v * 3 + y;
        }
    };
    /// Calls the function it is in again.
    struct Again
    {
        const Fin*   self;
        Val          val;
        std::int64_t operator()(std::int64_t y) const
        {
            KIT_POINT();
            return y <= 0 ? val.v : y * 5 + (*self)(y - 1) + val.v;
        }
    };
    struct BigCall : Call
    {
        explicit BigCall(const Call& c)
            : Call(c)
        {
        }
        char pad[64];
    };

    void note(std::int64_t v)
    {
        digest_ = sim::mix(digest_, static_cast<std::uint64_t>(v));
    }
    template <typename U>
    void read(const U& u)
    {
        note(u.has_value() ? 1 : 0);
        note(u.valueless_by_exception() ? 1 : 0);
        if (const auto* const v = cetl::get_if<Val>(&u))
        {
            note(v->v);
        }
        if (const auto* const v = cetl::get_if<Big>(&u))
        {
            note(v->v);
        }
    }
    void read(const Var& v)
    {
        note(static_cast<std::int64_t>(v.index()));
        if (const auto* p = cetl::pf17::get_if<Val>(&v))
        {
            note(p->v);
        }
        if (const auto* p = cetl::pf17::get_if<Big>(&v))
        {
            note(p->v);
        }
    }
    void act(int op, std::int64_t k, std::int64_t x)
    {
        const Val val(x, budget_.get());
        const int sub = static_cast<int>(k % 12);
        switch (op)
        {
        case VLA:
            vla(sub, x, val);
            return;
        case VBOOL:
            vbool(sub, x);
            return;
        case UVAR:
            uvar(sub, x, val);
            return;
        case FUNC:
            func(sub, x, val);
            return;
        case OPT:
            optional(sub, x, val);
            return;
        case VAR:
            variant(sub, x, val);
            return;
        case PTR:
            ptr(sub, val);
            return;
        case BUF:
            buffers(sub, x);
            return;
        case MONO:
            monotonic(sub, x);
            return;
        case ALLOC:
            allocators(sub, x, val);
            return;
        case SYS:
            system(sub, x);
            return;
        case MISC:
            misc(x);
            return;
        default:
            return;
        }
    }
    void vla(int sub, std::int64_t x, const Val& val)
    {
        Arr& a = *arr_[x % 2];
        Arr& b = *arr_[1 - x % 2];
        switch (sub)
        {
        case 0:
        case 1:
            for (std::int64_t i = 0; i < 1 + x % 5; ++i)
            {
                a.push_back(val);
            }
            break;
        case 2:
            a.resize(static_cast<std::size_t>(x % 12), val);
            break;
        case 3:
            b = a;
            break;
        case 4:
            b = std::move(a);
            break;
        case 5:
            a.assign(static_cast<std::size_t>(x % 9), val);
            break;
        case 6:
            if (a.size() > 0)
            {
                a.pop_back();
            }
            a.shrink_to_fit();
            break;
        default:
            note(a == b ? 1 : 0);
            a.reserve(a.size() + 4);
            a.emplace_back(val);
            break;
        }
        for (const auto& v : a)
        {
            note(v.v);
        }
    }
    void vbool(int sub, std::int64_t x)
    {
        Bits& a = *bits_;
        switch (sub)
        {
        case 0:
        case 1:
        case 2:
            for (std::int64_t i = 0; i < 1 + x % 11; ++i)
            {
                a.push_back((x >> (i % 5)) % 2 == 0);
            }
            break;
        case 3:
            a.resize(static_cast<std::size_t>(x % 40), x % 3 == 0);
            break;
        case 4:
            if (a.size() > 0)
            {
                a[static_cast<std::size_t>(x) % a.size()] = x % 2 == 0;
            }
            break;
        case 5:
        {
            const Bits c(a, pmr::polymorphic_allocator<bool>(src_.get()));
            note(c == a ? 1 : 0);
            break;
        }
        case 6:
            a.assign(static_cast<std::size_t>(x % 20), x % 2 == 0);
            a.shrink_to_fit();
            break;
        default:
            if (a.size() > 0)
            {
                a.pop_back();
            }
            break;
        }
        note(static_cast<std::int64_t>(a.size()));
    }
    void uvar(int sub, std::int64_t x, const Val& val)
    {
        Uv& a = *uv_[x % 2];
        Uv& b = *uv_[1 - x % 2];
        switch (sub)
        {
        case 0:
            a = val;
            break;
        case 1:
            a = Big(x, budget_.get());
            break;
        case 2:
            b = a;
            break;
        case 3:
            b = std::move(a);
            break;
        case 4:
            a.swap(b);
            break;
        case 5:
            (void) a.emplace<Big>(x, budget_.get());
            break;
        case 6:
            *uin_[x % 2] = val;
            note(cetl::get<Val>(*uin_[x % 2]).v);
            break;
        case 8:
            *uin_[x % 2] = *uin_[1 - x % 2];
            break;
        case 9:
            uin_[x % 2]->swap(*uin_[1 - x % 2]);
            break;
        case 10:
            *uin_[x % 2] = std::move(*uin_[1 - x % 2]);
            break;
        case 11:
            *uin_[x % 2] = Big(x, budget_.get());
            break;
        default:
            note(cetl::get<const Val&>(a).v);
            break;
        }
        read(a);
        read(b);
        read(*uin_[0]);
        read(*uin_[1]);
    }
    void func(int sub, std::int64_t x, const Val& val)
    {
        Fn& a = *fn_[x % 2];
        Fn& b = *fn_[1 - x % 2];
        switch (sub)
        {
        case 0:
            a = Call{val};
            break;
        case 1:
            a = BigCall{Call{val}};
            break;
        case 2:
            b = a;
            break;
        case 3:
            b = std::move(a);
            break;
        case 4:
            a.swap(b);
            break;
        case 5:
            *fin_[x % 2] = Call{val};
            note((*fin_[x % 2])(x % 5));
            break;
        case 6:
            *fin_[x % 2] = Again{fin_[x % 2].get(), val};
            note((*fin_[x % 2])(x % 5));
            *fin_[x % 2] = nullptr;
            break;
        case 8:
            *fin_[x % 2] = *fin_[1 - x % 2];
            break;
        case 9:
            fin_[x % 2]->swap(*fin_[1 - x % 2]);
            break;
        case 10:
            *fin_[x % 2] = std::move(*fin_[1 - x % 2]);
            break;
        case 11:
            *fin_[x % 2] = nullptr;
            break;
        default:
            note(a(x % 5));
            break;
        }
        note(a ? 1 : 0);
        if (b)
        {
            note(b(1));
        }
        for (const auto& f : fin_)
        {
            note(*f ? (*f)(2) : -7);
        }
    }
    void optional(int sub, std::int64_t x, const Val& val)
    {
        Opt& a = *opt_[x % 2];
        Opt& b = *opt_[1 - x % 2];
        switch (sub)
        {
        case 0:
            a = val;
            break;
        case 1:
            a.emplace(x, budget_.get());
            break;
        case 2:
            b = a;
            break;
        case 3:
            b = std::move(a);
            break;
        case 4:
            a.swap(b);
            break;
        case 5:
            a.reset();
            break;
        case 6:
            note(a.value().v);
            break;
        default:
            note(a == b ? 1 : 0);
            note(a.value_or(val).v);
            break;
        }
        note(a.has_value() ? a->v : -7);
        note(b.has_value() ? b->v : -7);
    }
    void variant(int sub, std::int64_t x, const Val& val)
    {
        Var& a = *var_[x % 2];
        Var& b = *var_[1 - x % 2];
        switch (sub)
        {
        case 0:
            a = val;
            break;
        case 1:
            a.emplace<3>(x, budget_.get());
            break;
        case 2:
            b = a;
            break;
        case 3:
            b = std::move(a);
            break;
        case 4:
            a.emplace<1>(x);
            break;
        case 5:
        {
            Var c(a);
            read(c);
            break;
        }
        case 6:
            note(cetl::pf17::get<Val>(a).v);
            break;
        default:
            note(cetl::pf17::visit(
                cetl::make_overloaded([](const cetl::pf17::monostate&, const auto&) -> std::int64_t { return 5; },
                                      [](const std::int64_t& i, const auto&) -> std::int64_t { return i; },
                                      [](const Val& v, const auto&) -> std::int64_t {
                                          KIT_POINT();
                                          return v.v;
                                      }),
                a,
                b));
            break;
        }
        read(a);
        read(b);
    }
    void ptr(int sub, const Val& val)
    {
        switch (sub)
        {
        case 0:
        case 1:
            ip_ = cetl::pmr::InterfaceFactory::make_unique<IFace>(pmr::polymorphic_allocator<Impl>(src_.get()), val);
            break;
        case 2:
        {
            pmr::polymorphic_allocator<Impl> al(src_.get());
            up_.reset(new UP(cetl::pmr::Factory::make_unique(al, val)));
            break;
        }
        case 3:
            ip_.reset();
            break;
        case 4:
            up_.reset();
            break;
        case 5:
        {
            MD m(new (src_->allocate(sizeof(std::int64_t), alignof(std::int64_t))) std::int64_t(val.v),
                 cetl::pmr::MemoryResourceDeleter<Pmr>(src_.get(), sizeof(std::int64_t), alignof(std::int64_t)));
            note(*m);
            MD n(std::move(m));
            note(*n);
            note(static_cast<std::int64_t>(n.get_deleter().alignment()));
            break;
        }
        default:
        {
            IP q(std::move(ip_));
            note(q ? q->get() : 0);
            if (q)
            {
                const auto* const s2 = cetl::rtti_cast<const ISecond*>(static_cast<const IFace*>(q.get()));
                note(s2 != nullptr ? s2->other() : 0);
            }
            ip_ = std::move(q);
            break;
        }
        }
        if (up_ && *up_)
        {
            note((*up_)->get());
        }
    }
    /// Takes a block, or looks at the one taken earlier and gives it back.
    void hold(Held& h, Pmr& r, std::int64_t x)
    {
        if (h.p != nullptr)
        {
            give(h);
            return;
        }
        h.n    = 1 + static_cast<std::size_t>(x % 100);
        h.fill = static_cast<unsigned char>(x % 251);
        h.p    = static_cast<unsigned char*>(r.allocate(h.n, 8));
        h.r    = &r;
        std::memset(h.p, h.fill, h.n);
    }
    void give(Held& h)
    {
        if (h.p != nullptr)
        {
            bool same = true;
            for (std::size_t i = 0; i < h.n; ++i)
            {
                same = same && h.p[i] == h.fill;
            }
            note(same ? 1 : 0);
            h.r->deallocate(h.p, h.n, 8);
            h.p = nullptr;
        }
    }
    void buffers(int sub, std::int64_t x)
    {
        if (sub >= 8)
        {
            hold(held_[sub % 2], sub % 2 == 0 ? static_cast<Pmr&>(*buf_) : static_cast<Pmr&>(*arr_res_), x);
            return;
        }
        Pmr&              r = sub % 2 == 0 ? static_cast<Pmr&>(*buf_) : static_cast<Pmr&>(*arr_res_);
        const std::size_t n = 1 + static_cast<std::size_t>(x % 200);
        void* const       p = r.allocate(n, 8);
        std::memset(p, static_cast<int>(x % 256), n);
        void* q = nullptr;
        try
        {
            q = r.allocate(16, 8);
            std::memset(q, 1, 16);
        }
        catch (const std::bad_alloc&)
        {
            note(6);
        }
        note(static_cast<unsigned char*>(p)[n - 1]);
        note(p == (sub % 2 == 0 ? buf_->data() : arr_res_->data()) ? 1 : 0);
        if (q != nullptr)
        {
            r.deallocate(q, 16, 8);
        }
        note(static_cast<std::int64_t>(r.max_size()));
        r.deallocate(p, n, 8);
    }
    void monotonic(int sub, std::int64_t x)
    {
        if (sub == 0)
        {
            give(held_[3]);
            mono_->release();
            return;
        }
        if (sub >= 9)
        {
            hold(held_[3], *mono_, x);
            return;
        }
        if (sub == 1)
        {
            Mono m;  // the global default resource is safe to share
            void* const p = m.allocate(static_cast<std::size_t>(1 + x % 60), 8);
            std::memset(p, 3, static_cast<std::size_t>(1 + x % 60));
            note(m.upstream_resource() == pmr::get_default_resource() ? 1 : 0);
            return;
        }
        const std::size_t n = 1 + static_cast<std::size_t>(x % 60);
        auto* const       p = static_cast<unsigned char*>(mono_->allocate(n, 1));
        std::memset(p, static_cast<int>(x % 256), n);
        auto* const q = static_cast<unsigned char*>(mono_->allocate(4, 4));
        std::memset(q, 9, 4);
        note(p[n - 1]);
        note(reinterpret_cast<std::uintptr_t>(q) % 4 == 0 ? 1 : 0);
        mono_->deallocate(p, n, 1);
    }
    void allocators(int sub, std::int64_t x, const Val& val)
    {
        Pmr* const                      r = sub % 2 == 0 ? static_cast<Pmr*>(src_.get()) : pmr::new_delete_resource();
        pmr::polymorphic_allocator<Val> al(r);
        struct Hold
        {
            pmr::polymorphic_allocator<Val>& a;
            Val*                             p;
            std::size_t                      n;
            bool                             made;
            ~Hold()
            {
                if (made)
                {
                    p->~Val();
                }
                a.deallocate(p, n);
            }
        };
        const std::size_t n = 1 + static_cast<std::size_t>(x % 3);
        Hold              h{al, al.allocate(n), n, false};
        al.construct(h.p, val);
        h.made = true;
        note(h.p->v);
        note(al == pmr::polymorphic_allocator<Val>(r) ? 1 : 0);
    }
    void system(int sub, std::int64_t x)
    {
        Pmr* const r = sub % 2 == 0 ? pmr::new_delete_resource() : pmr::get_default_resource();
        if (sub >= 9)
        {
            hold(held_[2], *r, x);
            return;
        }
        const std::size_t n = 1 + static_cast<std::size_t>(x % 100);
        auto*             p = static_cast<unsigned char*>(r->allocate(n, sub < 6 ? 8 : 64));
        std::memset(p, static_cast<int>(x % 256), n);
        if (sub % 3 == 0)
        {
            if (auto* const q = static_cast<unsigned char*>(r->reallocate(p, n, n + 20, 8)))
            {
                p = q;
                note(p[n - 1]);
                r->deallocate(p, n + 20, 8);
                return;
            }
            note(8);
        }
        note(p[n - 1]);
        r->deallocate(p, n, 8);
        try
        {
            note(pmr::null_memory_resource()->allocate(1, 1) == nullptr ? 1 : 0);
        }
        catch (const std::bad_alloc&)
        {
            note(9);
        }
    }
    void misc(std::int64_t x)
    {
        std::int64_t data[6];
        for (int i = 0; i < 6; ++i)
        {
            data[i] = x + i;
        }
        const cetl::pf20::span<const std::int64_t> sp(data, 6);
        for (const auto v : sp.subspan(static_cast<std::size_t>(x % 5)))
        {
            note(v);
        }
        char text[12];
        for (int i = 0; i < 11; ++i)
        {
            text[i] = static_cast<char>('a' + (x + i * 7) % 26);
        }
        text[11] = 0;
        const cetl::pf17::string_view sv(text);
        note(static_cast<std::int64_t>(sv.find('e')));
        note(sv.substr(2, 4) == cetl::pf17::string_view("cdef") ? 1 : 0);
        const Impl            im{Val(x)};
        const IFace* const    f = &im;
        const ISecond* const  t = cetl::rtti_cast<const ISecond*>(f);
        note(t != nullptr ? t->other() : 0);
    }

    std::int64_t            salt_;
    std::uint64_t           digest_{0};
    Held                    held_[4];
    std::unique_ptr<Src>    src_;
    std::unique_ptr<Budget> budget_;
    std::unique_ptr<Area>   area_;
    std::unique_ptr<Arr>    arr_[2];
    std::unique_ptr<Bits>   bits_;
    std::unique_ptr<Uv>     uv_[2];
    std::unique_ptr<Uin>    uin_[2];
    std::unique_ptr<Fn>     fn_[2];
    std::unique_ptr<Fin>    fin_[2];
    std::unique_ptr<Opt>    opt_[2];
    std::unique_ptr<Var>    var_[2];
    IP                      ip_;
    std::unique_ptr<UP>     up_;
    std::unique_ptr<Buf>    buf_;
    std::unique_ptr<ArrR>   arr_res_;
    std::unique_ptr<Mono>   mono_;
};

}  // namespace

#endif
