// World: clients of the system memory resources; the platform allocator (malloc family, operator new) is simulated.
#include "sim_pmr.hpp"
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cstdlib>
#include <memory>
#include <new>
#include <vector>

extern "C" {
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void  __real_free(void*);
int   __real_posix_memalign(void**, std::size_t, std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
}

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;

constexpr std::size_t kPlatformAlign = alignof(std::max_align_t);

Mem*     platform{nullptr};  // set while the code under test runs
bool     inside{false};
Mem*     ledger{nullptr};

/// The simulator's own use of the platform allocator goes to the real one.
struct Inside
{
    Inside()
    {
        inside = true;
    }
    ~Inside()
    {
        inside = false;
    }
};
bool active()
{
    return platform != nullptr && !inside;
}
bool simulated(void* p)
{
    return !inside && ledger != nullptr && ledger->blocks().count(reinterpret_cast<std::uintptr_t>(p)) > 0;
}
void* platform_alloc(std::size_t size, std::size_t align)
{
    const Inside in;
    return platform->allocate(size, align);
}
void platform_free(void* p)
{
    const Inside in;
    const auto   b = ledger->blocks().at(reinterpret_cast<std::uintptr_t>(p));
    ledger->deallocate(p, b.size, b.align);
}
}  // namespace

namespace
{
bool refused{false};  // the platform could not reallocate
}

extern "C" {
void* __wrap_malloc(std::size_t n)
{
    return active() ? platform_alloc(n, kPlatformAlign) : __real_malloc(n);
}
void* __wrap_calloc(std::size_t n, std::size_t m)
{
    if (!active())
    {
        return __real_calloc(n, m);
    }
    void* p = platform_alloc(n * m, kPlatformAlign);
    return p == nullptr ? nullptr : std::memset(p, 0, n * m);
}
void __wrap_free(void* p)
{
    if (p == nullptr)
    {
        return;
    }
    if (simulated(p))
    {
        platform_free(p);
    }
    else if (active())
    {
        sim::violation("memory", "freed a block that is not live");
    }
    else
    {
        __real_free(p);
    }
}
void* __wrap_realloc(void* p, std::size_t n)
{
    if (!active())
    {
        return __real_realloc(p, n);
    }
    if (p == nullptr)
    {
        return platform_alloc(n, kPlatformAlign);
    }
    if (!simulated(p))
    {
        sim::violation("memory", "reallocated a block that is not live");
    }
    if (n == 0)
    {
        platform_free(p);
        return nullptr;
    }
    const Inside in;
    const auto   b = ledger->blocks().at(reinterpret_cast<std::uintptr_t>(p));
    void* const  q = ledger->reallocate(p, b.size, n, b.align);
    refused        = refused || q == nullptr;
    return q;
}
int __wrap_posix_memalign(void** out, std::size_t a, std::size_t n)
{
    if (!active())
    {
        return __real_posix_memalign(out, a, n);
    }
    void* p = platform_alloc(n, a);
    if (p == nullptr)
    {
        return 12;
    }
    *out = p;
    return 0;
}
void* __wrap_aligned_alloc(std::size_t a, std::size_t n)
{
    return active() ? platform_alloc(n, a) : __real_aligned_alloc(a, n);
}
}

// Replaced global operators, in case the code under test takes its memory from them.
static void* op_new(std::size_t n, std::size_t a)
{
    if (active())
    {
        return platform_alloc(n, a);
    }
    void* p = nullptr;
    return __real_posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1) == 0 ? p : nullptr;
}
static void* op_new_x(std::size_t n, std::size_t a)
{
    void* p = op_new(n, a);
    if (p == nullptr)
    {
#if SIM_EXC
        if (active())
        {
            throw sim::SimBadAlloc{sim::ctx.last_id};
        }
        throw std::bad_alloc();
#else
        std::abort();
#endif
    }
    return p;
}
static void op_delete(void* p)
{
    if (p != nullptr && simulated(p))
    {
        platform_free(p);
    }
    else
    {
        __real_free(p);
    }
}
void* operator new(std::size_t n)
{
    return op_new_x(n, kPlatformAlign);
}
void* operator new[](std::size_t n)
{
    return op_new_x(n, kPlatformAlign);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return op_new(n, kPlatformAlign);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return op_new(n, kPlatformAlign);
}
void* operator new(std::size_t n, std::align_val_t a)
{
    return op_new_x(n, static_cast<std::size_t>(a));
}
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return op_new(n, static_cast<std::size_t>(a));
}
void operator delete(void* p) noexcept
{
    op_delete(p);
}
void operator delete[](void* p) noexcept
{
    op_delete(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    op_delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    op_delete(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    op_delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    op_delete(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    op_delete(p);
}

namespace
{
/// A replacement resource of the program's own, which does not use the platform.
class OwnResource final : public cetl::pf17::pmr::memory_resource
{
public:
    explicit OwnResource(Mem& m)
        : sub_(m)
    {
    }

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        const Inside in;
        return static_cast<Pmr&>(sub_).allocate(size, align);
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        const Inside in;
        static_cast<Pmr&>(sub_).deallocate(p, size, align);
    }
    void* do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t align) override
    {
        const Inside in;
        return static_cast<Pmr&>(sub_).reallocate(p, o, n, align);
    }
    bool do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    sim::SimResource sub_;
};

enum Op : int
{
    ALLOC,
    FREE,
    REALLOC,
    REALLOC_NULL,
    REALLOC_ALIGN,
    OVERALIGNED,
    HUGE_SIZE,
    USE_NULL,
    SET_DEFAULT,
    SET_NEW_DELETE,
    REWRITE,
    QUOTA,
    OP_COUNT
};

class W final
{
    struct Block
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
        Pmr*           from;
        unsigned       salt;
    };

public:
    explicit W(const sim::Plan& p)
    {
        mem_.cls          = "memory";
        own_mem_.cls      = "memory";
        mem_.realloc_mode = static_cast<sim::ReallocMode>(p.cfg[0] % 5);
        own_mem_.realloc_mode = sim::ReallocMode::mixed;
        ledger            = &mem_;
        cetl::pf17::pmr::deviant::set_new_delete_resource(nullptr);
        cetl::pf17::pmr::set_default_resource(nullptr);
        sys_ = cetl::pf17::pmr::new_delete_resource();
        def_ = cetl::pf17::pmr::get_default_resource();
        nd_  = sys_;
    }
    void run(const sim::Plan& p)
    {
        if (def_ != sys_)
        {
            bad("propagate", "the default resource is not the new/delete resource");
        }
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        while (!b_.empty())
        {
            give_back(b_.size() - 1);
        }
        mem_.check_empty("all blocks returned");
        own_mem_.check_empty("all blocks returned");
        cetl::pf17::pmr::deviant::set_new_delete_resource(nullptr);
        cetl::pf17::pmr::set_default_resource(nullptr);
        ledger = nullptr;
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    static unsigned char pat(const Block& b, std::size_t k)
    {
        return static_cast<unsigned char>(b.salt * 37U + k * 11U + 5U);
    }
    static void fill(const Block& b, std::size_t from)
    {
        for (std::size_t k = from; k < b.size; ++k)
        {
            b.p[k] = pat(b, k);
        }
    }
    static void intact(const Block& b, std::size_t n)
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            if (b.p[k] != pat(b, k))
            {
                bad("content", "data in a live block was changed");
            }
        }
    }
    Mem& home(const Pmr* r)
    {
        return r == &own_ ? own_mem_ : mem_;
    }
    template <typename F>
    Res under_test(F f)
    {
        platform    = &mem_;
        const Res r = sim::call(f);
        platform    = nullptr;
        return r;
    }
    void check_all()
    {
        std::uint64_t h = 0;
        std::size_t   n = 0;
        for (const auto& b : b_)
        {
            intact(b, b.size);
            n += b.from == &own_ ? 0U : 1U;
            h = sim::mix(h, b.size);
        }
        if (mem_.live_blocks() != n || own_mem_.live_blocks() != b_.size() - n)
        {
            bad("memory", "the platform holds a different number of blocks than there are live blocks");
        }
        if (cetl::pf17::pmr::get_default_resource() != def_ || cetl::pf17::pmr::new_delete_resource() != nd_)
        {
            bad("propagate", "a global resource is not the one installed last");
        }
        sim::state(sim::mix(h, (def_ == sys_ ? 1U : 0U) + (nd_ == sys_ ? 2U : 0U)));
    }
    void give_back(std::size_t i)
    {
        const Block b = b_[i];
        intact(b, b.size);
        b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(i));
        if (under_test([&] { b.from->deallocate(b.p, b.size, b.align); }) != Res::ok)
        {
            bad("exc", "deallocation threw");
        }
        sim::outcome(0);
    }
    /// Checks a result and adds the block.
    bool accept(Res r, void* p, std::size_t size, std::size_t align, Pmr* from, unsigned salt, std::size_t keep)
    {
        if (r != Res::ok || p == nullptr)
        {
            return false;
        }
        Block b{static_cast<unsigned char*>(p), size, align, from, salt};
        if ((reinterpret_cast<std::uintptr_t>(p) & (align - 1)) != 0)
        {
            bad("bound", "block is not aligned as requested");
        }
        if (!home(from).owns(p, size))
        {
            bad("bound", "block is not inside memory of the platform");
        }
        intact(b, keep);
        fill(b, keep);
        b_.push_back(b);
        sim::outcome(0);
        return true;
    }
    void alloc(Pmr* from, std::size_t size, std::size_t align)
    {
        void*     p = nullptr;
        const Res r = under_test([&] { p = from->allocate(size, align); });
        if (r != Res::ok && r != Res::bad_alloc && r != Res::std_bad_alloc)
        {
            bad("exc", "unexpected exception");
        }
#if SIM_EXC
        if (r == Res::ok && p == nullptr && size > 0)  // what an empty block looks like is up to the platform
        {
            bad("exc", "a failed allocation returned null instead of throwing bad_alloc");
        }
#endif
        if (!accept(r, p, size, align, from, ++salt_, 0))
        {
            const bool supported = align <= kPlatformAlign;
            if (supported && sim::ctx.injected_mem == 0)
            {
                bad("atomic", "request failed although the platform did not fail");
            }
            sim::outcome(1);
        }
    }
    Pmr* pick(std::int64_t v)
    {
        return v % 3 == 0 ? sys_ : v % 3 == 1 ? cetl::pf17::pmr::get_default_resource() : cetl::pf17::pmr::new_delete_resource();
    }

    /// Mostly small, sometimes large.
    static std::size_t amount(std::size_t v, std::size_t small)
    {
        return v % 5 == 3 && v > small ? v : v % small;
    }

    void step(const sim::Step& st)
    {
        const auto        v     = static_cast<std::size_t>(st.a[1]);
        const std::size_t align = std::size_t{1} << (st.a[2] % 5);
        switch (st.op)
        {
        case ALLOC:
            if (b_.size() < 16)
            {
                alloc(pick(st.a[0]), amount(v, 200), align);
            }
            return;
        case OVERALIGNED:
            if (b_.size() < 16)
            {
                alloc(pick(st.a[0]), v % 200, std::size_t{32} << (st.a[2] % 5));
            }
            return;
        case HUGE_SIZE:
            alloc(pick(st.a[0]), ~std::size_t{0} - v % 200, align);
            return;
        case USE_NULL:
        {
            Pmr* const n = cetl::pf17::pmr::null_memory_resource();
            void*      p = nullptr;
            const Res  r = under_test([&] { p = (v % 2) != 0 ? n->allocate(v / 2U % 50U, align) : n->reallocate(nullptr, 0, 1 + v % 50, align); });
            if (p != nullptr)
            {
                bad("memory", "the null resource supplied memory");
            }
#if SIM_EXC
            if ((v % 2) != 0 && r != Res::std_bad_alloc)
            {
                bad("exc", "the null resource did not report bad_alloc");
            }
#endif
            if (n != cetl::pf17::pmr::null_memory_resource() || *n == *sys_)
            {
                bad("propagate", "the null resource is not itself");
            }
            sim::outcome(2);
            return;
        }
        case FREE:
            if (b_.empty())
            {
                alloc(pick(st.a[0]), v % 60, align);
                return;
            }
            give_back(v % b_.size());
            return;
        case REALLOC:
        case REALLOC_ALIGN:
        {
            if (b_.empty())
            {
                alloc(pick(st.a[0]), v % 60, align);
            }
            if (b_.empty())
            {
                return;
            }
            const std::size_t i   = v % b_.size();
            const Block       old = b_[i];
            const std::size_t n   = 1 + amount(static_cast<std::size_t>(st.a[3]), 300);
            const std::size_t al  = st.op == REALLOC || old.from == &own_ ? old.align : std::size_t{8} << (st.a[2] % 6);
            void*             p   = nullptr;
            refused               = false;
            const Res         r   = under_test([&] { p = old.from->reallocate(old.p, old.size, n, al); });
            if (r != Res::ok && r != Res::bad_alloc && r != Res::std_bad_alloc)
            {
                bad("exc", "unexpected exception");
            }
            if (r == Res::ok && p != nullptr)
            {
                b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(i));
                (void) accept(r, p, n, al, old.from, old.salt, al == old.align ? std::min(n, old.size) : 0);
            }
            else
            {
                intact(old, old.size);
                if (old.from == sys_ && old.align <= kPlatformAlign && al <= kPlatformAlign && sim::ctx.injected_mem == 0 && !refused)
                {
                    bad("atomic", "reallocation failed although the platform did not fail");
                }
                sim::outcome(1);
            }
            return;
        }
        case REALLOC_NULL:
        {
            if (b_.size() >= 16)
            {
                return;
            }
            Pmr* const        from = pick(st.a[0]);
            const std::size_t n    = 1 + v % 100;
            void*             p    = nullptr;
            const Res         r    = under_test([&] { p = from->reallocate(nullptr, 0, n, align); });
            if (r != Res::ok && r != Res::bad_alloc && r != Res::std_bad_alloc)
            {
                bad("exc", "unexpected exception");
            }
            if (!accept(r, p, n, align, from, ++salt_, 0))
            {
                sim::outcome(1);
            }
            return;
        }
        case SET_DEFAULT:
        {
            Pmr* const n = v % 3 == 0 ? nullptr : v % 3 == 1 ? static_cast<Pmr*>(&own_) : sys_;
            Pmr* const o = cetl::pf17::pmr::set_default_resource(n);
            if (o != def_)
            {
                bad("propagate", "replacing the default resource did not return the previous one");
            }
            def_ = n == nullptr ? nd_ : n;
            sim::outcome(0);
            return;
        }
        case SET_NEW_DELETE:
        {
            Pmr* const n = v % 2 == 0 ? nullptr : static_cast<Pmr*>(&own_);
            Pmr* const o = cetl::pf17::pmr::deviant::set_new_delete_resource(n);
            if (o != nd_)
            {
                bad("propagate", "replacing the new/delete resource did not return the previous one");
            }
            nd_ = n == nullptr ? sys_ : n;
            sim::outcome(0);
            return;
        }
        case REWRITE:
            if (!b_.empty())
            {
                b_[v % b_.size()].salt = ++salt_;
                fill(b_[v % b_.size()], 0);
                sim::outcome(0);
            }
            return;
        case QUOTA:
            mem_.quota = (v % 2) != 0 ? ~std::size_t{0} : mem_.live_bytes() + static_cast<std::size_t>(st.a[2]) % 400;
            sim::outcome(0);
            return;
        default:
            return;
        }
    }

    Mem                mem_{0};
    Mem                own_mem_{1};
    OwnResource        own_{own_mem_};
    std::vector<Block> b_;
    unsigned           salt_{0};
    Pmr*               sys_{nullptr};
    Pmr*               def_{nullptr};
    Pmr*               nd_{nullptr};
};

void exec(const sim::Plan& p)
{
    auto w = std::make_unique<W>(p);
    w->run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "sys",
        {{"allocate", 12}, {"deallocate", 9}, {"reallocate", 7}, {"reallocate_null", 2}, {"reallocate_align", 2}, {"overaligned", 2},
         {"allocate_huge", 1}, {"null_resource", 1}, {"set_default", 2}, {"set_new_delete", 1}, {"rewrite", 2}, {"quota", 2}},
        {{"platform", &exec, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "MaxAlignNewDeleteResource, new_delete_resource, default resource, null_memory_resource",
        "platform allocator (malloc, calloc, realloc, free, aligned_alloc, posix_memalign, operator new and delete), clients",
    };
    return w;
}
