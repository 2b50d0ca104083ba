// World: several threads read and replace the global memory resources, from a fresh process image or an initialised one.
// Must stay valid C++14.
#include "conc.hpp"
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pf17/variant.hpp>

namespace
{
namespace pmr = cetl::pf17::pmr;

enum Op : int
{
    GET_DEFAULT,
    GET_SYSTEM,
    SET_DEFAULT,
    SET_DEFAULT_NULL,
    SET_SYSTEM,
    SET_SYSTEM_NULL,
    PUBLISH_DEFAULT,
    PUBLISH_SYSTEM,
    USE_DEFAULT,
    USE_SYSTEM,
    MONOTONIC,
    NULL_RESOURCE,
    VARIANT,
    OP_COUNT
};

constexpr int          kPool  = 4;
constexpr std::int64_t kStamp = 0x5EED;

class Pool final : public pmr::memory_resource
{
public:
    explicit Pool(std::int64_t s)
        : stamp(s)
    {
    }
    std::int64_t stamp;

private:
    void* do_allocate(std::size_t, std::size_t) override
    {
        return nullptr;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        return &o == this;
    }
    std::size_t do_max_size() const noexcept override
    {
        return static_cast<std::size_t>(stamp);
    }
};

template <int K>
struct Alt
{
    std::int64_t v;
    ~Alt()
    {
        v = -1;
    }
};

std::int64_t id(const void* p)
{
    return static_cast<std::int64_t>(reinterpret_cast<std::uintptr_t>(p));
}

class W final
{
public:
    explicit W(const sim::Plan& p)
        : warm_(p.cfg[1] % 3)
        , n_(2 + static_cast<int>(p.cfg[2] % 3))
    {
        conc::Program g{};
        g.self   = this;
        g.setup  = [](void* s) { static_cast<W*>(s)->setup(); };
        g.step   = [](void* s, int t, int, const sim::Step& st) { static_cast<W*>(s)->step(t, st); };
        g.finish = [](void* s) { static_cast<W*>(s)->finish(); };
        conc::run(p, n_, g);
    }

private:
    void setup()
    {
        for (auto& p : pool_)
        {
            p = new Pool(kStamp);
        }
        if (warm_ == 1)
        {
            (void) pmr::new_delete_resource();
            (void) pmr::get_default_resource();
        }
        else if (warm_ == 2)
        {
            (void) pmr::new_delete_resource();
        }
    }
    /// What a thread obtained must be a finished object.
    void look(pmr::memory_resource* r)
    {
        if (r == nullptr)
        {
            sim::violation("content", "a global resource is null");
        }
        if (!r->is_equal(*r))
        {
            sim::violation("content", "a global resource is not usable");
        }
    }
    pmr::memory_resource* logged(int op, pmr::memory_resource* arg)
    {
        conc::begin_call(op, id(arg));
        pmr::memory_resource* r = nullptr;
        switch (op)
        {
        case conc::R_GET_DEFAULT:
            r = pmr::get_default_resource();
            break;
        case conc::R_GET_SYSTEM:
            r = pmr::new_delete_resource();
            break;
        case conc::R_SET_DEFAULT:
            r = pmr::set_default_resource(arg);
            break;
        case conc::R_SET_DEFAULT_NULL:
            r = pmr::set_default_resource(nullptr);
            break;
        case conc::R_SET_SYSTEM:
            r = pmr::deviant::set_new_delete_resource(arg);
            break;
        default:
            r = pmr::deviant::set_new_delete_resource(nullptr);
            break;
        }
        conc::end_call(id(r));
        if (r == nullptr)
        {
            sim::violation("content", "a global resource is null");
        }
        return r;
    }
    void step(int tid, const sim::Step& s)
    {
        const std::size_t k = static_cast<std::size_t>(s.a[1] % kPool);
        switch (s.op)
        {
        case GET_DEFAULT:
            (void) logged(conc::R_GET_DEFAULT, nullptr);
            return;
        case GET_SYSTEM:
            (void) logged(conc::R_GET_SYSTEM, nullptr);
            return;
        case SET_DEFAULT:
            (void) logged(conc::R_SET_DEFAULT, pool_[k]);
            return;
        case SET_DEFAULT_NULL:
            (void) logged(conc::R_SET_DEFAULT_NULL, nullptr);
            return;
        case SET_SYSTEM:
            (void) logged(conc::R_SET_SYSTEM, pool_[k]);
            return;
        case SET_SYSTEM_NULL:
            (void) logged(conc::R_SET_SYSTEM_NULL, nullptr);
            return;
        case PUBLISH_DEFAULT:
            look(logged(conc::R_SET_DEFAULT, new Pool(kStamp)));
            return;
        case PUBLISH_SYSTEM:
            look(logged(conc::R_SET_SYSTEM, new Pool(kStamp)));
            return;
        case USE_DEFAULT:
            look(logged(conc::R_GET_DEFAULT, nullptr));
            return;
        case USE_SYSTEM:
            look(logged(conc::R_GET_SYSTEM, nullptr));
            return;
        case MONOTONIC:
        {
            conc::begin_call(conc::R_GET_DEFAULT, 0);
            pmr::monotonic_buffer_resource m;
            conc::end_call(id(m.upstream_resource()));
            look(m.upstream_resource());
            return;
        }
        case NULL_RESOURCE:
        {
            pmr::memory_resource* const r = pmr::null_memory_resource();
            look(r);
            const conc::Hidden h;
            if (null_ != nullptr && null_ != r)
            {
                sim::violation("content", "two threads obtained different null resources");
            }
            null_ = r;
            return;
        }
        case VARIANT:
        {
            using V = cetl::pf17::variant<Alt<1>, Alt<2>, Alt<3>>;
            V v(cetl::pf17::in_place_index_t<1>(), Alt<2>{tid * 100 + s.a[1]});
            V c(v);
            if (s.a[2] % 2 == 0)
            {
                c = V(cetl::pf17::in_place_index_t<2>(), Alt<3>{7});
                c = v;
            }
            const std::int64_t got = cetl::pf17::visit([](const auto& a) -> std::int64_t { return a.v; }, c);
            if (got != tid * 100 + s.a[1] || c.index() != 1)
            {
                sim::violation("content", "variant dispatched to a wrong alternative");
            }
            return;
        }
        default:
            return;
        }
    }
    void finish()
    {
        // one more displacement each makes the last installed values visible
        conc::begin_call(conc::R_GET_SYSTEM, 0);
        conc::end_call(id(pmr::new_delete_resource()));
        conc::begin_call(conc::R_GET_DEFAULT, 0);
        conc::end_call(id(pmr::get_default_resource()));
        (void) pmr::deviant::set_new_delete_resource(nullptr);
        const std::int64_t base = id(pmr::new_delete_resource());
        for (const auto* p : pool_)
        {
            if (id(p) == base)
            {
                sim::violation("content", "null does not restore the built-in system resource");
            }
        }
        const conc::Hidden h;
        if (!conc::linearizable(base, base, warm_ == 1 ? base : 0))
        {
            for (std::size_t i = 0; sim::tracing && i < conc::call_count(); ++i)
            {
                static const char* const names[] = {"get_default", "set_default", "set_default(null)", "get_system", "set_system", "set_system(null)"};
                const auto&              c       = conc::call(i);
                sim::trace("  call thread %d %s(%s) -> %s, time %u to %u", c.tid, names[c.op], label(c.arg, base), label(c.result, base), c.begin, c.end);
            }
            sim::violation("content", "no order of the calls explains what the threads observed");
        }
        sim::state(static_cast<std::uint64_t>(conc::call_count()) * 8 + static_cast<std::uint64_t>(n_));
    }
    const char* label(std::int64_t v, std::int64_t base) const
    {
        static const char* const names[] = {"pool0", "pool1", "pool2", "pool3"};
        for (std::size_t i = 0; i < kPool; ++i)
        {
            if (id(pool_[i]) == v)
            {
                return names[i];
            }
        }
        return v == 0 ? "-" : v == base ? "built-in" : "published";
    }

    std::int64_t          warm_;
    int                   n_;
    Pool*                 pool_[kPool];
    pmr::memory_resource* null_{nullptr};
};

void exec(const sim::Plan& p)
{
    W w(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "glob",
        {{"get_default", 3},
         {"get_system", 3},
         {"set_default", 4},
         {"set_default_null", 3},
         {"set_system", 4},
         {"set_system_null", 2},
         {"publish_default", 2},
         {"publish_system", 2},
         {"use_default", 3},
         {"use_system", 2},
         {"monotonic", 1},
         {"null_resource", 2},
         {"variant", 2}},
        {{"threads", &exec, 1}},
        2,
        10,
        nullptr,
        true,
        false,
        "global memory resources, null resource, monotonic resource, variant dispatch",
        "threads and scheduler, local static guards, locks, platform allocator",
    };
    return w;
}
