// World: threads that use objects of their own at the same time (each must see what it would see alone), and threads that read
// objects of all kinds at the same time (nothing may change, nothing may race). Must stay valid C++14.
#include "conc.hpp"
#include "kit.hpp"

namespace
{
// ---------------------------------------------------------------------------------------------------- independent objects
class Indep final
{
public:
    explicit Indep(const sim::Plan& p)
        : plan_(p)
        , n_(2 + static_cast<int>(p.cfg[2] % 2))
        , same_(p.cfg[3] % 2 == 0)
        , filled_(p.cfg[4] % 2 == 0)
    {
        conc::Program g{};
        g.self   = this;
        g.setup  = [](void*) {};
        g.step   = [](void* s, int t, int, const sim::Step& st) { static_cast<Indep*>(s)->step(t, st); };
        g.finish = [](void* s) { static_cast<Indep*>(s)->finish(); };
        conc::run(p, n_, g);
    }

private:
    std::int64_t salt(int t) const
    {
        return same_ ? 1 : t;
    }
    void step(int t, const sim::Step& s)
    {
        if (kit_[t] == nullptr)
        {
            kit_[t] = new Kit(salt(t), filled_);
        }
        kit_[t]->step(s);
        conc::point();
    }
    void finish()
    {
        std::uint64_t seen[conc::kMaxThreads + 1] = {};
        for (int t = 1; t <= n_; ++t)
        {
            if (kit_[t] != nullptr)
            {
                kit_[t]->look();
                seen[t] = kit_[t]->digest();
                delete kit_[t];
            }
        }
        for (int t = 1; t <= n_; ++t)
        {
            if (kit_[t] == nullptr)
            {
                continue;
            }
            conc::fresh_image();
            Kit* const k = new Kit(salt(t), filled_);
            for (const auto& s : plan_.steps)
            {
                if (1 + s.a[0] % n_ == t)
                {
                    k->step(s);
                }
            }
            k->look();
            if (k->digest() != seen[t])
            {
                sim::violation("content", "a thread with objects of its own saw results that differ from the ones it sees alone");
            }
            sim::state(k->digest());
            delete k;
        }
    }

    const sim::Plan& plan_;
    int              n_;
    bool             same_;
    bool             filled_;
    Kit*             kit_[conc::kMaxThreads + 1]{};
};

// ---------------------------------------------------------------------------------------------------- shared objects, readers
struct Hall
{
    struct Twice
    {
        std::int64_t k;
        std::int64_t operator()(std::int64_t y) const
        {
            return k * 2 + y;
        }
    };
    struct FatTwice : Twice
    {
        explicit FatTwice(std::int64_t x)
            : Twice{x}
        {
        }
        char pad[64];
    };
    explicit Hall(std::int64_t k)
        : key(k)
        , sys(pmr::new_delete_resource())
        , arr(pmr::polymorphic_allocator<Val>(sys))
        , same(pmr::polymorphic_allocator<Val>(sys))
        , bits(pmr::polymorphic_allocator<bool>(sys))
        , small(sys, Val(k))
        , large(sys, Big(k))
        , inner(Val(k))
        , none(sys)
        , fsmall(sys, Twice{k})
        , flarge(sys, FatTwice(k))
        , fnone(sys)
        , full(Val(k))
        , var(Big(k))
        , var2(Val(k))
        , ip(cetl::pmr::InterfaceFactory::make_unique<IFace>(pmr::polymorphic_allocator<Impl>(sys), Val(k)))
        , buf(area, sizeof(area), sys, 256)
        , ares(sys, 100)
        , mono(area2, sizeof(area2), sys)
        , del(sys, 24, 8)
    {
        for (std::int64_t i = 0; i < 5; ++i)
        {
            arr.push_back(Val(k + i));
            same.push_back(Val(k + i));
        }
        for (std::int64_t i = 0; i < 19; ++i)
        {
            bits.push_back(bit(i));
        }
        pmr::polymorphic_allocator<Impl> al(sys);
        up.reset(new UP(cetl::pmr::Factory::make_unique(al, Val(k))));
        std::memset(text, 'q', sizeof(text));
        text[4] = static_cast<char>('a' + k % 10);
        for (std::size_t i = 0; i < 6; ++i)
        {
            data[i] = k + static_cast<std::int64_t>(i);
        }
    }
    bool bit(std::int64_t i) const
    {
        return (key + i * i) % 3 == 0;
    }

    std::int64_t                             key;
    Pmr*                                     sys;
    Arr                                      arr;
    Arr                                      same;
    Bits                                     bits;
    Uv                                       small;
    Uv                                       large;
    Uin                                      inner;
    Uv                                       none;
    Fn                                       fsmall;
    Fn                                       flarge;
    Fn                                       fnone;
    Opt                                      full;
    Opt                                      empty;
    Var                                      var;
    Var                                      var2;
    IP                                       ip;
    std::unique_ptr<UP>                      up;
    alignas(16) unsigned char                area[64];
    alignas(16) unsigned char                area2[64];
    Buf                                      buf;
    ArrR                                     ares;
    Mono                                     mono;
    cetl::pmr::MemoryResourceDeleter<Pmr>    del;
    char                                     text[8];
    std::int64_t                             data[6];
};

class Shared final
{
public:
    explicit Shared(const sim::Plan& p)
        : key_(p.cfg[1] % 100)
        , n_(2 + static_cast<int>(p.cfg[2] % 3))
    {
        conc::Program g{};
        g.self   = this;
        g.setup  = [](void* s) { static_cast<Shared*>(s)->setup(); };
        g.step   = [](void* s, int, int, const sim::Step& st) { static_cast<Shared*>(s)->step(st); };
        g.finish = [](void* s) { static_cast<Shared*>(s)->finish(); };
        conc::run(p, n_, g);
    }

private:
    void setup()
    {
        hall_ = new Hall(key_);
    }
    static void check(bool ok, const char* what)
    {
        if (!ok)
        {
            sim::violation("content", "a reader saw a wrong value: %s", what);
        }
    }
    void step(const sim::Step& s)
    {
        visit(*hall_, s.op, static_cast<int>(s.a[1] % 4));
    }
    void finish()
    {
        for (int op = 0; op < OP_COUNT; ++op)
        {
            for (int sub = 0; sub < 4; ++sub)
            {
                visit(*hall_, op, sub);
            }
        }
        delete hall_;
    }
    void visit(const Hall& h, int op, int sub)
    {
        const std::int64_t k = h.key;
        switch (op)
        {
        case VLA:
            array(h, k, sub);
            return;
        case VBOOL:
            packed(h, sub);
            return;
        case UVAR:
            unbounded(h, k, sub);
            return;
        case FUNC:
            function(h, k, sub);
            return;
        case OPT:
            check(h.full.has_value() && h.full.value().v == k && h.full->v == k && (*h.full).v == k, "optional");
            check(!h.empty.has_value() && !h.empty, "empty optional");
            if (sub == 0)
            {
                const Opt c(h.full);
                check(c == h.full && !(h.empty == c), "copy of optional");
            }
            else if (sub == 1)
            {
                try
                {
                    (void) h.empty.value();
                    check(false, "value of empty optional");
                }
                catch (const cetl::pf17::bad_optional_access&)
                {
                }
            }
            else
            {
                check(h.empty < h.full && h.full.value_or(Val(3)).v == k && h.empty.value_or(Val(3)).v == 3, "optional or");
            }
            return;
        case VAR:
            alternatives(h, k, sub);
            return;
        case PTR:
            check(h.ip && h.ip->get() == k && (*h.ip).get() == k && h.ip.get() != nullptr, "interface pointer");
            check((**h.up).get() == k && h.up->get() != nullptr, "unique pointer");
            check(h.del.size() == 24 && h.del.alignment() == 8 && h.del.resource() == h.sys, "deleter");
            return;
        case BUF:
            check(h.buf.data() == h.area && h.buf.size() == sizeof(h.area) && h.ares.size() == 64 && h.ares.data() != nullptr, "buffer");
            check(h.buf.is_equal(h.buf) && !h.buf.is_equal(h.ares) && h.buf.max_size() >= 64 && h.ares.max_size() >= 64, "buffer resource");
            return;
        case MONO:
            check(h.mono.upstream_resource() == h.sys && h.mono.is_equal(h.mono) && !h.mono.is_equal(h.buf), "monotonic");
            (void) h.mono.max_size();
            return;
        case ALLOC:
        {
            const auto a = h.arr.get_allocator();
            const auto b = h.same.get_allocator();
            check(a == b && a.resource() == h.sys, "allocator");
            pmr::polymorphic_allocator<Val> c(a);
            Val* const                      p = c.allocate(2);
            c.deallocate(p, 2);
            return;
        }
        case SYS:
        {
            check(h.sys->is_equal(*h.sys) && h.sys->max_size() > 0, "system resource");
            void* const p = h.sys->allocate(10, 8);
            h.sys->deallocate(p, 10, 8);
            return;
        }
        case MISC:
        {
            const cetl::pf17::string_view v(h.text, sizeof(h.text));
            check(v.find(static_cast<char>('a' + k % 10)) == 4 && v.size() == 8 && v == cetl::pf17::string_view(h.text, 8), "view");
            const cetl::pf20::span<const std::int64_t> sp(h.data, 6);
            check(sp.last(1)[0] == k + 5 && sp[1] == k + 1, "span");
            const auto* const t = cetl::rtti_cast<const ISecond*>(static_cast<const IFace*>(h.ip.get()));
            check(t != nullptr && t->other() == k + 1, "cast");
            return;
        }
        default:
            return;
        }
    }
    static void array(const Hall& h, std::int64_t k, int sub)
    {
        check(h.arr.size() == 5 && !h.arr.empty() && h.arr.capacity() >= 5 && h.arr.max_size() >= 5, "array size");
        if (sub == 0)
        {
            std::int64_t i = 0;
            for (const auto& v : h.arr)
            {
                check(v.v == k + i++, "array element");
            }
        }
        else if (sub == 1)
        {
            const Arr c(h.arr);
            check(c.size() == 5 && c[4].v == k + 4 && c == h.same, "copy of array");
        }
        else if (sub == 2)
        {
            check(h.arr == h.same && !(h.arr != h.same), "array comparison");
            check(h.arr.front().v == k && h.arr.back().v == k + 4 && h.arr.data()[2].v == k + 2 && h.arr.at(3).v == k + 3, "array access");
        }
        else
        {
            try
            {
                (void) h.arr.at(5);
                check(false, "array range");
            }
            catch (const std::out_of_range&)
            {
            }
        }
    }
    static void packed(const Hall& h, int sub)
    {
        check(h.bits.size() == 19 && h.bits.capacity() >= 19, "bits size");
        if (sub == 0)
        {
            std::int64_t i = 0;
            for (auto it = h.bits.begin(); it != h.bits.end(); ++it)
            {
                check(*it == h.bit(i++), "bit");
            }
        }
        else if (sub == 1)
        {
            const Bits c(h.bits);
            check(c == h.bits && c[7] == h.bit(7), "copy of bits");
        }
        else
        {
            for (std::int64_t i = 0; i < 19; ++i)
            {
                check(h.bits[static_cast<std::size_t>(i)] == h.bit(i), "bit");
            }
            check(h.bits.front() == h.bit(0) && h.bits.back() == h.bit(18) && h.bits.at(9) == h.bit(9), "bit");
        }
    }
    static void unbounded(const Hall& h, std::int64_t k, int sub)
    {
        check(h.small.has_value() && h.large.has_value() && h.inner.has_value() && !h.none.has_value(), "has_value");
        check(!h.small.valueless_by_exception() && !h.none.valueless_by_exception(), "valueless");
        if (sub == 0)
        {
            check(cetl::get_if<Val>(&h.small)->v == k && cetl::get_if<Big>(&h.large)->v == k && cetl::get_if<Big>(&h.small) == nullptr &&
                      cetl::get_if<Val>(&h.none) == nullptr,
                  "typed access");
            check(cetl::get<const Val&>(h.inner).v == k && cetl::get<Big>(h.large).v == k, "typed access");
        }
        else if (sub == 1)
        {
            const Uv  a(h.small);
            const Uv  b(h.large);
            const Uin c(h.inner);
            Uv        d(h.sys);
            d = h.large;
            check(cetl::get<const Val&>(a).v == k && cetl::get<const Big&>(b).v == k && cetl::get<const Val&>(c).v == k &&
                      cetl::get<const Big&>(d).v == k,
                  "copy of variant");
        }
        else if (sub == 2)
        {
            check(h.small.type_size() == sizeof(Val) && h.large.type_size() == sizeof(Big) && h.none.type_size() == 0, "type_size");
            check(h.small.type_id() == cetl::type_id_value<Val> && h.none.type_id() == cetl::type_id_value<void>, "type_id");
            check(h.small.get_memory_resource() == h.sys, "resource");
        }
        else
        {
            try
            {
                (void) cetl::get<const Big&>(h.small);
                check(false, "wrong type");
            }
            catch (const cetl::bad_unbounded_variant_access&)
            {
            }
        }
    }
    static void function(const Hall& h, std::int64_t k, int sub)
    {
        check(h.fsmall && h.flarge && !h.fnone, "function empty or not");
        check(h.fsmall(1) == k * 2 + 1 && h.flarge(2) == k * 2 + 2, "function result");
        if (sub == 0)
        {
            const Fn a(h.fsmall);
            const Fn b(h.flarge);
            check(a(5) == k * 2 + 5 && b(6) == k * 2 + 6, "copy of function");
        }
        else if (sub == 1)
        {
            try
            {
                (void) h.fnone(1);
                check(false, "empty function");
            }
            catch (const std::bad_function_call&)
            {
            }
        }
    }
    static void alternatives(const Hall& h, std::int64_t k, int sub)
    {
        check(h.var.index() == 3 && h.var2.index() == 2 && !h.var.valueless_by_exception(), "index");
        if (sub == 0)
        {
            const Var c(h.var);
            Var       d;
            d = h.var2;
            check(cetl::pf17::get<Big>(c).v == k && cetl::pf17::get<2>(d).v == k, "copy of variant");
        }
        else if (sub == 1)
        {
            const auto r =
                cetl::pf17::visit(cetl::make_overloaded([](const Big& a, const Val& b) -> std::int64_t { return a.v + b.v; },
                                                        [](const auto&, const auto&) -> std::int64_t { return -1; }),
                                  h.var,
                                  h.var2);
            check(r == 2 * k, "visit");
        }
        else if (sub == 2)
        {
            check(cetl::pf17::get_if<Big>(&h.var)->v == k && cetl::pf17::get_if<Val>(&h.var) == nullptr && cetl::pf17::holds_alternative<Val>(h.var2),
                  "access");
        }
        else
        {
            try
            {
                (void) cetl::pf17::get<1>(h.var);
                check(false, "wrong alternative");
            }
            catch (const cetl::pf17::bad_variant_access&)
            {
            }
        }
    }

    std::int64_t key_;
    int          n_;
    Hall*        hall_{nullptr};
};

void indep(const sim::Plan& p)
{
    Indep w(p);
}
void shared(const sim::Plan& p)
{
    Shared w(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "thr",
        {{"array", 3},
         {"bits", 2},
         {"unbounded", 3},
         {"function", 3},
         {"optional", 2},
         {"variant", 2},
         {"pointer", 2},
         {"buffer", 1},
         {"monotonic", 2},
         {"allocator", 1},
         {"system", 2},
         {"misc", 1}},
        {{"independent", &indep, 1}, {"readers", &shared, 1}},
        2,
        14,
        nullptr,
        true,
        false,
        "arrays, packed bool arrays, unbounded variants, functions, optionals, variants, factories, interface pointers, buffer, array, "
        "monotonic, system and global memory resources, polymorphic allocator, span, string view, rtti",
        "threads and scheduler, local static guards, locks, platform allocator",
        true,
    };
    return w;
}
