// World: a program comes to its end. Objects with static storage duration were created before, between or after the first uses of what
// the library keeps in static data, and go on using the library (and hold memory of the global resources) until their destructors, called
// in the reverse order, are done. Must stay valid C++14.
#include "conc.hpp"
#include "kit.hpp"

namespace
{
enum Late : int
{
    READ = OP_COUNT,
    TAKE,
    GIVE,
    OBJECT,
    SEQUENCE,
    MONOTONIC,
    NOTHING,
    REPLACE,
    RESTORE,
    ALL_COUNT
};

constexpr int kBlocks = 4;

/// A resource of the user's that is never destroyed.
class Own final : public Pmr
{
    void* do_allocate(std::size_t n, std::size_t) override
    {
        return ::operator new(n);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override
    {
        ::operator delete(p);
    }
    bool do_is_equal(const Pmr& o) const noexcept override
    {
        return &o == this;
    }
};

class W final
{
    struct Block
    {
        Pmr*           from{nullptr};
        unsigned char* at{nullptr};
        std::size_t    size{0};
    };
    using Pa  = pmr::polymorphic_allocator<Val>;
    using Ptr = cetl::pmr::Factory::unique_ptr_t<Pa>;
    using Seq = cetl::VariableLengthArray<Val, Pa>;

    /// What a static object of the user's holds.
    struct Holder
    {
        W*                                               w{nullptr};
        int                                              id{0};
        bool                                             listed{false};
        Kit*                                             kit{nullptr};
        Block                                            block[kBlocks];
        std::unique_ptr<Ptr>                             obj;
        std::unique_ptr<Seq>                             seq;
        std::unique_ptr<pmr::monotonic_buffer_resource> mono;
        std::int64_t                                     value{0};
        std::uint64_t                                    seen{0};
    };

public:
    explicit W(const sim::Plan& p)
        : plan_(p)
        , n_(1 + static_cast<int>(p.cfg[2] % 2))
        , early_(static_cast<int>(p.cfg[3] % 3))
        , from_(p.steps.size() * static_cast<std::size_t>(1 + p.cfg[4] % 4) / 5)
        , filled_(p.cfg[5] % 2 == 0)
    {
        conc::Program g{};
        g.self   = this;
        g.setup  = [](void* s) { static_cast<W*>(s)->setup(); };
        g.step   = [](void* s, int t, int i, const sim::Step& st) { static_cast<W*>(s)->step(t, i, st); };
        g.finish = [](void* s) { static_cast<W*>(s)->finish(); };
        conc::run(p, n_, g);
    }

private:
    void list(Holder& h)
    {
        if (!h.listed)
        {
            h.listed = true;
            conc::at_exit([](void* a) { static_cast<Holder*>(a)->w->gone(*static_cast<Holder*>(a)); }, &h);
        }
    }
    void setup()
    {
        own_ = new Own;
        for (int t = 1; t <= n_; ++t)
        {
            hold_[t]     = new Holder;
            hold_[t]->w  = this;
            hold_[t]->id = t;
            if (early_ == 0)
            {
                list(*hold_[t]);
            }
        }
    }
    void step(int t, int i, const sim::Step& s)
    {
        if (static_cast<std::size_t>(i) >= from_)
        {
            return;  // done at the end
        }
        Holder& h = *hold_[t];
        if (early_ == 1)
        {
            list(h);
        }
        act(h, s);
        if (early_ == 2)
        {
            list(h);
        }
        conc::point();
    }
    /// The destructor of a static object.
    void gone(Holder& h)
    {
        for (std::size_t i = from_; i < plan_.steps.size(); ++i)
        {
            if (1 + plan_.steps[i].a[0] % n_ == h.id)
            {
                sim::trace("  at the end: %s (%lld %lld %lld)", sim::world().ops[static_cast<std::size_t>(plan_.steps[i].op)].name,
                           static_cast<long long>(plan_.steps[i].a[1]), static_cast<long long>(plan_.steps[i].a[2]),
                           static_cast<long long>(plan_.steps[i].a[3]));
                act(h, plan_.steps[i]);
                sim::probe("used_at_exit");
            }
        }
        if (h.kit != nullptr)
        {
            h.kit->look();
            h.seen = h.kit->digest();
            delete h.kit;
        }
        for (auto& b : h.block)
        {
            give(b);
        }
        check(h);
        h.obj.reset();
        h.seq.reset();
        h.mono.reset();
        identity();
    }
    static void bad(const char* what)
    {
        sim::violation("content", "%s", what);
    }
    void give(Block& b)
    {
        if (b.at == nullptr)
        {
            return;
        }
        for (std::size_t i = 0; i < b.size; ++i)
        {
            if (b.at[i] != static_cast<unsigned char>(b.size + i))
            {
                bad("memory of a global resource lost its contents");
            }
        }
        b.from->deallocate(b.at, b.size, 8);
        b.at = nullptr;
    }
    void check(const Holder& h)
    {
        if (h.obj != nullptr && (*h.obj)->v != h.value)
        {
            bad("an object in memory of a global resource changed");
        }
        if (h.seq != nullptr)
        {
            for (std::size_t i = 0; i < h.seq->size(); ++i)
            {
                if ((*h.seq)[i].v != static_cast<std::int64_t>(i))
                {
                    bad("an array in memory of a global resource changed");
                }
            }
        }
    }
    /// The global resources are the same from the first to the last use.
    void identity()
    {
        same(sys_, pmr::new_delete_resource());
        same(null_, pmr::null_memory_resource());
        Pmr* const d = pmr::get_default_resource();
        const conc::Hidden h;
        if (d != (default_ != nullptr ? default_ : sys_))
        {
            bad("the default resource is not the one installed last");
        }
    }
    static void same(Pmr*& first, Pmr* now)
    {
        if (now == nullptr || !now->is_equal(*now))
        {
            bad("a global resource is not usable");
        }
        const conc::Hidden h;
        if (first != nullptr && first != now)
        {
            bad("a global resource was exchanged for another");
        }
        first = now;
    }
    void act(Holder& h, const sim::Step& s)
    {
        if (s.op < OP_COUNT)
        {
            if (h.kit == nullptr)
            {
                h.kit = new Kit(h.id, filled_);
            }
            h.kit->step(s);
            return;
        }
        switch (s.op)
        {
        case READ:
            identity();
            return;
        case TAKE:
        {
            Block& b = h.block[s.a[1] % kBlocks];
            give(b);
            b.from = s.a[2] % 2 == 0 ? pmr::get_default_resource() : pmr::new_delete_resource();
            b.size = 1 + static_cast<std::size_t>(s.a[3] % 40);
            b.at   = static_cast<unsigned char*>(b.from->allocate(b.size, 8));
            for (std::size_t i = 0; b.at != nullptr && i < b.size; ++i)
            {
                b.at[i] = static_cast<unsigned char>(b.size + i);
            }
            return;
        }
        case GIVE:
            give(h.block[s.a[1] % kBlocks]);
            return;
        case OBJECT:
        {
            check(h);
            Pa a(pmr::get_default_resource());
            h.value = s.a[3] % 100;
            h.obj.reset(new Ptr(cetl::pmr::Factory::make_unique(a, h.value)));
            check(h);
            return;
        }
        case SEQUENCE:
            if (h.seq == nullptr || s.a[2] % 4 == 0)
            {
                h.seq.reset(new Seq(Pa(pmr::get_default_resource())));
            }
            for (std::int64_t i = s.a[3] % 5; i > 0; --i)
            {
                h.seq->push_back(Val(static_cast<std::int64_t>(h.seq->size())));
            }
            check(h);
            return;
        case MONOTONIC:
            if (h.mono == nullptr || s.a[2] % 4 == 0)
            {
                h.mono.reset(new pmr::monotonic_buffer_resource);
            }
            if (s.a[2] % 4 == 1)
            {
                h.mono->release();
            }
            (void) h.mono->allocate(1 + static_cast<std::size_t>(s.a[3] % 60), 8);
            return;
        case NOTHING:
        {
            bool refused = false;
            same(null_, pmr::null_memory_resource());
            try
            {
                refused = pmr::null_memory_resource()->allocate(1 + static_cast<std::size_t>(s.a[3] % 9), 1) == nullptr;
            }
            catch (const std::bad_alloc&)
            {
                refused = true;
            }
            if (!refused)
            {
                bad("the null resource supplied memory");
            }
            return;
        }
        case REPLACE:
        case RESTORE:
            if (n_ == 1)
            {
                Pmr* const old = pmr::set_default_resource(s.op == REPLACE ? own_ : nullptr);
                const conc::Hidden g;
                if (default_ != nullptr ? old != default_ : (sys_ != nullptr && old != sys_))
                {
                    bad("replacing the default resource returned another one than was installed");
                }
                sys_     = default_ == nullptr ? old : sys_;
                default_ = s.op == REPLACE ? own_ : nullptr;
            }
            return;
        default:
            return;
        }
    }
    void finish()
    {
        for (int t = 1; t <= n_; ++t)
        {
            list(*hold_[t]);
        }
        sim::trace("the program ends");
        conc::run_exit();
        for (int t = 1; t <= n_; ++t)
        {
            if (hold_[t]->kit == nullptr)
            {
                continue;
            }
            conc::fresh_image();
            Kit* const k = new Kit(t, filled_);
            for (const auto& s : plan_.steps)
            {
                if (s.op < OP_COUNT && 1 + s.a[0] % n_ == t)
                {
                    k->step(s);
                }
                else if (n_ == 1 && (s.op == REPLACE || s.op == RESTORE))
                {
                    (void) pmr::set_default_resource(s.op == REPLACE ? own_ : nullptr);
                }
            }
            k->look();
            if (k->digest() != hold_[t]->seen)
            {
                sim::violation("content", "objects used until the end of the program gave other results than elsewhere");
            }
            sim::state(k->digest());
            delete k;
        }
        sim::state(static_cast<std::uint64_t>(early_ * 2 + n_));
    }

    const sim::Plan& plan_;
    int              n_;
    int              early_;
    std::size_t      from_;
    bool             filled_;
    Holder*          hold_[conc::kMaxThreads + 1]{};
    Pmr*             own_{nullptr};
    Pmr*             sys_{nullptr};
    Pmr*             null_{nullptr};
    Pmr*             default_{nullptr};
};

void exec(const sim::Plan& p)
{
    W w(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "exit",
        {{"array", 2},
         {"bits", 1},
         {"unbounded", 2},
         {"function", 2},
         {"optional", 1},
         {"variant", 2},
         {"pointer", 2},
         {"buffer", 1},
         {"monotonic", 1},
         {"allocator", 1},
         {"system", 1},
         {"misc", 1},
         {"read_globals", 3},
         {"take", 4},
         {"give", 2},
         {"make_object", 3},
         {"sequence", 3},
         {"default_monotonic", 3},
         {"null_resource", 3},
         {"replace_default", 2},
         {"restore_default", 2}},
        {{"program", &exec, 1}},
        2,
        14,
        nullptr,
        true,
        false,
        "arrays, packed bool arrays, unbounded variants, functions, optionals, variants, factories, interface pointers, buffer, array, "
        "monotonic, system, null and global memory resources, polymorphic allocator",
        "threads and scheduler, end of the program, local static guards, locks, platform allocator, element and value types",
    };
    return w;
}
