// World: objects of every kind that are handed from thread to thread, behind a lock or through a mailbox; threads end while objects they
// made or used live on. Each set of objects must give what it gives to a single thread. Must stay valid C++14.
#include "conc.hpp"
#include "kit.hpp"
#include <atomic>
#include <mutex>
#include <vector>

namespace
{
enum Hand : int
{
    DROP = OP_COUNT,
    ALL_COUNT
};

constexpr int kSets = 3;

/// Oracle code; not preempted, not seen.
template <typename F>
void quietly(F f)
{
    const conc::Hidden h;
    f();
}

class W final
{
    struct Set
    {
        std::mutex        lock;
        std::atomic<Kit*> box{nullptr};
        Kit*              kit{nullptr};
        // oracle
        std::vector<int>           order;  // plan indices in the order of execution
        std::vector<std::uint64_t> seen;   // what each life of the set ended with
        int                        maker{0};
        int                        last{0};
    };

public:
    explicit W(const sim::Plan& p)
        : plan_(p)
        , n_(2 + static_cast<int>(p.cfg[2] % 3))
        , m_(1 + static_cast<int>(p.cfg[3] % kSets))
        , mail_(p.cfg[4] % 2 == 0)
        , filled_(p.cfg[5] % 2 == 0)
    {
        conc::Program g{};
        g.self   = this;
        g.setup  = [](void* s) { static_cast<W*>(s)->setup(); };
        g.step   = [](void* s, int t, int i, const sim::Step& st) { static_cast<W*>(s)->step(t, i, st); };
        g.finish = [](void* s) { static_cast<W*>(s)->finish(); };
        conc::run(p, n_, g);
    }

private:
    void setup()
    {
        for (int i = 0; i < m_; ++i)
        {
            set_[i] = new Set;
            if (mail_)
            {
                set_[i]->box.store(new Kit(i + 1, filled_), std::memory_order_release);
            }
        }
    }
    void use(Set& s, Kit*& k, int id, int t, int i, const sim::Step& st)
    {
        quietly([&] {
            if (k == nullptr)
            {
                s.maker = t;
            }
            else if (s.last != t)
            {
                sim::probe("handed over");
            }
            if (k != nullptr && s.maker != t)
            {
                sim::probe("used by another thread than the one that made it");
            }
            s.last = t;
            s.order.push_back(i);
        });
        if (k == nullptr)
        {
            k = new Kit(id + 1, filled_);
        }
        if (st.op < OP_COUNT)
        {
            k->step(st);
            return;
        }
        end(s, k);
    }
    void end(Set& s, Kit*& k)
    {
        k->look();
        const std::uint64_t d = k->digest();
        delete k;
        k = nullptr;
        quietly([&] { s.seen.push_back(d); });
    }
    void step(int t, int i, const sim::Step& st)
    {
        const int id = static_cast<int>((st.a[0] / n_) % m_);
        Set&      s  = *set_[id];
        if (!mail_)
        {
            const std::lock_guard<std::mutex> g(s.lock);
            use(s, s.kit, id, t, i, st);
            return;
        }
        Kit* k = s.box.exchange(nullptr, std::memory_order_acquire);
        if (k == nullptr)
        {
            return;  // with another thread
        }
        use(s, k, id, t, i, st);
        if (k == nullptr)
        {
            k = new Kit(id + 1, filled_);
        }
        s.box.store(k, std::memory_order_release);
    }
    void finish()
    {
        for (int i = 0; i < m_; ++i)
        {
            Set& s = *set_[i];
            Kit* k = mail_ ? s.box.load(std::memory_order_acquire) : s.kit;
            if (k != nullptr)
            {
                end(s, k);
            }
        }
        for (int i = 0; i < m_; ++i)
        {
            Set& s = *set_[i];
            conc::fresh_image();
            Kit*        k    = mail_ ? new Kit(i + 1, filled_) : nullptr;
            std::size_t life = 0;
            for (const int at : s.order)
            {
                const sim::Step& st = plan_.steps[static_cast<std::size_t>(at)];
                if (k == nullptr)
                {
                    k = new Kit(i + 1, filled_);
                }
                if (st.op < OP_COUNT)
                {
                    k->step(st);
                }
                else
                {
                    compare(s, k, life);
                    k = mail_ ? new Kit(i + 1, filled_) : nullptr;
                }
            }
            if (k != nullptr)
            {
                compare(s, k, life);
            }
            delete set_[i];
        }
    }
    static void compare(const Set& s, Kit* k, std::size_t& life)
    {
        k->look();
        if (life >= s.seen.size() || k->digest() != s.seen[life])
        {
            sim::violation("content", "objects handed from thread to thread gave other results than in one thread");
        }
        ++life;
        sim::state(k->digest());
        delete k;
    }

    const sim::Plan& plan_;
    int              n_;
    int              m_;
    bool             mail_;
    bool             filled_;
    Set*             set_[kSets]{};
};

void exec(const sim::Plan& p)
{
    W w(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "hand",
        {{"array", 3},
         {"bits", 2},
         {"unbounded", 3},
         {"function", 3},
         {"optional", 2},
         {"variant", 2},
         {"pointer", 3},
         {"buffer", 2},
         {"monotonic", 2},
         {"allocator", 1},
         {"system", 1},
         {"misc", 1},
         {"end", 1}},
        {{"handed", &exec, 1}},
        2,
        16,
        nullptr,
        true,
        false,
        "arrays, packed bool arrays, unbounded variants, functions, optionals, variants, factories, interface pointers, buffer, array, "
        "monotonic, system and global memory resources, polymorphic allocator, span, string view, rtti",
        "threads and scheduler, thread-local data, local static guards, locks, platform allocator",
        true,
    };
    return w;
}
