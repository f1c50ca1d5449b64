// Concurrent histories of AirLock.
#include "sched.hpp"
#undef vector
#undef queue
#include "explore.hpp"
#include "gmlc/containers/AirLock.hpp"
using gmlc::containers::AirLock;
#include "conc_common.hpp"

static int valuesOf(const std::string& o) { return (o[0] == 'L' || o[0] == 'T') ? 1 : 0; }
using A = AirLock<Item>;

static void doOp(A& a, const Op& o, int t)
{
    vs::opPoint();
    for (int v : o.vals) publish(v);
    static const std::map<char, const char*> nm{{'L', "load"}, {'T', "tryload"}, {'U', "unload"}, {'I', "isloaded"},
                                                 {'X', "tryfail"}, {'Y', "loadfail"}};
    inv(t, nm.at(o.name[0]), o.vals);
    std::vector<int> r;
    switch (o.name[0]) {
        case 'L': {
            Item it(o.vals[0]);
            if (o.vals[0] % 2) a.load(it);
            else a.load(std::move(it));
            break;
        }
        case 'T': {
            Item it(o.vals[0]);
            bool ok = o.vals[0] % 2 ? a.try_load(it) : a.try_load(std::move(it));
            r = {ok ? 1 : 0};
            if (!ok && it.v != o.vals[0]) r = {0, 0};  // taken from the caller although not loaded
            break;
        }
        case 'X':  // loads whose assignment fails
        case 'Y': {
            Item it(Item::bad);
            try {
                if (o.name[0] == 'X') r = {a.try_load(it) ? 1 : 0};
                else a.load(it);
            }
            catch (const Boom&) {
                r = {2};
            }
            break;
        }
        case 'U': r = opt(a.try_unload()); break;
        default: r = {a.isLoaded() ? 1 : 0};
    }
    ret(t, r);
}

static Body makeBody(const Scenario& sc)
{
    auto ap = std::make_shared<std::unique_ptr<A>>();
    Body b;
    b.main = [ap, &sc] {
        auto& a = *ap;
        a.reset(new (vs::trackedMemory(sizeof(A))) A());
        for (auto& o : sc.threads[0]) doOp(*a, o, 0);
        std::vector<std::sched_thread> ths;
        for (size_t k = 1; k < sc.threads.size(); ++k)
            ths.emplace_back([&, k] {
                for (auto& o : sc.threads[k]) doOp(*a, o, (int)k);
            });
        for (auto& t : ths) t.join();
        for (const char* x : {"I", "U", "I", "U"}) {
            Op o;
            o.name = x;
            doOp(*a, o, 0);
        }
        a.reset();
    };
    b.abandon = [ap] { (void)ap->release(); };
    return b;
}
static bool special(const Scenario&, const std::string&, FILE*, vs::Stats&) { return false; }
