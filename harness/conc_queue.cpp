// Concurrent histories of SimpleQueue / BlockingQueue / BlockingPriorityQueue.
#ifndef KIND
#define KIND 0  // 1 SimpleQueue, 2 BlockingQueue, 3 BlockingPriorityQueue, 0 all
#endif
#include "sched.hpp"
#undef vector
#undef queue
#include "explore.hpp"
#define vector sched_vector
#define queue sched_queue

#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"
#undef vector
#undef queue
using gmlc::containers::BlockingPriorityQueue;
using gmlc::containers::BlockingQueue;
using gmlc::containers::SimpleQueue;

#include "conc_common.hpp"

static const char* opName(const std::string& o)
{
    static const std::map<std::string, const char*> m{
        {"p", "push"}, {"e", "emplace"}, {"P", "pushp"}, {"E", "emplacep"}, {"o", "try"}, {"b", "pop"},
        {"w", "timed"}, {"f", "poc"}, {"F", "poc"}, {"k", "peek"}, {"s", "size"}, {"m", "empty"},
        {"c", "clear"}, {"r", "reserve"}, {"x", "fail"}, {"y", "fail"}, {"X", "fail"}, {"Y", "fail"}};
    auto it = m.find(o);
    if (it != m.end()) return it->second;
    if (o[0] == 'v') return "pushv";
    if (o[0] == 'w') return "timed";
    if (o[0] == 'V') return "fail";
    return "?";
}

template<class Q>
struct Tr;
template<>
struct Tr<SimpleQueue<Item>> {
    using Q = SimpleQueue<Item>;
    static auto pop(Q& q) { return q.pop(); }
    static auto peek(Q& q) { return q.peek(); }
    static int size(Q& q) { return (int)q.size(); }
};
template<>
struct Tr<BlockingQueue<Item>> {
    using Q = BlockingQueue<Item>;
    static auto pop(Q& q) { return q.try_pop(); }
    static auto peek(Q& q) { return q.try_peek(); }
    static int size(Q& q) { return (int)q.size(); }
};
template<>
struct Tr<BlockingPriorityQueue<Item>> {
    using Q = BlockingPriorityQueue<Item>;
    static auto pop(Q& q) { return q.try_pop(); }
    static auto peek(Q& q) { return q.try_peek(); }
    static int size(Q&) { return -1; }
};

template<class Q>
void doOp(Q& q, const Op& o, int t)
{
    constexpr bool simple = std::is_same_v<Q, SimpleQueue<Item>>;
    constexpr bool prio = std::is_same_v<Q, BlockingPriorityQueue<Item>>;
    const std::string& n = o.name;
    vs::opPoint();
    for (int v : o.vals)
        if (n != "F") publish(v);
    if (n == "F") inv(t, "poc");
    else inv(t, opName(n), o.vals);
    std::vector<int> r;
    if (n == "p") {
        Item it(o.vals[0]);
        if (o.vals[0] % 2) q.push(it);
        else q.push(std::move(it));
    } else if (n == "e") {
        if (o.vals[0] % 2) q.emplace(o.vals[0], 0);
        else q.emplace(o.vals[0]);
    } else if (n == "k") r = opt(Tr<Q>::peek(q));
    else if (n == "m") r = {q.empty() ? 1 : 0};
    else if (n == "c") q.clear();
    else if (n == "x" || n == "y" || n == "X" || n == "Y") {
        // an insertion whose element cannot be constructed
        Item b(Item::bad);
        r = {1};
        try {
            if (n == "x") q.emplace(Boom());
            else if (n == "y") q.push(b);
            if constexpr (prio) {
                if (n == "X") q.emplacePriority(Boom());
                else if (n == "Y") q.pushPriority(b);
            }
        }
        catch (const Boom&) {
            r = {0};
        }
    }
    else if (n == "r") q.reserve(5);
    else if (n == "o") r = opt(Tr<Q>::pop(q));
    else {
        bool done = false;
        if constexpr (simple) {
            if (n[0] == 'V') {  // V<k>: a batch of k whose last element cannot be copied, V0<k>: whose first one cannot
                std::sched_vector<Item> b;
                b.reserve(8);
                for (char c : n.substr(1))
                    if (c == '0') b.emplace_back(Item::bad);
                for (int k = n.back() - '0'; k > 1; --k) b.emplace_back(900 + k);
                if (n[1] != '0') b.emplace_back(Item::bad);
                r = {1};
                try {
                    q.pushVector(b);
                }
                catch (const Boom&) {
                    r = {0};
                }
                done = true;
            }
            if (n[0] == 'v') {
                std::sched_vector<Item> b;
                for (int v : o.vals) b.emplace_back(v);
                q.pushVector(b);
                done = true;
            }
        }
        if constexpr (!prio) {
            if (n == "s") {
                r = {Tr<Q>::size(q)};
                done = true;
            }
        }
        if constexpr (prio) {
            if (n == "P") {
                Item it(o.vals[0]);
                if (o.vals[0] % 2) q.pushPriority(it);
                else q.pushPriority(std::move(it));
                done = true;
            } else if (n == "E") {
                q.emplacePriority(o.vals[0]);
                done = true;
            }
        }
        if constexpr (!simple) {
            if (n == "b") {
                r = some(q.pop());
                done = true;
            } else if (n[0] == 'w') {
                using namespace std::chrono;
                auto timed = [&](auto d) {
                    if (vs::live())
                        timedCalls[t] = {vs::R->cur->now, (int)std::max(0LL, (long long)duration_cast<microseconds>(d).count() / 100)};
                    r = opt(q.pop(d));
                    timedCalls.erase(t);
                };
                if (n == "w0") timed(milliseconds(0));
                else if (n == "wn") timed(milliseconds(-5));
                else if (n == "wu") timed(microseconds(1500));
                else if (n == "ws") timed(seconds(2));
                else if (n == "wh") timed(hours(3));
                else if (n == "wd") timed(duration<double>(0.25));
                else timed(milliseconds(10));
                done = true;
            } else if (n == "f") {
                r = some(q.popOrCall([t] { add({'c', t, "", {}}); }));
                done = true;
            } else if (n == "F") {
                int cnt = 0;
                r = some(q.popOrCall([&] {
                    add({'c', t, "", {}});
                    if (cnt++ == 0) {
                        int v = o.vals[0];
                        publish(v);
                        inv(t + 10, "push", {v});
                        q.push(Item(v));
                        ret(t + 10);
                    }
                }));
                done = true;
            }
        }
        if (!done) {
            fprintf(stderr, "bad op %s\n", n.c_str());
            _exit(3);
        }
    }
    ret(t, r);
}


static int valuesOf(const std::string& o)
{
    if (o == "p" || o == "e" || o == "P" || o == "E" || o == "F") return 1;
    return o[0] == 'v' ? std::stoi(o.substr(1)) : 0;
}

template<class Q>
static Body queueBody(const Scenario& sc)
{
    auto qp = std::make_shared<std::unique_ptr<Q>>();
    Body b;
    b.main = [qp, &sc] {
        auto& q = *qp;
        void* mem = vs::trackedMemory(sizeof(Q));
        q.reset(sc.cap >= 0 ? new (mem) Q((size_t)sc.cap) : new (mem) Q());
        for (auto& o : sc.threads[0]) doOp(*q, o, 0);
        std::vector<std::sched_thread> ths;
        for (size_t k = 1; k < sc.threads.size(); ++k)
            ths.emplace_back([&, k] {
                for (auto& o : sc.threads[k]) doOp(*q, o, (int)k);
            });
        for (auto& t : ths) t.join();
        // rest
        int sz = Tr<Q>::size(*q);
        int em = q->empty() ? 1 : 0;
        auto pk = opt(Tr<Q>::peek(*q));
        std::vector<int> dr;
        for (int n = 0; n < 1000; ++n) {
            auto x = Tr<Q>::pop(*q);
            if (!x) break;
            dr.push_back(x->v);
        }
        int em2 = q->empty() ? 1 : 0;
        auto pk2 = opt(Tr<Q>::peek(*q));
        int sz2 = Tr<Q>::size(*q);
        std::string s = "{\"k\":\"rest\",\"size\":" + std::to_string(sz) + ",\"empty\":" + std::to_string(em) +
            ",\"peek\":" + js(pk) + ",\"drain\":" + js(dr) + ",\"after\":[" + std::to_string(em2) + "," +
            std::to_string(sz2 < 0 ? 0 : sz2) + "," + std::to_string(pk2[0]) + "]}";
        hist.push_back({'x', 0, s, {}});
        q.reset();
    };
    b.abandon = [qp] { (void)qp->release(); };  // may be in use by abandoned fibers
    return b;
}
static Body makeBody(const Scenario& sc)
{
#if KIND == 0 || KIND == 1
    if (sc.kind == 'S') return queueBody<SimpleQueue<Item>>(sc);
#endif
#if KIND == 0 || KIND == 2
    if (sc.kind == 'B') return queueBody<BlockingQueue<Item>>(sc);
#endif
#if KIND == 0 || KIND == 3
    if (sc.kind == 'P') return queueBody<BlockingPriorityQueue<Item>>(sc);
#endif
    _exit(3);
}

// ---------------------------------------------------------------- sequential scripts over several objects
// tokens  obj:op   with op one of the operations, N (fresh), Ck (fresh with capacity k),
// Mj (construct object j from this one by move), Aj (move-assign this one to j)
struct STok {
    int obj = 0;
    Op op;
    int arg = 0;
};
static std::vector<STok> parseSeq(const std::string& body)
{
    std::vector<STok> r;
    std::stringstream ss(body);
    std::string t;
    int val = 1;
    while (ss >> t) {
        STok k;
        auto c = t.find(':');
        k.obj = std::stoi(t.substr(0, c));
        std::string o = t.substr(c + 1);
        k.op.name = o;
        char h = o[0];
        if (h == 'M' || h == 'A' || h == 'C') {
            k.op.name = std::string(1, h);
            k.arg = std::stoi(o.substr(1));
        }
        int n = 0;
        if (o == "p" || o == "e" || o == "P" || o == "E" || o == "F") n = 1;
        if (h == 'v') n = std::stoi(o.substr(1));
        for (int i = 0; i < n; ++i) k.op.vals.push_back(val++);
        r.push_back(k);
    }
    return r;
}
template<class Q>
struct Objs {
    std::array<std::unique_ptr<Q>, 3> o;
    Objs()
    {
        for (auto& x : o) x = std::make_unique<Q>();
    }
    void step(const STok& t)
    {
        auto& q = o[(size_t)t.obj];
        if (t.op.name == "N") q = std::make_unique<Q>();
        else if (t.op.name == "C") q = std::make_unique<Q>((size_t)t.arg);
        else if (t.op.name == "M") o[(size_t)t.arg] = std::make_unique<Q>(std::move(*q));
        else if (t.op.name == "A") *o[(size_t)t.arg] = std::move(*q);
        else doOp(*q, t.op, 0);
    }
};
template<class Q>
static std::vector<int> drain(Q& q)
{
    std::vector<int> dr;
    for (int n = 0; n < 60; ++n) {
        auto x = Tr<Q>::pop(q);
        if (!x) break;
        dr.push_back(x->v);
    }
    return dr;
}
template<class Q>
static std::string observe(Q& q)
{
    int em = q.empty() ? 1 : 0;
    int sz = Tr<Q>::size(q);
    auto pk = opt(Tr<Q>::peek(q));
    int em2 = q.empty() ? 1 : 0;
    int sz2 = Tr<Q>::size(q);
    auto pk2 = opt(Tr<Q>::peek(q));
    auto dr = drain(q);
    int em3 = q.empty() ? 1 : 0;
    auto pk3 = opt(Tr<Q>::peek(q));
    int sz3 = Tr<Q>::size(q);
    return "\"drain\":" + js(dr) + ",\"empty\":" + js({em, em2}) + ",\"size\":" + js({sz, sz2}) + ",\"peek\":[" + js(pk) +
        "," + js(pk2) + "],\"after\":" + js({em3, sz3 < 0 ? 0 : sz3, pk3[0]});
}
template<class Q>
void runSeq(const std::string& body, FILE* out, const std::string& name, char kind, vs::Stats& st)
{
    auto toks = parseSeq(body);
    std::vector<std::string> evs;
    auto one = [&](size_t n, std::function<void(Objs<Q>&)> f) {
        // fresh objects, first n operations, then f
        vs::Run run;
        vs::R = &run;
        hist.clear();
        shmLen = 0;
        vs::ReplayStrategy rs;
        run.strat = &rs;
        run.timeoutBudget = 0;
        run.spawn([&] {
            Objs<Q> os;
            for (size_t i = 0; i < n; ++i) os.step(toks[i]);
            f(os);
        });
        run.loop();
        auto oc = run.outcome;
        ++st.runs;
        vs::R = nullptr;
        return oc;
    };
    for (size_t n = 0; n <= toks.size(); ++n) {
        auto last = n ? toks[n - 1] : STok();
        std::vector<int> src;
        if (n) {
            std::string r = "[]";
            if (last.op.name == "M" || last.op.name == "A")
                one(n - 1, [&](Objs<Q>& o) { src = drain(*o.o[(size_t)last.obj]); });
            else {
                one(n, [&](Objs<Q>&) {});
                for (size_t i = hist.size(); i-- > 0;)
                    if (hist[i].k == 'r' && hist[i].t == 0) {
                        r = js(hist[i].a);
                        break;
                    }
            }
            const char* on = opName(last.op.name);
            if (strchr("NCMA", last.op.name[0]) && last.op.name.size() == 1) on = last.op.name.c_str();
            evs.push_back("{\"k\":\"op\",\"o\":" + std::to_string(last.obj) + ",\"op\":\"" + on + "\",\"a\":" +
                          js(last.op.vals) + ",\"d\":" + std::to_string(last.arg) + ",\"r\":" + r + ",\"src\":" + js(src) + "}");
        }
        for (size_t k = 0; k < 3; ++k) {
            std::string z;
            auto oc = one(n, [&](Objs<Q>& o) { z = observe(*o.o[k]); });
            if (oc != vs::OK) {
                evs.push_back(oc == vs::EXC ? "{\"k\":\"Exc\"}" : "{\"k\":\"stuck\"}");
                n = toks.size() + 1;
                break;
            }
            evs.push_back("{\"k\":\"z\",\"o\":" + std::to_string(k) + "," + z + "}");
        }
    }
    ++st.distinct;
    fprintf(out, "{\"sc\":\"%s\",\"kind\":\"%c\",\"data\":0,\"sched\":\"%s\",\"ev\":[", name.c_str(), kind, body.c_str());
    for (size_t i = 0; i < evs.size(); ++i) fprintf(out, "%s%s", i ? "," : "", evs[i].c_str());
    fprintf(out, "]}\n");
}

static bool special(const Scenario& sc, const std::string& body, FILE* out, vs::Stats& st)
{
#if KIND == 0 || KIND == 1
    if (sc.kind == 'S') runSeq<SimpleQueue<Item>>(body, out, sc.name, sc.kind, st);
#endif
#if KIND == 0 || KIND == 2
    if (sc.kind == 'B') runSeq<BlockingQueue<Item>>(body, out, sc.name, sc.kind, st);
#endif
#if KIND == 0 || KIND == 3
    if (sc.kind == 'P') runSeq<BlockingPriorityQueue<Item>>(body, out, sc.name, sc.kind, st);
#endif
    return true;
}
