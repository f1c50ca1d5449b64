// Schedules of WorkQueue: workers, submitters, takers, closing.
#include "sched.hpp"
#undef vector
#undef queue
#include "explore.hpp"
#define vector sched_vector
#define queue sched_queue
#include "gmlc/containers/WorkQueue.hpp"
#undef vector
#undef queue
using namespace gmlc::containers;
#include "conc_common.hpp"

struct Ctl {
    WorkQueue* q = nullptr;
    std::map<int, int> label;  // fiber -> scenario thread
    std::map<int, int> depth;  // nested submissions inside inline execution
    std::array<bool, 10> gate{};
    int expected = 0, doneCnt = 0;
    bool allDone = false, closeSeen = false;
    bool submitters = false;
    void upd() { allDone = submitters && expected == doneCnt; }
    int who(bool& worker)
    {
        int f = vs::live() ? vs::R->cur->id : 0;
        auto it = label.find(f);
        worker = it == label.end();
        int l = worker ? 100 + f : it->second;
        return l + 1000 * depth[f];
    }
};
static std::shared_ptr<Ctl> C;
static void raw(const std::string& s) { add({'x', 0, s, {}}); }

static void submit(const std::vector<std::shared_ptr<BasicWorkBlock>>& bs, bool vec, char prio,
                   const std::vector<int>& ids, int finishedId = 0);

struct CB : BasicWorkBlock {
    int id;
    int gate = 0;  // 0 none
    bool fin = false;
    char nestPrio = 0;
    int nestId = 0;
    int loc = vs::newLoc();
    explicit CB(int i): id(i)
    {
        vs::wr(loc);
    }
    void execute() override
    {
        auto c = C;
        bool w;
        int t = c->who(w);
        raw("{\"k\":\"st\",\"t\":" + std::to_string(t) + ",\"b\":" + std::to_string(id) + ",\"w\":" + (w ? "1}" : "0}"));
        consume(id);
        vs::rd(loc);
        vs::dataPoint();
        if (gate) vs::waitFlag(&c->gate[(size_t)gate]);
        if (nestId) {
            int f = vs::live() ? vs::R->cur->id : 0;
            ++c->depth[f];
            auto nb = std::make_shared<CB>(nestId);
            publish(nestId);
            submit({nb}, false, nestPrio, {nestId});
            --c->depth[f];
        }
        vs::wr(loc);
        fin = true;
        raw("{\"k\":\"en\",\"t\":" + std::to_string(t) + ",\"b\":" + std::to_string(id) + "}");
        ++c->doneCnt;
        c->upd();
    }
    bool isFinished() const override
    {
        vs::rd(loc);
        return fin;
    }
};
static WorkQueue::WorkPriority pr(char c)
{
    switch (c) {
        case 'h': return WorkQueue::WorkPriority::high;
        case 'q': return WorkQueue::WorkPriority::required;
        case 'l': return WorkQueue::WorkPriority::low;
        default: return WorkQueue::WorkPriority::medium;
    }
}
static void submit(const std::vector<std::shared_ptr<BasicWorkBlock>>& bs, bool vec, char prio,
                   const std::vector<int>& ids, int)
{
    auto c = C;
    bool w;
    int t = c->who(w);
    vs::opPoint();
    c->expected += (int)ids.size();
    c->upd();
    inv(t, std::string("add") + prio, ids);
    if (vec) {
        std::sched_vector<std::shared_ptr<BasicWorkBlock>> v;
        for (auto& b : bs) v.push_back(b);
        c->q->addWorkBlock(v, pr(prio));
    } else if (prio == 'm' && !ids.empty() && ids[0] % 2)
        c->q->addWorkBlock(bs[0]);
    else
        c->q->addWorkBlock(bs[0], pr(prio));
    ret(t);
}

static int valuesOf(const std::string& o)
{
    switch (o[0]) {
        case 'h': case 'm': case 'l': case 'q': case 'g': case 'f': return 1;
        case 'n': return 2;
        case 'v': case 'G': return o[2] - '0';
        case 'x': return 2;
        default: return 0;
    }
}

static void doOp(const Op& o)
{
    auto c = C;
    bool w;
    int t = c->who(w);
    const std::string& n = o.name;
    auto mk = [&](int id) {
        auto b = std::make_shared<CB>(id);
        publish(id);
        return b;
    };
    switch (n[0]) {
        case 'h': case 'm': case 'l': case 'q': submit({mk(o.vals[0])}, false, n[0], o.vals); return;
        case 'g': {
            auto b = mk(o.vals[0]);
            b->gate = n[2] - '0';
            submit({b}, false, n[1], o.vals);
            return;
        }
        case 'n': {
            auto b = mk(o.vals[0]);
            b->nestPrio = n[2];
            b->nestId = o.vals[1];
            submit({b}, false, n[1], {o.vals[0]});
            return;
        }
        case 'v': {
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            for (int id : o.vals) v.push_back(mk(id));
            submit(v, true, n[1], o.vals);
            return;
        }
        case 'G': {  // a vector whose first blocks wait for the given gates
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            size_t k = 3;
            for (int id : o.vals) {
                auto b = mk(id);
                if (k < n.size()) b->gate = n[k++] - '0';
                v.push_back(b);
            }
            submit(v, true, n[1], o.vals);
            return;
        }
        case 'x': {
            auto f = mk(-1);
            f->fin = true;
            submit({mk(o.vals[0]), nullptr, f, mk(o.vals[1])}, true, n[1], o.vals);
            return;
        }
        case '0': submit({nullptr}, false, 'm', {}); return;
        case 'f': {
            auto f = mk(o.vals[0]);
            f->fin = true;
            submit({f}, false, n[1], {});
            return;
        }
        case 'o': c->gate[(size_t)(n[1] - '0')] = true; return;
        case 'i':
            vs::waitIdle();
            raw("{\"k\":\"idle\"}");
            return;
    }
    vs::opPoint();
    switch (n[0]) {
        case 'R': {
            int k = std::stoi(n.substr(1));
            inv(t, "ratio", {k});
            c->q->setPriorityRatio(k);
            ret(t);
            return;
        }
        case 't': case 'T': {
            inv(t, "take");
            auto b = c->q->getWorkBlock();
            int id = b ? static_cast<CB*>(b.get())->id : 0;
            ret(t, {id});
            if (b && !b->isFinished()) {
                if (n[0] == 'T') b->execute();
                else {
                    ++c->doneCnt;
                    c->upd();
                }
            }
            return;
        }
        case 'e': {
            inv(t, "isempty");
            bool r = c->q->isEmpty();
            ret(t, {r ? 1 : 0});
            return;
        }
        case 'b': {
            inv(t, "numblock");
            int r = (int)c->q->numBlock();
            ret(t, {r});
            return;
        }
        case 'w': {
            inv(t, "wcount");
            int r = c->q->getWorkerCount();
            ret(t, {r});
            return;
        }
        case 'c':
            c->closeSeen = true;
            inv(t, "close");
            c->q->closeWorkerQueue();
            ret(t);
            return;
    }
    fprintf(stderr, "bad op %s\n", n.c_str());
    _exit(3);
}

static Body makeBody(const Scenario& sc)
{
    C = std::make_shared<Ctl>();
    auto c = C;
    Body b;
    b.main = [c, &sc] {
        c->label[0] = 0;
        c->q = new (vs::trackedMemory(sizeof(WorkQueue))) WorkQueue(sc.cap);
        for (auto& o : sc.threads[0]) doOp(o);
        std::vector<std::sched_thread> ths;
        for (size_t k = 1; k < sc.threads.size(); ++k)
            ths.emplace_back([&, k] {
                C->label[vs::R->cur->id] = (int)k;
                for (auto& o : sc.threads[k]) doOp(o);
            });
        for (auto& t : ths) t.join();
        for (auto& g : c->gate) g = true;
        c->submitters = true;
        c->upd();
        if (!c->closeSeen && sc.name[0] != 'D') {  // scenarios named D..: destroy without waiting for the blocks
            vs::waitFlag(&c->allDone);
            raw("{\"k\":\"rest\"}");
        }
        inv(0, "destroy");
        delete c->q;
        ret(0);
        vs::waitIdle();
        raw("{\"k\":\"end\"}");
    };
    b.abandon = nullptr;  // may be in use by abandoned fibers: leaked
    return b;
}
static bool special(const Scenario&, const std::string&, FILE*, vs::Stats&) { return false; }
