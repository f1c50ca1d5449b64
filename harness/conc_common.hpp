// Shared by the harnesses of the concurrent containers: histories, exploration, crash containment.
// Include after sched.hpp/explore.hpp with vector and queue NOT redirected.
#pragma once
static std::map<int, int> payloadLoc;  // value -> location of what the producer wrote

struct Boom {};  // thrown by the constructions that fail
struct Item {
    static constexpr int bad = -99;  // copies and moves of such an item into a container fail
    int v = 0;
    int loc = vs::newLoc();
    Item() { vs::wr(loc); }
    explicit Item(int x): v(x) { vs::wr(loc); }
    Item(int x, int): v(x) { vs::wr(loc); }
    explicit Item(const Boom& b)
    {
        vs::dataPoint();
        throw b;
    }
    Item(const Item& o)
    {
        vs::dataPoint();
        if (o.v == bad) throw Boom();
        vs::rd(o.loc);
        v = o.v;
        vs::wr(loc);
    }
    Item(Item&& o) noexcept
    {
        vs::dataPoint();
        vs::rd(o.loc);
        v = o.v;
        vs::wr(o.loc);
        o.v = -1;
        vs::wr(loc);
    }
    Item& operator=(const Item& o)
    {
        vs::dataPoint();
        if (o.v == bad) throw Boom();
        vs::rd(o.loc);
        vs::wr(loc);
        v = o.v;
        return *this;
    }
    Item& operator=(Item&& o) noexcept
    {
        vs::dataPoint();
        vs::rd(o.loc);
        vs::wr(loc);
        v = o.v;
        if (this != &o) o.v = -1;
        return *this;
    }
    ~Item()
    {
        vs::wr(loc);
        v = -2;
    }
};

struct Op {
    std::string name;
    std::vector<int> vals;
    int kids = 0;
};
struct Scenario {
    std::string name;
    char kind = 'B';
    int cap = -1;
    std::vector<std::vector<Op>> threads;  // [0] = sequential prefix
};
struct Ev {
    char k;  // i r t(imeout) c(all) b(locked) d(idle)
    int t;
    std::string op;
    std::vector<int> a;
};
static std::vector<Ev> hist;
// calls with a timeout in progress: thread -> its clock when the call began (ns), timeout (units of 100 us)
static std::map<int, std::pair<long long, int>> timedCalls;
static char* shm = nullptr;  // partial history for crash reports
static size_t shmLen = 0;

static std::string js(const std::vector<int>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::string evJson(const Ev& e)
{
    switch (e.k) {
        case 'i': return "{\"k\":\"i\",\"t\":" + std::to_string(e.t) + ",\"op\":\"" + e.op + "\",\"a\":" + js(e.a) + "}";
        case 'r': return "{\"k\":\"r\",\"t\":" + std::to_string(e.t) + ",\"r\":" + js(e.a) + "}";
        case 't':
            return "{\"k\":\"to\",\"t\":" + std::to_string(e.t) +
                (e.a.empty() ? "" : ",\"at\":" + std::to_string(e.a[0]) + ",\"want\":" + std::to_string(e.a[1])) + "}";
        case 'c': return "{\"k\":\"call\",\"t\":" + std::to_string(e.t) + "}";
        case 'b': return "{\"k\":\"blk\",\"t\":" + std::to_string(e.t) + "}";
        case 'd': return "{\"k\":\"idle\"}";
        default: return e.op;
    }
}
static void add(Ev e)
{
    std::string s = evJson(e);
    if (shm && shmLen + s.size() + 2 < 60000) {
        if (shmLen) shm[shmLen++] = ',';
        memcpy(shm + shmLen, s.data(), s.size());
        shmLen += s.size();
        shm[shmLen] = 0;
    }
    hist.push_back(std::move(e));
}
static void inv(int t, const std::string& op, std::vector<int> a = {}) { add({'i', t, op, std::move(a)}); }
static void ret(int t, std::vector<int> r = {}) { add({'r', t, "", std::move(r)}); }

static void publish(int v)
{
    if (!vs::live()) return;
    int l = vs::newLoc();
    payloadLoc[v] = l;
    vs::wr(l);
}
static void consume(int v)
{
    auto it = payloadLoc.find(v);
    if (it != payloadLoc.end()) vs::rd(it->second);
}
static std::vector<int> some(const Item& i)
{
    consume(i.v);
    return {1, i.v};
}
template<class O>
static std::vector<int> opt(const O& o)
{
    if (!o) return {0};
    return some(*o);
}

struct Opt {
    bool data = false, hb = false;
    int timeouts = 1, spurious = 0;
};

static std::string canonical()
{
    std::string s;
    size_t i = 0;
    while (i < hist.size()) {
        size_t j = i;
        while (j < hist.size() && hist[j].k == hist[i].k && (hist[i].k == 'i' || hist[i].k == 'r')) ++j;
        if (j == i) j = i + 1;
        std::vector<Ev> g(hist.begin() + (long)i, hist.begin() + (long)j);
        if (hist[i].k == 'i' || hist[i].k == 'r')
            std::stable_sort(g.begin(), g.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
        for (auto& e : g) {
            if (!s.empty()) s += ",";
            s += evJson(e);
        }
        i = j;
    }
    return s;
}
static std::string hbJson(const vs::Run& r)
{
    std::string s;
    std::set<int> locs;
    for (auto& e : r.hb) {
        if (e.o == 0 && (e.k[0] == 'r' || e.k[0] == 'w')) continue;  // made outside the run
        if (!s.empty()) s += ",";
        s += "{\"k\":\"" + std::string(e.k) + "\",\"t\":" + std::to_string(e.t) + ",\"o\":" + std::to_string(e.o) +
            ",\"x\":" + std::to_string(e.x) + "}";
    }
    return s;
}


// supplied by the harness: run the scenario inside the main fiber
struct Body {
    std::function<void()> main;      // executed as fiber 0
    std::function<void()> abandon;   // after a run that did not end normally
};
static Body makeBody(const Scenario& sc);
static int valuesOf(const std::string& op);  // how many fresh values an operation token takes
static bool special(const Scenario& sc, const std::string& body, FILE* out, vs::Stats& st);

static void runOnce(const Scenario& sc, const Opt& opt_, vs::Strategy& st, vs::Run& run)
{
    vs::R = &run;
    hist.clear();
    shmLen = 0;
    if (shm) shm[0] = 0;
    payloadLoc.clear();
    run.strat = &st;
    run.dataPoints = opt_.data;
    run.recordHB = opt_.hb;
    run.timeoutBudget = opt_.timeouts;
    run.spuriousBudget = opt_.spurious;
    timedCalls.clear();
    run.onTimeout = [](int t, long long at) {
        auto it = timedCalls.find(t);
        if (it == timedCalls.end()) add({'t', t, "", {}});
        else add({'t', t, "", {(int)std::min(((at - it->second.first) / 100000), 2000000000LL), it->second.second}});
    };
    run.onIdle = [] { add({'d', 0, "", {}}); };
    Body b = makeBody(sc);
    run.spawn(b.main);
    run.loop();
    if (run.outcome != vs::OK && b.abandon) b.abandon();
    if (run.outcome == vs::STUCK) hist.push_back({'x', 0, "{\"k\":\"stuck\"}", {}});
    if (run.outcome == vs::LIVELOCK) hist.push_back({'x', 0, "{\"k\":\"Hang\"}", {}});
    if (run.outcome == vs::EXC) hist.push_back({'x', 0, "{\"k\":\"Exc\",\"w\":\"" + run.excWhat + "\"}", {}});
    vs::R = nullptr;
}

static Scenario parse(const std::string& line)
{
    // name;kind;cap;init|t1|t2...
    Scenario s;
    std::stringstream ss(line);
    std::string f;
    std::getline(ss, s.name, ';');
    std::getline(ss, f, ';');
    s.kind = f[0];
    std::getline(ss, f, ';');
    s.cap = std::stoi(f);
    std::getline(ss, f);
    std::vector<std::string> parts;
    std::stringstream ps(f);
    std::string p;
    while (std::getline(ps, p, '|')) parts.push_back(p);
    int val = 1;
    for (auto& x : parts) {
        std::vector<Op> ops;
        std::stringstream os(x);
        std::string o;
        while (os >> o) {
            Op op;
            op.name = o;
            int n = valuesOf(o);
            for (int i = 0; i < n; ++i) op.vals.push_back(val++);
            ops.push_back(op);
        }
        s.threads.push_back(ops);
    }
    return s;
}

static void exploreScenario(const Scenario& sc, FILE* out, const std::map<std::string, long>& P, vs::Stats& st,
                     const std::vector<std::vector<int>>& guides)
{
    std::unordered_set<std::string> seen;
    long maxHB = P.at("maxhb"), nHB = 0;
    bool inDfs = false;
    Opt o;
    o.data = P.at("data");
    o.hb = P.at("hb");
    o.timeouts = (int)P.at("timeouts");
    o.spurious = (int)P.at("spurious");
    auto exec = [&](vs::Strategy& s, std::vector<unsigned char>& taken) {
        vs::Run run;
        setitimer(ITIMER_PROF, nullptr, nullptr);
        struct itimerval tv {};
        tv.it_value.tv_sec = 5;
        setitimer(ITIMER_PROF, &tv, nullptr);
        runOnce(sc, o, s, run);
        ++st.runs;
        st.steps += run.step;
        if (run.outcome == vs::STUCK) ++st.stuck;
        if (run.outcome == vs::LIVELOCK) ++st.livelock;
        if (run.outcome == vs::EXC) ++st.exc;
        std::string key, body;
        if (o.hb) {
            if (nHB >= maxHB || (inDfs && nHB >= maxHB / 2)) return;
            body = hbJson(run);
            key = body;
        } else {
            body = canonical();
            key = body;
        }
        if (seen.insert(key).second) {
            ++st.distinct;
            ++nHB;
            fprintf(out, "{\"sc\":\"%s\",\"kind\":\"%c\",\"n\":%d,\"cap\":%d,\"data\":%d,\"sched\":\"%s\",\"ev\":[%s]}\n", sc.name.c_str(),
                    sc.kind, (int)run.fibers.size(), sc.cap, (int)o.data, vs::choiceStr(taken).c_str(), body.c_str());
            fflush(out);
        }
    };
    inDfs = true;
    vs::dfs(exec, (int)P.at("bound"), P.at("maxruns"), st);
    inDfs = false;
    uint64_t seed = (uint64_t)P.at("seed");
    long nr = P.at("random");
    for (long k = 0; k < nr; ++k) {
        if (k % 2) {
            vs::RandomStrategy r(seed * 1000003 + k, (int)(10 + 10 * (k % 5)));
            exec(r, r.taken);
        } else {
            vs::PctStrategy r(seed * 1000003 + k, (int)(2 + (k % 4)), 60);
            exec(r, r.taken);
        }
    }
    for (auto& g : guides) {
        vs::GuidedStrategy gs;
        gs.ids = g;
        exec(gs, gs.taken);
        ++st.guided;
        if (gs.exact && gs.pos >= g.size()) ++st.exact;
    }
    if (P.at("replay")) return;
}

int main(int argc, char** argv)
{
    // conc_queue scenarios out key=val...
    std::map<std::string, long> P{{"bound", 2}, {"maxruns", 3000}, {"random", 200}, {"seed", 1}, {"data", 0},
                                  {"hb", 0}, {"maxhb", 1000000000}, {"timeouts", 1}, {"spurious", 0}, {"replay", 0}};
    std::string sched, guideFile;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto e = a.find('=');
        if (a.substr(0, e) == "sched") sched = a.substr(e + 1);
        else if (a.substr(0, e) == "guide") guideFile = a.substr(e + 1);
        else P[a.substr(0, e)] = std::stol(a.substr(e + 1));
    }
    std::ifstream in(argv[1]);
    std::map<std::string, std::vector<std::vector<int>>> guides;
    if (!guideFile.empty()) {
        std::ifstream g(guideFile);  // lines: scenario id id id ...
        std::string l;
        while (std::getline(g, l)) {
            std::stringstream ss(l);
            std::string n;
            ss >> n;
            std::vector<int> v;
            int x;
            while (ss >> x) v.push_back(x);
            guides[n].push_back(v);
        }
    }
    shm = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string line;
    vs::Stats* st = (vs::Stats*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (st) vs::Stats;
    long nsc = 0, exhausted = 0;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        Scenario sc;
        std::string seqBody;
        {
            std::stringstream ss(line);
            std::string n, k, c, b;
            std::getline(ss, n, ';');
            std::getline(ss, k, ';');
            std::getline(ss, c, ';');
            std::getline(ss, b);
            if (c == "seq") {
                sc.name = n;
                sc.kind = k[0];
                seqBody = b;
            } else
                sc = parse(line);
        }
        ++nsc;
        st->exhausted = false;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            FILE* out = fopen(argv[2], "a");
            if (P["replay"]) {
                Opt o;
                o.data = P["data"];
                o.timeouts = (int)P["timeouts"];
                o.spurious = (int)P["spurious"];
            }
            auto& g = guides[sc.name];
            if (seqBody.empty() || !special(sc, seqBody, out, *st)) exploreScenario(sc, out, P, *st, g);
            fclose(out);
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (st->exhausted) ++exhausted;
        if (status != 0) {
            FILE* out = fopen(argv[2], "a");
            bool hang = WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF);
            std::string h = shm;
            if (P["hb"]) continue;  // not an access log: decided by the other properties
            fprintf(out, "{\"sc\":\"%s\",\"kind\":\"%c\",\"cap\":%d,\"data\":%ld,\"sched\":\"?\",\"ev\":[%s%s{\"k\":\"%s\",\"w\":\"status %d\"}]}\n",
                    sc.name.c_str(), sc.kind, sc.cap, P["data"], h.c_str(), h.empty() ? "" : ",", hang ? "Hang" : "Crash", status);
            fclose(out);
        }
    }
    printf("{\"scenarios\":%ld,\"exhausted\":%ld,\"runs\":%ld,\"distinct\":%ld,\"stuck\":%ld,\"livelock\":%ld,\"exc\":%ld,\"steps\":%ld,\"guided\":%ld,\"exact\":%ld}\n", nsc,
           exhausted, st->runs, st->distinct, st->stuck, st->livelock, st->exc, st->steps, st->guided, st->exact);
    return 0;
}
