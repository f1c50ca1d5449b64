// Exploration of schedules: preemption-bounded DFS, random, PCT and guided runs.
#pragma once
// (included after sched.hpp, before or after the macros; uses only std:: names not redirected)
namespace vs {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x): s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s;
    }
    size_t below(size_t n) { return n ? (size_t)(next() >> 11) % n : 0; }
};

struct ReplayStrategy: Strategy {  // prefix then default; records what was available
    std::vector<unsigned char> prefix;
    std::vector<unsigned char> taken;
    std::vector<std::array<unsigned char, 2>> info;  // #alts
    std::vector<std::vector<unsigned char>> costs;
    bool record = true;
    size_t choose(const std::vector<Alt>& alts, Fiber*, int) override
    {
        size_t k = taken.size();
        size_t c = 0;
        if (k < prefix.size()) c = prefix[k] < alts.size() ? prefix[k] : 0;
        taken.push_back((unsigned char)c);
        if (record) {
            std::vector<unsigned char> cs;
            for (auto& a : alts) cs.push_back((unsigned char)a.cost);
            costs.push_back(std::move(cs));
        }
        return c;
    }
};
struct RandomStrategy: Strategy {
    Rng rng;
    int switchPct;
    std::vector<unsigned char> taken;
    RandomStrategy(uint64_t seed, int pct): rng(seed), switchPct(pct) {}
    size_t choose(const std::vector<Alt>& alts, Fiber*, int) override
    {
        size_t c = 0;
        if (alts.size() > 1) {
            bool cont = alts[0].cost == 0 && alts[0].type == 'r' && alts[1].cost == 1;
            if (cont) {
                if ((int)rng.below(100) < switchPct) c = 1 + rng.below(alts.size() - 1);
            } else
                c = rng.below(alts.size());
        }
        taken.push_back((unsigned char)c);
        return c;
    }
};
struct PctStrategy: Strategy {
    Rng rng;
    std::map<int, long> prio;
    std::set<int> change;
    std::vector<unsigned char> taken;
    long low = 0;
    PctStrategy(uint64_t seed, int depth, int len): rng(seed)
    {
        for (int i = 0; i < depth; ++i) change.insert((int)rng.below(len) + 1);
    }
    long pr(int id)
    {
        auto it = prio.find(id);
        if (it != prio.end()) return it->second;
        return prio[id] = (long)(rng.next() % 1000000) + 1;
    }
    size_t choose(const std::vector<Alt>& alts, Fiber* cur, int) override
    {
        int n = (int)taken.size();
        if (change.count(n) && cur) prio[cur->id] = --low;
        size_t best = 0;
        long bp = LONG_MIN;
        for (size_t i = 0; i < alts.size(); ++i) {
            if (alts[i].type == 't' || alts[i].type == 's') {
                if (alts[0].type == 'r' && rng.below(12) != 0) continue;
            }
            long p = pr(alts[i].f->id);
            if (p > bp) {
                bp = p;
                best = i;
            }
        }
        taken.push_back((unsigned char)best);
        return best;
    }
};
struct GuidedStrategy: Strategy {  // follow a sequence of thread ids where possible; 100 + id: spurious wake-up
    std::vector<int> ids;
    size_t pos = 0;
    bool exact = true;  // every step of the guide could be taken
    std::vector<unsigned char> taken;
    size_t choose(const std::vector<Alt>& alts, Fiber*, int) override
    {
        size_t c = 0;
        if (pos < ids.size()) {
            bool found = false;
            for (size_t i = 0; i < alts.size() && !found; ++i)
                if (alts[i].f->id == ids[pos] % 100 && (alts[i].type == 's') == (ids[pos] >= 100)) {
                    c = i;
                    found = true;
                }
            if (!found) exact = false;
            ++pos;
        }
        taken.push_back((unsigned char)c);
        return c;
    }
};

inline std::string choiceStr(const std::vector<unsigned char>& t)
{
    std::string s;
    size_t n = t.size();
    while (n > 0 && t[n - 1] == 0) --n;
    for (size_t i = 0; i < n; ++i) s += (char)('0' + std::min<int>(t[i], 70));
    return s;
}
inline std::vector<unsigned char> choiceVec(const std::string& s)
{
    std::vector<unsigned char> v;
    for (char c : s) v.push_back((unsigned char)(c - '0'));
    return v;
}

struct Stats {
    long runs = 0, distinct = 0, stuck = 0, livelock = 0, exc = 0, steps = 0, guided = 0, exact = 0;
    bool exhausted = false;
};

// exec(strategy): performs one complete run and reports it
template<class Exec>
void dfs(Exec exec, int bound, long maxRuns, Stats& st)
{
    // prefixes ordered by cost (fewest preemptions first)
    struct Node {
        std::vector<unsigned char> p;
        int cost;
    };
    std::vector<std::deque<Node>> buckets(bound + 1);
    buckets[0].push_back({{}, 0});
    long n = 0;
    while (n < maxRuns) {
        int b = 0;
        while (b <= bound && buckets[b].empty()) ++b;
        if (b > bound) {
            st.exhausted = true;
            return;
        }
        Node nd = std::move(buckets[b].back());
        buckets[b].pop_back();
        ReplayStrategy rs;
        rs.prefix = nd.p;
        exec(rs, rs.taken);
        ++n;
        // expand
        for (size_t k = rs.costs.size(); k-- > nd.p.size();) {
            auto& cs = rs.costs[k];
            for (size_t a = 1; a < cs.size(); ++a) {
                int c = nd.cost + cs[a];
                if (c > bound) continue;
                Node x;
                x.p.assign(rs.taken.begin(), rs.taken.begin() + (long)k);
                x.p.push_back((unsigned char)a);
                x.cost = c;
                buckets[c].push_back(std::move(x));
            }
        }
    }
}
}  // namespace vs
