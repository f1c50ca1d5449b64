// Scripts on StableBlockVector (KIND 1) / StableBlockDeque (KIND 2) with tracked elements and a counting allocator.
// script line: name;N;flags;tokens      flags: a addresses, l lifetimes, i iterators, q<k> only the last k calls are observed
#include "seq_common.hpp"
#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/StableBlockVector.hpp"
using namespace gmlc::containers;

static long liveArrays = 0;  // pointer tables, obtained with new[]
void* operator new[](size_t n)
{
    ++liveArrays;
    return malloc(n ? n : 1);
}
void operator delete[](void* p) noexcept
{
    if (p) --liveArrays;
    free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

// ---- element objects: every construction, destruction, assignment is registered
static std::set<const void*> liveObj;
static std::vector<long> errs;
enum { ConstructOverLive = 1, DestroyDead = 2, AssignToDead = 3, ReadDead = 4, WrongSize = 11, UnknownBlock = 12 };
struct Boom {};  // thrown by the constructions that fail
struct T {
    static constexpr int bad = -99;  // copies of such an element fail
    int v;
    void born()
    {
        if (!liveObj.insert(this).second) errs.push_back(ConstructOverLive);
    }
    static void mustLive(const T& t, int code)
    {
        if (!liveObj.count(&t)) errs.push_back(code);
    }
    T(): v(0) { born(); }
    explicit T(int x): v(x) { born(); }
    explicit T(const Boom& b): v(0) { throw b; }
    T(const T& o): v((mustLive(o, ReadDead), o.v))
    {
        if (v == bad) throw Boom();
        born();
    }
    T(T&& o) noexcept: v((mustLive(o, ReadDead), o.v))
    {
        o.v = -1;
        born();
    }
    T& operator=(const T& o)
    {
        mustLive(*this, AssignToDead);
        mustLive(o, ReadDead);
        v = o.v;
        return *this;
    }
    T& operator=(T&& o) noexcept
    {
        mustLive(*this, AssignToDead);
        mustLive(o, ReadDead);
        if (this != &o) {
            v = o.v;
            o.v = -1;
        }
        return *this;
    }
    ~T()
    {
        if (!liveObj.erase(this)) errs.push_back(DestroyDead);
        v = -2;
    }
};
static std::map<const char*, size_t> blocks;  // blocks obtained from the allocator
template<class X> struct Alloc {
    using value_type = X;
    X* allocate(size_t n)
    {
        char* p = (char*)malloc(n * sizeof(X));
        memset(p, 0x7B, n * sizeof(X));
        blocks[p] = n;
        return (X*)p;
    }
    void deallocate(X* p, size_t n)
    {
        auto it = blocks.find((const char*)p);
        if (it == blocks.end()) {
            errs.push_back(UnknownBlock);
            return;
        }
        if (it->second != n) errs.push_back(WrongSize);
        // whatever still lives in there is reported by the counts, then forgotten
        blocks.erase(it);
        free((void*)p);
    }
};
static bool inBlock(const void* q)
{
    auto it = blocks.upper_bound((const char*)q);
    if (it == blocks.begin()) return false;
    --it;
    return (const char*)q >= it->first && (const char*)q < it->first + it->second * sizeof(T);
}

static std::unordered_map<const void*, long> addrNo;
static long addr(const void* p) { return addrNo.emplace(p, (long)addrNo.size() + 1).first->second; }
static long val(const T& t) { return liveObj.count(&t) ? (long)t.v : -7; }
static long val(const int& t) { return t; }  // plain elements, default allocator: only contents and places are observed

static std::string flagsF;
static std::string header(const std::vector<std::string>& f)
{
    return ",\"kind\":\"" + std::string(KIND == 1 ? "vector" : "deque") + "\",\"N\":" + std::to_string(std::stoi(f[1]) % 100);
}

template<class It> static void collect(It b, It e, size_t n, std::set<std::vector<long>>& out)
{
    {
        std::vector<long> s;
        It it = b;
        while (it != e && s.size() <= n + 4) {
            s.push_back(val(*it));
            ++it;
        }
        out.insert(s);
    }
    {
        std::vector<long> s;
        for (It it = b; !(it == e) && s.size() <= n + 4;) {
            It old = it++;
            s.push_back(val(*old.operator->()));
        }
        out.insert(s);
    }
    {
        std::vector<long> s;
        It it = e;
        for (size_t k = 0; k < n; ++k) {
            if (k % 2)
                --it;
            else
                it--;
            s.insert(s.begin(), val(*it));
        }
        if (n && it != b) s.insert(s.begin(), -5);
        out.insert(s);
    }
}
// positions reached from every position by every operator; 0 = end()
template<class It> static void navigate(It b, It e, size_t n, std::set<std::vector<long>>& out)
{
    std::vector<It> ref;
    {
        It it = b;
        for (size_t k = 0; k < n; ++k) {
            ref.push_back(it);
            ++it;
        }
        ref.push_back(e);
    }
    for (size_t i = 0; i <= n; ++i) {
        if (n > 12 && i % 5 != 0 && i + 2 < n && i > 2) continue;
        for (int how = 0; how < 4; ++how) {
            std::vector<long> s;
            for (size_t j = 0; j <= n; ++j) {
                ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
                It it = ref[i];
                if (how == 0)
                    it += d;
                else if (how == 1)
                    it -= -d;
                else if (how == 2)
                    it = it + d;
                else
                    it = it - (-d);
                bool same = it == ref[j] && !(it != ref[j]);
                s.push_back(!same ? -5 : j == n ? 0 : val(*it));
            }
            out.insert(s);
        }
    }
}
template<class I1, class I2> static long eqErrors(I1 b1, I2 b2, size_t n, I1 e1, I2 e2)
{
    long bad = 0;
    std::vector<I1> r1;
    std::vector<I2> r2;
    for (size_t k = 0; k < n; ++k) {
        r1.push_back(b1);
        ++b1;
        r2.push_back(b2);
        ++b2;
    }
    r1.push_back(e1);
    r2.push_back(e2);
    for (size_t i = 0; i <= n; ++i)
        for (size_t j = 0; j <= n; ++j) {
            if ((r1[i] == r2[j]) != (i == j)) ++bad;
            if ((r1[i] != r2[j]) != (i != j)) ++bad;
        }
    return bad;
}
// the standard iterator operations and member access agree with the positions
template<class It> static long stdErrors(It b, It e, size_t n)
{
    long bad = 0;
    using D = typename std::iterator_traits<It>::difference_type;
    if constexpr (!std::is_integral<D>::value || !std::is_signed<D>::value || sizeof(D) < sizeof(std::ptrdiff_t))
        return 1000;
    else {
        if (std::distance(b, e) != (D)n) ++bad;
        It it = b;
        for (size_t k = 0; k < n; ++k, ++it) {
            if (std::distance(b, it) != (D)k || std::next(b, (D)k) != it || std::prev(e, (D)(n - k)) != it) ++bad;
            const It cit = it;
            if (it.operator->() != &*it || cit.operator->() != &*it || &*cit != &*it || !static_cast<bool>(it)) ++bad;
            if (n > 12) {
                size_t skip = std::min<size_t>(n - k - 1, n / 5);
                k += skip;
                it = std::next(it, (D)skip);
            }
        }
        return bad;
    }
}
static std::string jl(const std::set<std::vector<long>>& x)
{
    std::string s = "[";
    for (auto& v : x) s += (s.size() > 1 ? "," : "") + js(v);
    return s + "]";
}

template<class C> static std::string observe(C& c, size_t o)
{
    const C& k = c;
    size_t n = c.size();
    std::vector<long> byIdx, byAt, byIdxC, byAtC, ad;
    size_t lim = std::min<size_t>(n, 5000);
    for (size_t i = 0; i < lim; ++i) {
        byIdx.push_back(val(c[i]));
        byIdxC.push_back(val(k[i]));
        byAt.push_back(val(c.at(i)));
        byAtC.push_back(val(k.at(i)));
        ad.push_back(addr(&c[i]));
    }
    std::set<std::vector<long>> views{byIdx, byIdxC, byAt, byAtC};
    std::vector<long> ends;
    if (n) ends = {val(c.front()), val(k.front()), val(c.back()), val(k.back())};
    long thr = 0;
    for (size_t z : {n, n + 1, n + 2 * (size_t)C::blockSize, (size_t)-1, (size_t)1 << 32}) {
        try {
            (void)c.at(z);
        } catch (std::out_of_range&) {
            ++thr;
        }
        try {
            (void)k.at(z);
        } catch (std::out_of_range&) {
            ++thr;
        }
    }
    std::string s = "{\"o\":" + std::to_string(o) + ",\"n\":" + std::to_string(n) + ",\"e\":" + std::to_string((c.empty() ? 1 : 0) + (k.empty() ? 1 : 0)) +
        ",\"c\":" + jl(views) + ",\"fb\":" + js(ends) + ",\"thr\":" + std::to_string(thr);
    if (flagsF.find('a') != std::string::npos) s += ",\"a\":" + js(ad);
    if (flagsF.find('i') != std::string::npos) {
        std::set<std::vector<long>> walks, nav;
        collect(c.begin(), c.end(), n, walks);
        collect(k.begin(), k.end(), n, walks);
        collect(k.cbegin(), k.cend(), n, walks);
        navigate(c.begin(), c.end(), n, nav);
        navigate(k.begin(), k.end(), n, nav);
        long bad = 0;
        if (n <= 40) {
            bad += eqErrors(c.begin(), c.begin(), n, c.end(), c.end());
            bad += eqErrors(k.begin(), c.begin(), n, k.end(), c.end());
            bad += eqErrors(c.begin(), k.begin(), n, c.end(), k.end());
            bad += eqErrors(k.cbegin(), k.begin(), n, k.cend(), k.end());
        }
        bad += stdErrors(c.begin(), c.end(), n) + stdErrors(k.begin(), k.end(), n) + stdErrors(k.cbegin(), k.cend(), n);
        int be = (c.begin() == c.end()) + (k.begin() == k.end()) + (k.begin() == c.end()) + (c.begin() == k.end());
        s += ",\"w\":" + jl(walks) + ",\"nav\":" + jl(nav) + ",\"eq\":" + std::to_string(bad) + ",\"be\":" + std::to_string(be);
    }
    return s + "}";
}

template<class C, class E> static void play(const std::vector<std::string>& toks)
{
    long tables0 = liveArrays;
    int nextId = 0;
    {
        std::array<std::unique_ptr<C>, 3> w;
        std::array<std::string, 3> lastObs;
        for (auto& x : w) x = std::make_unique<C>();
        auto report = [&]() {
            std::string s = ",\"obs\":[";
            bool first = true;
            for (size_t o = 0; o < 3; ++o) {
                std::string x = observe(*w[o], o);
                if (x == lastObs[o]) continue;  // not repeated: same as before
                lastObs[o] = x;
                s += (first ? "" : ",") + x;
                first = false;
            }
            s += "]";
            if (flagsF.find('l') != std::string::npos) {
                long in = 0;
                if constexpr (!std::is_same_v<E, T>) {
                    s += ",\"l\":[],\"x\":" + js(errs);  // plain elements have no life to count, their blocks have
                    return s;
                }
                for (auto p : liveObj) in += inBlock(p) ? 1 : 0;
                s += ",\"l\":" + js({in, (long)liveObj.size() - in}) + ",\"x\":" + js(errs);
            } else
                s += ",\"x\":" + js(errs);
            return s;
        };
        size_t quiet = 0, done = 0;
        if (auto q = flagsF.find('q'); q != std::string::npos) {
            size_t last = (size_t)std::stoi(flagsF.substr(q + 1));
            quiet = toks.size() > last ? toks.size() - last : 0;
        }
        ev("{\"k\":\"obs\"" + report() + "}");
        for (auto& tok : toks) {
            ++done;
            if (quiet && done == quiet + 1) {
                for (auto& l : lastObs) l.clear();
                ev("{\"k\":\"obs\"" + report() + "}");
            }
            size_t i = (size_t)(tok[0] - '0');
            std::string t = tok.substr(2);
            char op = t[0];
            int a = t.size() > 1 ? std::stoi(t.substr(1)) : 1;
            C& c = *w[i];
            std::vector<long> args;
            flushPartial("{\"k\":\"try\",\"o\":" + std::to_string(i) + ",\"t\":\"" + t + "\"}");
            auto fresh = [&]() {
                args.push_back(++nextId);
                return nextId;
            };
            std::string thrown;
            try {
                switch (op) {
                    case 'b':
                        for (int k = 0; k < a; ++k) {
                            E x(fresh());
                            c.push_back(x);
                        }
                        break;
                    case 'm':
                        for (int k = 0; k < a; ++k) {
                            E x(fresh());
                            c.push_back(std::move(x));
                        }
                        break;
                    case 'e':
                        for (int k = 0; k < a; ++k) c.emplace_back(fresh());
                        break;
                    case 'B':
                        for (int k = 0; k < a; ++k) c.pop_back();
                        args = {a};
                        break;
#if KIND == 2
                    case 'f':
                        for (int k = 0; k < a; ++k) {
                            E x(fresh());
                            c.push_front(x);
                        }
                        break;
                    case 'g':
                        for (int k = 0; k < a; ++k) {
                            E x(fresh());
                            c.push_front(std::move(x));
                        }
                        break;
                    case 'h':
                        for (int k = 0; k < a; ++k) c.emplace_front(fresh());
                        break;
                    case 'd':  // drift towards the back
                        for (int k = 0; k < a; ++k) {
                            c.emplace_back(fresh());
                            c.pop_front();
                        }
                        break;
                    case 'D':  // drift towards the front
                        for (int k = 0; k < a; ++k) {
                            c.emplace_front(fresh());
                            c.pop_back();
                        }
                        break;
                    case 'F':
                        for (int k = 0; k < a; ++k) c.pop_front();
                        args = {a};
                        break;
#endif
                    case 'a':
                    case 'v': {
                        std::vector<E> src;
                        src.reserve((size_t)a);
                        for (int k = 0; k < a; ++k) src.emplace_back(fresh());
                        if (op == 'a')
                            c.assign(src.begin(), src.end());
                        else
                            c.move_assign(src.begin(), src.end());
                        break;
                    }
                    case 'P': {
                        const C& s = *w[(size_t)a];
                        args = {a};
                        c.assign(s.begin(), s.end());
                        break;
                    }
                    case 'x': {  // an insertion whose element cannot be constructed
                        if constexpr (std::is_same_v<E, T>) {
                            T b(T::bad);
                            try {
                                if (a == 0) c.emplace_back(Boom());
                                if (a == 1) c.push_back(b);
#if KIND == 2
                                if (a == 2) c.emplace_front(Boom());
                                if (a == 3) c.push_front(b);
#endif
                                args = {1};
                            } catch (Boom&) {
                                args = {0};
                            }
                        } else
                            args = {0};
                        break;
                    }
                    case 'y':  // insertion of an element of the container itself
                        if (c.size() == 0) break;
                        args = {a % (int)c.size()};
                        c.push_back(c[(size_t)args[0]]);
                        break;
#if KIND == 2
                    case 'z':
                        if (c.size() == 0) break;
                        args = {a % (int)c.size()};
                        c.push_front(c[(size_t)args[0]]);
                        break;
#endif
                    case 'c': c.clear(); break;
                    case 's': c.shrink_to_fit(); break;
                    case 'N': w[i] = std::make_unique<C>(); break;
                    case 'C': {
                        int id = fresh();
                        args = {id, a};
                        w[i].reset();
                        w[i] = std::make_unique<C>((size_t)a, E(id));
                        break;
                    }
                    case 'Z':
                        args = {0, a};
                        w[i].reset();
                        w[i] = std::make_unique<C>((size_t)a);
                        break;
                    case 'K':
                        args = {a};
                        w[(size_t)a].reset();
                        w[(size_t)a] = std::make_unique<C>(c);
                        break;
                    case 'Q':
                        args = {a};
                        *w[(size_t)a] = c;
                        break;
                    case 'M':
                        args = {a};
                        w[(size_t)a].reset();
                        w[(size_t)a] = std::make_unique<C>(std::move(c));
                        break;
                    case 'A':
                        args = {a};
                        *w[(size_t)a] = std::move(c);
                        break;
                    default: fprintf(stderr, "bad token %s\n", tok.c_str()); _exit(3);
                }
            } catch (std::exception&) {
                thrown = ",\"thrown\":1";
            }
            ev("{\"k\":\"op\",\"o\":" + std::to_string(i) + ",\"op\":\"" + std::string(1, op) + "\",\"a\":" + js(args) + thrown +
               (done <= quiet ? ",\"quiet\":1" : report()) + "}");
        }
        flushPartial("{\"k\":\"try\",\"o\":0,\"t\":\"destroy\"}");
    }
    ev("{\"k\":\"end\",\"l\":" + js({(long)liveObj.size(), (long)blocks.size(), liveArrays - tables0}) + ",\"x\":" + js(errs) + "}");
    for (auto& b : blocks) free((void*)b.first);
    blocks.clear();
    liveObj.clear();
}

#if KIND == 1
template<unsigned N> using Cn = StableBlockVector<T, N, Alloc<T>>;
template<unsigned N> using Pn = StableBlockVector<int, N>;
template<unsigned N> using Qn = StableBlockVector<int, N, Alloc<int>>;
#else
template<unsigned N> using Cn = StableBlockDeque<T, N, Alloc<T>>;
template<unsigned N> using Pn = StableBlockDeque<int, N>;
template<unsigned N> using Qn = StableBlockDeque<int, N, Alloc<int>>;
#endif
static void runScript(const std::vector<std::string>& f, const std::vector<std::string>& toks)
{
    flagsF = f[2];
    errs.clear();
    addrNo.clear();
    switch (std::stoi(f[1])) {
        case 0: play<Cn<0>, T>(toks); break;
        case 1: play<Cn<1>, T>(toks); break;
        case 2: play<Cn<2>, T>(toks); break;
        case 3: play<Cn<3>, T>(toks); break;
        case 8: play<Cn<8>, T>(toks); break;
        case 100: play<Pn<0>, int>(toks); break;
        case 102: play<Pn<2>, int>(toks); break;
        case 105: play<Pn<5>, int>(toks); break;
        case 200: play<Qn<0>, int>(toks); break;
        case 202: play<Qn<2>, int>(toks); break;
        case 205: play<Qn<5>, int>(toks); break;
        default: play<Cn<5>, T>(toks); break;
    }
}
