// Scripts on the mapped containers.  script line: name;kind;K;tokens
// kinds 1..9 single key (KINDS & 1), 11..17 two keys (KINDS & 2).  Terms are numbers 0..K-1 (of each kind), -1 is "no term".
#include "seq_common.hpp"
#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StringMappedVector.hpp"
using namespace gmlc::containers;

static std::unordered_map<const void*, long> liveObj;  // address -> serial number
static long serials = 0;
static std::vector<long> errs;
enum { ConstructOverLive = 1, DestroyDead = 2, AssignToDead = 3, ReadDead = 4, NotTheGiven = 5 };
struct Boom {};  // thrown by the constructions that fail
struct T {
    int v;
    void born()
    {
        if (!liveObj.emplace(this, ++serials).second) errs.push_back(ConstructOverLive);
    }
    static void mustLive(const T& t, int code)
    {
        if (!liveObj.count(&t)) errs.push_back(code);
    }
    T(): v(0) { born(); }
    explicit T(int x): v(x) { born(); }
    T(int x, int y): v(x + y) { born(); }
    explicit T(const Boom& b): v(0) { throw b; }
    T(const T& o): v((mustLive(o, ReadDead), o.v)) { born(); }
    T(T&& o) noexcept: v((mustLive(o, ReadDead), o.v))
    {
        o.v = -1;
        born();
    }
    T& operator=(const T& o)
    {
        mustLive(*this, AssignToDead);
        mustLive(o, ReadDead);
        v = o.v;
        return *this;
    }
    T& operator=(T&& o) noexcept
    {
        mustLive(*this, AssignToDead);
        mustLive(o, ReadDead);
        if (this != &o) {
            v = o.v;
            o.v = -1;
        }
        return *this;
    }
    ~T()
    {
        if (!liveObj.erase(this)) errs.push_back(DestroyDead);
        v = -2;
    }
};
static long val(const T& t) { return liveObj.count(&t) ? (long)t.v : -7; }
static long serial(const T* t)
{
    auto f = liveObj.find(t);
    return f == liveObj.end() ? -7 : f->second;
}

// ---- keys
using P = std::pair<int, int>;
template<class K> struct Key;
template<> struct Key<std::string> {
    static std::string make(int t)
    {
        static const char* small[] = {"", "a", "ab", "a_rather_long_name_that_needs_the_heap_1", "a_rather_long_name_that_needs_the_heap_2"};
        if (t < 5) return small[t];
        return (t % 2 ? "k" : "another_long_name_for_a_key_which_is_on_the_heap_") + std::to_string(t);
    }
};
template<> struct Key<int> {
    static int make(int t)
    {
        static const int small[] = {0, 1, -1, 7, 1000000};
        return t < 5 ? small[t] : 10 + t;
    }
};
template<> struct Key<P> {
    static P make(int t)
    {
        static const P small[] = {{0, 0}, {0, 1}, {1, 0}, {2, 2}, {-1, 5}};
        return t < 5 ? small[t] : P{t, t % 3};
    }
};
template<class K> static void spoil(K& k) { k = Key<K>::make(901); }
static void spoil(std::string& k)
{
    for (auto& c : k) c = '#';
}

struct IC {
    virtual ~IC() = default;
    virtual long insert(int t1, int t2, int v, int form) = 0;
    virtual long assign(int t1, int t2, int v, int form) = 0;
    virtual long addIdx(int k, int t, size_t i) = 0;
    virtual long addTerm(int k, int t, int k2, int t2) = 0;
    virtual void removeIndex(size_t i) = 0;
    virtual void remove(int k, int t) = 0;
    virtual void clear() = 0;
    virtual int middle() = 0;  // value of the element in the middle, -1 if empty
    virtual void write(size_t i, int v) = 0;
    virtual bool writeFound(int k, int t, int v) = 0;
    virtual void visit(int how, std::vector<long>& seen) = 0;
    virtual std::string observe(int K) = 0;
    virtual IC* copy() = 0;
    virtual IC* move() = 0;
    virtual void copyFrom(IC& o) = 0;
    virtual void moveFrom(IC& o) = 0;
};

template<int KIND> struct Cfg;
#define CFG(N, DUAL, PTR, STR, COPY, ST, K1T, K2T, ...)                                                          \
    template<> struct Cfg<N> {                                                                                   \
        using C = __VA_ARGS__;                                                                                   \
        using K1 = K1T;                                                                                          \
        using K2 = K2T;                                                                                          \
        static constexpr bool dual = DUAL, ptr = PTR, str = STR, copyable = COPY;                                \
        static constexpr const char* st = ST;                                                                    \
    };
using S = std::string;
CFG(1, false, false, false, true, "vec", S, int, MappedVector<T, S, reference_stability::unstable>)
CFG(2, false, false, false, true, "stable", S, int, MappedVector<T, S, reference_stability::stable, 1>)
CFG(3, false, false, false, true, "stable", int, int, MappedVector<T, int, reference_stability::stable, 2>)
CFG(4, false, false, false, true, "vec", P, int, MappedVector<T, P>)
CFG(5, false, false, true, true, "stable", S, int, StringMappedVector<T, reference_stability::stable, 1>)
CFG(6, false, true, false, false, "ptr", S, int, MappedPointerVector<T, S>)
CFG(7, false, true, false, false, "ptr", P, int, MappedPointerVector<T, P>)
CFG(8, false, false, false, true, "vec", int, int, MappedVector<T, int>)
#ifndef NO_USTR
CFG(9, false, false, true, true, "vec", S, int, StringMappedVector<T, reference_stability::unstable>)
#else  // cannot be instantiated
CFG(9, false, false, true, true, "vec", S, int, StringMappedVector<T>)
#endif
CFG(11, true, false, false, true, "vec", S, int, DualMappedVector<T, S, int, reference_stability::unstable>)
CFG(12, true, false, false, true, "stable", S, P, DualMappedVector<T, S, P, reference_stability::stable, 1>)
CFG(13, true, false, true, true, "stable", S, int, DualStringMappedVector<T, int, reference_stability::stable, 1>)
CFG(14, true, true, false, false, "ptr", S, int, DualMappedPointerVector<T, S, int>)
CFG(15, true, true, false, false, "ptr", int, P, DualMappedPointerVector<T, int, P>)
CFG(16, true, false, true, true, "stable", S, P, DualStringMappedVector<T, P, reference_stability::stable, 2>)
#ifndef NO_USTR
CFG(17, true, false, true, true, "vec", S, int, DualStringMappedVector<T, int, reference_stability::unstable>)
#else
CFG(17, true, false, true, true, "vec", S, int, DualStringMappedVector<T, int>)
#endif

template<int KIND> struct Ad: IC {
    using F = Cfg<KIND>;
    using C = typename F::C;
    using K1 = typename F::K1;
    using K2 = typename F::K2;
    C c;
    Ad() = default;
    explicit Ad(C&& x): c(std::move(x)) {}
    template<class X> explicit Ad(const X& x, int): c(x) {}

    static long opt(std::optional<size_t> r) { return r ? (long)*r : -1; }
    static long opt(size_t r) { return (long)r; }
    // every way to hand over the value
    template<class Fn> long value(int v, int form, Fn&& f)
    {
        switch (form) {
            case 5: return opt(f(v - 3, 3));
            case 6: return opt(f());
            case 7: {  // a copy of an element of the container itself
                const C& k = c;
                return opt(f(*elem(k, c.size() / 2)));
            }
            case 1: {
                T x(v);
                const T& y = x;
                return opt(f(y));
            }
            case 2: {
                T x(v);
                long r = opt(f(std::move(x)));
                return r == -1 && x.v != v ? -5 : r;  // refused: the value stays with the caller
            }
            case 4:  // the element cannot be constructed
                try {
                    return opt(f(Boom()));
                } catch (Boom&) {
                    return -3;
                }
            default: return opt(f(v));
        }
    }
    template<bool ASSIGN, class... A> auto call(A&&... a)
    {
        if constexpr (ASSIGN)
            return c.insert_or_assign(std::forward<A>(a)...);
        else
            return c.insert(std::forward<A>(a)...);
    }
    template<class Fn> long pointer(int v, Fn&& f)
    {
        auto p = std::make_unique<T>(v);
        T* raw = p.get();
        long r = opt(f(std::move(p)));
        if constexpr (F::ptr)
            if (r >= 0 && (size_t(r) >= c.size() || c[size_t(r)] != raw)) errs.push_back(NotTheGiven);
        return r == -1 && (p.get() != raw || raw->v != v) ? -5 : r;
    }
    template<bool ASSIGN> long put(int t1, int t2, int v, int form)
    {
        K1 k1 = Key<K1>::make(t1 < 0 ? 0 : t1);
        K2 k2 = Key<K2>::make(t2 < 0 ? 0 : t2);
        long r = -77;
        if constexpr (!F::dual) {
            if (t1 >= 0) {
                if constexpr (F::ptr) {
                    if (form == 3) {
                        r = pointer(v, [&](auto&& p) { return call<ASSIGN>(k1, std::forward<decltype(p)>(p)); });
                    }
                }
                if (r == -77) r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(k1, std::forward<decltype(x)>(x)...); });
            } else if constexpr (!ASSIGN) {
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(no_search, std::forward<decltype(x)>(x)...); });
            } else
                _exit(3);
        } else if constexpr (F::ptr) {
            if (t1 >= 0 && t2 >= 0) {
                if (form == 3)
                    r = pointer(v, [&](auto&& p) { return call<ASSIGN>(k1, k2, std::forward<decltype(p)>(p)); });
                else
                    r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(k1, k2, std::forward<decltype(x)>(x)...); });
            } else if (t1 >= 0)
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(k1, nullptr, std::forward<decltype(x)>(x)...); });
            else if (t2 >= 0) {
                if constexpr (ASSIGN)
                    r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(nullptr, k2, std::forward<decltype(x)>(x)...); });
                else
                    r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(no_search, k2, std::forward<decltype(x)>(x)...); });
            } else
                _exit(3);
        } else {
            if (t1 >= 0 && t2 >= 0)
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(k1, k2, std::forward<decltype(x)>(x)...); });
            else if (t1 >= 0)
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(k1, no_search, std::forward<decltype(x)>(x)...); });
            else if (t2 >= 0)
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(no_search, k2, std::forward<decltype(x)>(x)...); });
            else if constexpr (!ASSIGN)
                r = value(v, form, [&](auto&&... x) { return call<ASSIGN>(no_search, no_search, std::forward<decltype(x)>(x)...); });
            else
                _exit(3);
        }
        spoil(k1);
        spoil(k2);
        return r;
    }
    long insert(int t1, int t2, int v, int form) override { return put<false>(t1, t2, v, form); }
    long assign(int t1, int t2, int v, int form) override { return put<true>(t1, t2, v, form); }

    template<class Fn> static auto withKey(int k, int t, Fn&& f)
    {
        if constexpr (F::dual)
            if (k == 2) {
                K2 x = Key<K2>::make(t);
                auto r = f(x);
                spoil(x);
                return r;
            }
        K1 x = Key<K1>::make(t);
        auto r = f(x);
        spoil(x);
        return r;
    }
    long addIdx(int k, int t, size_t i) override
    {
        if constexpr ((!F::dual && F::str) || (F::dual && F::ptr)) {
            _exit(3);
        } else
            return withKey(k, t, [&](auto& x) { return (long)c.addSearchTermForIndex(x, i); });
    }
    long addTerm(int k, int t, int k2, int t2) override
    {
        if constexpr (!F::dual || F::ptr) {
            _exit(3);
        } else
            return withKey(k, t, [&](auto& x) { return withKey(k2, t2, [&](auto& y) { return (long)c.addSearchTerm(x, y); }); });
    }
    void removeIndex(size_t i) override { c.removeIndex(i); }
    void remove(int k, int t) override
    {
        withKey(k, t, [&](auto& x) {
            c.remove(x);
            return 0;
        });
    }
    void clear() override { c.clear(); }
    int middle() override
    {
        const C& k = c;
        return c.size() == 0 ? -1 : (int)val(*elem(k, c.size() / 2));
    }
    void write(size_t i, int v) override
    {
        if (i >= c.size()) return;
        if constexpr (F::ptr)
            c[i]->v = v;
        else
            c[i].v = v;
    }
    bool writeFound(int k, int t, int v) override
    {
        return withKey(k, t, [&](auto& x) {
            auto f = c.find(x);
            if constexpr (F::ptr) {
                if (!f) return false;
            } else if (f == const_cast<const C&>(c).end())
                return false;
            if constexpr (std::is_const_v<std::remove_reference_t<decltype(*f)>>)
                const_cast<T&>(*f).v = v;
            else
                (*f).v = v;
            return true;
        });
    }
    void visit(int how, std::vector<long>& seen) override
    {
        const C& k = c;
        if constexpr (F::ptr) {
            if (how == 0)
                c.apply([&](T* x) { seen.push_back(val(*x)); });
            else if (how == 1)
                k.apply([&](const T* x) { seen.push_back(val(*x)); });
            else if (how == 2)
                c.apply([&](T* x) {
                    seen.push_back(val(*x));
                    x->v += 1000;
                });
            else
                _exit(3);
        } else {
            if (how == 0)
                c.apply([&](const T& x) { seen.push_back(val(x)); });
            else if (how == 1) {
                if constexpr (!F::dual)
                    k.apply([&](const T& x) { seen.push_back(val(x)); });
                else
                    c.apply([&](const T& x) { seen.push_back(val(x)); });
            } else if (how == 2)
                c.modify([&](T& x) {
                    seen.push_back(val(x));
                    x.v += 1000;
                });
            else
                c.transform([&](const T& x) {
                    seen.push_back(val(x));
                    return T(x.v + 2000);
                });
        }
    }
    const T* elem(const C& k, size_t i) const
    {
        if constexpr (F::ptr)
            return k[i];
        else
            return &k[i];
    }
    template<class K> long found(K& key, size_t n)
    {
        const C& k = c;
        const T *p = nullptr, *q = nullptr;
        if constexpr (F::ptr) {
            p = c.find(key);
            q = k.find(key);
        } else {
            auto a = c.find(key);
            auto b = k.find(key);
            if (a != k.end()) p = &*a;
            if (b != k.end()) q = &*b;
        }
        if (p != q) return -8;
        if (p == nullptr) return -1;
        for (size_t i = 0; i < n; ++i)
            if (elem(k, i) == p) return (long)i;
        return -9;
    }
    std::string observe(int K) override
    {
        const C& k = c;
        size_t n = c.size();
        std::set<std::vector<long>> views;
        std::vector<long> a, b, d, e, w, ids, f1, f2, bk;
        for (size_t i = 0; i < n && i < 5000; ++i) {
            ids.push_back(serial(elem(k, i)));
            a.push_back(val(*elem(k, i)));
            if constexpr (F::ptr) {
                b.push_back(val(*c[i]));
            } else {
                b.push_back(val(c[i]));
                d.push_back(val(c.at(i)));
                e.push_back(val(k.at(i)));
            }
#ifdef NO_AT
            if constexpr (F::ptr && F::dual) d.push_back(-6);  // at() does not compile
#else
            if constexpr (F::ptr && F::dual) d.push_back(val(*c.at(i)));
#endif
        }
        for (auto it = k.begin(); it != k.end() && w.size() <= n + 4; ++it) {
            if constexpr (F::ptr)
                w.push_back(val(**it));
            else
                w.push_back(val(*it));
        }
        views = {a, b, w};
        for (size_t z : {n, n + 1, n + 64, (size_t)1 << 33, (size_t)-1}) {  // not an index
            bool bad = false;
            if constexpr (F::ptr) bad = c[z] != nullptr || k[z] != nullptr;
            auto throws = [](auto&& f) {
                try {
                    f();
                } catch (std::out_of_range&) {
                    return true;
                }
                return false;
            };
            if constexpr (!F::ptr) bad = !throws([&] { (void)c.at(z); }) || !throws([&] { (void)k.at(z); });
#ifndef NO_AT
            if constexpr (F::ptr && F::dual) bad = bad || !throws([&] { (void)c.at(z); });
#endif
            if (bad) views.insert({-6});
        }
        if (!d.empty()) views.insert(d);
        if (!e.empty()) views.insert(e);
        if (n) {
            if constexpr (F::ptr)
                bk = {val(*c.back())};
            else {
                bk = {val(c.back())};
                if (val(k.back()) != bk[0]) bk.push_back(val(k.back()));
            }
        }
        for (int t = 0; t < K; ++t) {
            f1.push_back(withKey(1, t, [&](auto& x) { return found(x, n); }));
            if (F::dual) f2.push_back(withKey(2, t, [&](auto& x) { return found(x, n); }));
        }
        std::string s = "\"n\":" + std::to_string(n) + ",\"c\":[";
        bool first = true;
        for (auto& v : views) {
            s += (first ? "" : ",") + js(v);
            first = false;
        }
        return s + "],\"bk\":" + js(bk) + ",\"f1\":" + js(f1) + ",\"f2\":" + js(f2) + ",\"ids\":" + js(ids);
    }
    IC* copy() override
    {
        if constexpr (F::copyable)
            return new Ad(c, 0);
        else
            _exit(3);
    }
    IC* move() override { return new Ad(std::move(c)); }
    void copyFrom(IC& o) override
    {
        if constexpr (F::copyable)
            c = static_cast<const C&>(static_cast<Ad&>(o).c);
        else
            _exit(3);
    }
    void moveFrom(IC& o) override { c = std::move(static_cast<Ad&>(o).c); }
};

static IC* make(int kind)
{
    switch (kind) {
#define MK(N) case N: return new Ad<N>;
#if KINDS & 1
        MK(1) MK(2) MK(3) MK(4) MK(5) MK(6) MK(7) MK(8) MK(9)
#endif
#if KINDS & 2
        MK(11) MK(12) MK(13) MK(14) MK(15) MK(16) MK(17)
#endif
    }
    _exit(3);
}
static const char* storage(int kind)
{
    switch (kind) {
#define ST(N) case N: return Cfg<N>::st;
        ST(1) ST(2) ST(3) ST(4) ST(5) ST(6) ST(7) ST(8) ST(9) ST(11) ST(12) ST(13) ST(14) ST(15) ST(16) ST(17)
    }
    _exit(3);
}

static std::string header(const std::vector<std::string>& f)
{
    int kind = std::stoi(f[1]);
    return ",\"kind\":" + f[1] + ",\"st\":\"" + storage(kind) + "\",\"dual\":" + (kind > 10 ? "1" : "0") + ",\"K\":" + f[2];
}

static void runScript(const std::vector<std::string>& fields, const std::vector<std::string>& toks)
{
    int kind = std::stoi(fields[1]), K = std::stoi(fields[2]);
#ifdef NO_USTR
    if (kind == 9 || kind == 17) abort();
#endif
    liveObj.clear();
    errs.clear();
    serials = 0;
    {
        std::array<std::unique_ptr<IC>, 3> w;
        std::array<bool, 3> valid{true, true, true};
        std::array<std::string, 3> last;
        for (auto& x : w) x.reset(make(kind));
        int nextV = 0;
        auto observe = [&] {
            std::string s = ",\"obs\":[";
            bool first = true;
            for (size_t o = 0; o < 3; ++o) {
                if (!valid[o]) {
                    last[o].clear();
                    continue;
                }
                std::string x = w[o]->observe(K);
                if (x == last[o]) continue;
                last[o] = x;
                s += (first ? "" : ",") + ("{\"o\":" + std::to_string(o) + "," + x + "}");
                first = false;
            }
            return s + "],\"live\":" + std::to_string(liveObj.size()) + ",\"x\":" + js(errs) + "}";
        };
        flushPartial("{\"k\":\"try\"}");
        ev("{\"k\":\"obs\"" + observe());
        for (auto& tk : toks) {
            auto p = split(tk, ':');
            size_t o = (size_t)std::stoi(p[0]);
            char op = p[1][0];
            std::vector<long> a;
            for (size_t z = 2; z < p.size(); ++z) a.push_back(std::stol(p[z]));
            auto arg = [&](size_t z) { return z < a.size() ? (int)a[z] : 0; };
            std::string pre = "{\"k\":\"op\",\"o\":" + p[0] + ",\"op\":\"" + std::string(1, op) + "\",\"a\":" + js(a);
            flushPartial("{\"k\":\"try\",\"o\":" + p[0] + ",\"op\":\"" + std::string(1, op) + "\"}");
            if (!valid[o] && !strchr("cNQA", op) && op != 'K' && op != 'M') continue;
            if (strchr("KQMA", op) && (!valid[o] || (size_t)arg(0) == o)) continue;
            long r = 0;
            int v = 0;
            std::vector<long> seen;
            if (!valid[o] && (op == 'Q' || op == 'A')) continue;
            if (op == 'i' || op == 'j') {
                if (a.size() > 2 && a[2] == 7 && w[o]->middle() < 0) a[2] = 0;
                v = ++nextV;
                if (arg(2) == 6) v = 0;
                if (arg(2) == 7) v = w[o]->middle();
            }
            switch (op) {
                case 'i': r = w[o]->insert(arg(0), arg(1), v, arg(2)); break;
                case 'j': r = w[o]->assign(arg(0), arg(1), v, arg(2)); break;
                case 'x': r = w[o]->addIdx(arg(0), arg(1), (size_t)a[2]); break;
                case 'y': r = w[o]->addTerm(arg(0), arg(1), arg(2), arg(3)); break;
                case 'R': w[o]->removeIndex((size_t)a[0]); break;
                case 'r': w[o]->remove(arg(0), arg(1)); break;
                case 'c':
                    w[o]->clear();
                    valid[o] = true;
                    break;
                case 'w': w[o]->write((size_t)a[0], v = ++nextV); break;
                case 'W': r = w[o]->writeFound(arg(0), arg(1), v = ++nextV); break;
                case 'a': w[o]->visit(0, seen); break;
                case 'b': w[o]->visit(1, seen); break;
                case 'm': w[o]->visit(2, seen); break;
                case 't': w[o]->visit(3, seen); break;
                case 'N':
                    w[o].reset();
                    w[o].reset(make(kind));
                    valid[o] = true;
                    break;
                case 'K':
                    w[a[0]].reset();
                    w[a[0]].reset(w[o]->copy());
                    valid[a[0]] = true;
                    break;
                case 'M':
                    w[a[0]].reset();
                    w[a[0]].reset(w[o]->move());
                    valid[a[0]] = true;
                    valid[o] = false;
                    break;
                case 'Q':
                    w[a[0]]->copyFrom(*w[o]);
                    valid[a[0]] = true;
                    break;
                case 'A':
                    w[a[0]]->moveFrom(*w[o]);
                    valid[a[0]] = true;
                    valid[o] = false;
                    break;
                case 'S': w[o]->copyFrom(*w[o]); break;
                default: _exit(3);
            }
            ev(pre + ",\"v\":" + std::to_string(v) + ",\"r\":" + std::to_string(r) + ",\"seen\":" + js(seen) + observe());
        }
        flushPartial("{\"k\":\"try\",\"op\":\"end\"}");
    }
    ev("{\"k\":\"end\",\"live\":" + std::to_string(liveObj.size()) + ",\"x\":" + js(errs) + "}");
}
