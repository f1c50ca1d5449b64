// Scripts on StackBuffer / StackBufferRaw / CircularBuffer / CircularBufferRaw.
// KIND 1 StackBuffer, 2 StackBufferRaw, 3 CircularBuffer, 4 CircularBufferRaw
#include "seq_common.hpp"
#include <sanitizer/asan_interface.h>
#include "gmlc/containers/CircularBuffer.hpp"
#include "gmlc/containers/StackBuffer.hpp"
using namespace gmlc::containers;
#if KIND == 1
using B = StackBuffer;
#elif KIND == 2
using B = StackBufferRaw;
#elif KIND == 3
using B = CircularBuffer;
#else
using B = CircularBufferRaw;
#endif
constexpr bool isStack = KIND <= 2;
constexpr bool isRaw = KIND == 2 || KIND == 4;

// array allocations are counted: the buffers are the only users of new[]
static long liveArrays = 0;
static void* arr(size_t n)
{
    ++liveArrays;
    return malloc(n ? n : 1);
}
void* operator new[](size_t n) { return arr(n); }
void operator delete[](void* p) noexcept
{
    if (p) --liveArrays;
    free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

// the first two bytes are the number of the block, the others depend on it and on their place
static unsigned char byteOf(int id, int k)
{
    return (unsigned char)(k == 0 ? id : k == 1 ? id >> 8 : (id * 37 + k * 11 + k / 7 + k / 1021) & 255);
}

struct RawMem {  // a block with poisoned surroundings
    unsigned char* base;
    int size;
    static constexpr int G = 4096;
    explicit RawMem(int n, int shift): size(n)
    {
        base = (unsigned char*)malloc((size_t)(n + 2 * G + 16));
        off = G + shift;
        memset(base, 0x5A, (size_t)(n + 2 * G + 16));
        memset(base + off, 0xA5, (size_t)n);
        ASAN_POISON_MEMORY_REGION(base, (size_t)off & ~7ul);
        size_t e = (size_t)(off + n + 7) & ~7ul;
        ASAN_POISON_MEMORY_REGION(base + off + n, e - (size_t)(off + n));
        ASAN_POISON_MEMORY_REGION(base + e, (size_t)(n + 2 * G + 16) - e);
    }
    ~RawMem()
    {
        ASAN_UNPOISON_MEMORY_REGION(base, (size_t)(size + 2 * G + 16));
        free(base);
    }
    bool intact()
    {  // the granule the address sanitizer cannot poison, then everything
        ASAN_UNPOISON_MEMORY_REGION(base, (size_t)(size + 2 * G + 16));
        for (int k = 0; k < off; ++k)
            if (base[k] != 0x5A) return false;
        for (int k = off + size; k < size + 2 * G + 16; ++k)
            if (base[k] != 0x5A) return false;
        return true;
    }
    unsigned char* mem() { return base + off; }
    int off;
};

struct World {
    std::array<std::unique_ptr<B>, 3> o;
    std::unique_ptr<RawMem> raw;
    std::map<int, int> sizes;
    int nextId = 0;
};

static std::string observe(World& w)
{
    std::string s = "[";
    for (size_t k = 0; k < w.o.size(); ++k) {
        if (!w.o[k]) continue;
        B& b = *w.o[k];
        int cap = b.capacity();
        int maxav = 0, refused = 0;  // largest size offered, smallest size refused
        auto ask = [&](int z) {
            if (b.isSpaceAvailable(z))
                maxav = z;
            else if (!refused)
                refused = z;
        };
        for (int z = 1; z <= cap + 12; ++z) ask(z);
        for (int z : {1 << 20, INT_MAX - 16, INT_MAX - 3, INT_MAX}) ask(z);
        int cnt = -1;
#if KIND <= 2
        cnt = b.getCurrentCount();
#endif
        if (s.size() > 1) s += ",";
        s += js({(long)k, cap, cnt, b.nextDataSize(), b.empty() ? 1 : 0, maxav, refused});
    }
    return s + "]";
}
static int identify(World& w, const unsigned char* p, int n)
{
    if (n <= 0) return 0;
    int id = p[0] + (n > 1 ? p[1] * 256 : 0);
    auto it = w.sizes.find(id);
    if (it == w.sizes.end() || it->second != n) return 0;
    for (int k = 0; k < n; ++k)
        if (p[k] != byteOf(id, k)) return 0;
    return id;
}

static std::string header(const std::vector<std::string>& f)
{
    return ",\"kind\":\"" + std::string(isStack ? "stack" : "circ") + "\",\"raw\":" + (isRaw ? "1" : "0") + ",\"cap\":" + f[1];
}
static void runScript(const std::vector<std::string>& f, const std::vector<std::string>& toks)
{
    long live0 = liveArrays;
    int intact = 1;
    {
        World w;
        int cap0 = std::stoi(f[1]);
#if KIND == 2 || KIND == 4
        w.raw = std::make_unique<RawMem>(cap0, (int)(f[0].size() % 8));
        w.o[0] = std::make_unique<B>(w.raw->mem(), cap0);
#else
        for (auto& x : w.o) x = std::make_unique<B>();
        if (cap0 >= 0) w.o[0] = std::make_unique<B>(cap0);
#endif
        ev("{\"k\":\"obs\",\"obs\":" + observe(w) + "}");
        for (auto& tok : toks) {
            size_t i = 0;
            std::string t = tok;
            if (t.size() > 2 && t[1] == ':') {
                i = (size_t)(t[0] - '0');
                t = t.substr(2);
            }
            char c = t[0];
            int a = t.size() > 1 && (isdigit(t[1]) || t[1] == '-') ? std::stoi(t.substr(1)) : 0;
            B& b = *w.o[i];
            std::string op;
            std::vector<long> args, r;
            std::string pre = "{\"k\":\"try\",\"o\":" + std::to_string(i) + ",\"t\":\"" + t + "\"}";
            flushPartial(pre);
            try {
                switch (c) {
                    case 'p': {
                        op = "push";
                        if (t == "pn") {
                            args = {0, 4};
                            r = {b.push(nullptr, 4) ? 1 : 0, 0};
                        } else if (a <= 0) {
                            unsigned char x[4] = {1, 2, 3, 4};
                            args = {0, a};
                            r = {b.push(x, a) ? 1 : 0, 0};
                        } else if (a > (1 << 20)) {  // no buffer is that large
                            static unsigned char x[4] = {1, 2, 3, 4};
                            int id = ++w.nextId;
                            w.sizes[id] = a;
                            int av = b.isSpaceAvailable(a) ? 1 : 0;
                            args = {id, a};
                            r = {b.push(x, a) ? 1 : 0, av};
                        } else {
                            int id = ++w.nextId;
                            auto* m = (unsigned char*)malloc((size_t)a);
                            for (int k = 0; k < a; ++k) m[k] = byteOf(id, k);
                            w.sizes[id] = a;
                            int av = b.isSpaceAvailable(a) ? 1 : 0;
                            args = {id, a};
                            r = {b.push(m, a) ? 1 : 0, av};
                            memset(m, 0xEE, (size_t)a);
                            free(m);
                        }
                        break;
                    }
                    case 'o':   // plenty of room
                    case 'x':   // exactly enough
                    case 's':   // one byte too little
                    case 'z': { // none
                        op = "pop";
                        int nx = b.nextDataSize();
                        int mx = c == 'o' ? std::max(nx, 0) + 9 : c == 'x' ? nx : c == 's' ? nx - 1 : 0;
                        if (mx < 0) mx = 0;
                        if (mx > 4000000) mx = 4000000;
                        auto* m = (unsigned char*)malloc((size_t)mx + 1);
                        memset(m, 0xC3, (size_t)mx + 1);
                        if (mx == 0) ASAN_POISON_MEMORY_REGION(m, 1);
                        int n = b.pop(m, mx);
                        ASAN_UNPOISON_MEMORY_REGION(m, 1);
                        int id = n > 0 && n <= mx ? identify(w, m, n) : 0;
                        int clean = 1;
                        for (int k = std::max(n, 0); k <= mx; ++k)
                            if (m[k] != 0xC3) clean = 0;
                        free(m);
                        args = {mx};
                        r = {n, id, clean};
                        break;
                    }
                    case 'c':
                        op = "clear";
                        b.clear();
                        break;
#if KIND <= 2
                    case 'v':
                        op = "reverse";
                        b.reverse();
                        break;
#endif
#if KIND == 1 || KIND == 3
                    case 'N':
                        op = "new";
                        args = {0};
                        w.o[i] = std::make_unique<B>();
                        break;
                    case 'C':
                        op = "new";
                        args = {a};
                        w.o[i] = std::make_unique<B>(a);
                        break;
                    case 'r':
                        op = "resize";
                        args = {a};
#if KIND == 1
                        r = {b.resize(a) ? 1 : 0};
#else
                        b.resize(a);
                        r = {1};
#endif
                        break;
                    case 'M':
                        op = "mctor";
                        args = {a};
                        w.o[(size_t)a] = std::make_unique<B>(std::move(b));
                        break;
                    case 'A':
                        op = "massign";
                        args = {a};
                        *w.o[(size_t)a] = std::move(b);
                        break;
                    case 'K':
                        op = "cctor";
                        args = {a};
                        w.o[(size_t)a] = std::make_unique<B>(b);
                        break;
                    case 'Q':
                        op = "cassign";
                        args = {a};
                        *w.o[(size_t)a] = b;
                        break;
#endif
#if KIND == 1
                    case 'W':
                        op = "swap";
                        args = {a};
                        b.swap(*w.o[(size_t)a]);
                        break;
#endif
                    default: fprintf(stderr, "bad token %s\n", tok.c_str()); _exit(3);
                }
            } catch (std::exception&) {
                r = {-1000000000};
            }
            ev("{\"k\":\"op\",\"o\":" + std::to_string(i) + ",\"op\":\"" + op + "\",\"a\":" + js(args) + ",\"r\":" + js(r) +
               ",\"obs\":" + observe(w) + "}");
        }
        flushPartial("{\"k\":\"try\",\"o\":0,\"t\":\"destroy\"}");
        if (w.raw) intact = w.raw->intact() ? 1 : 0;
    }
    ev("{\"k\":\"end\",\"leak\":" + std::to_string(liveArrays - live0) + ",\"guard\":" + std::to_string(intact) + "}");
}
