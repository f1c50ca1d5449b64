// Scripts on three WorkBlock<R> slots: script line name;rt;tokens   rt: 1 int, 2 std::string, 3 void
// tokens o:op[:args]: D default, n destroy, F:w:how from a callable, T:w:how from a packaged_task, e execute, r reset,
// U:w:how updateWorkFunction, V:w:how updateTask, g get_future (kept), v getReturnVal, w wait, W wait in another thread
// while this one executes, m:dst move construct, a:dst move assign.   Odd works return, even works throw.
#include "seq_common.hpp"
#include "gmlc/containers/WorkQueue.hpp"
using namespace gmlc::containers;
static std::string header(const std::vector<std::string>& f) { return ",\"rt\":" + f[1]; }

static long runCount[8];
static std::vector<long> runs;
static BasicWorkBlock* running = nullptr;  // the block being executed: unfinished until its work has run
template<class R> R make(long c);
template<> int make<int>(long c) { return (int)c; }
template<> std::string make<std::string>(long c) { return std::to_string(c) + std::string(40, '.'); }
template<> void make<void>(long) {}
static long num(int v) { return v; }
static long num(const std::string& s) { return s.size() > 40 ? std::stol(s) : -7; }
template<class R> struct Work {
    int w;
    R operator()() const
    {
        long c = 100 * w + ++runCount[w];
        runs.push_back(running && running->isFinished() ? w + 50 : w);
        if (w % 2 == 0) throw c;
        return make<R>(c);
    }
};
template<class R> struct MoveOnly {
    std::unique_ptr<int> w;
    R operator()() { return Work<R>{*w}(); }
};
template<class F> static long outcome(F&& f)
{
    try {
        return f();
    }
    catch (long c) {
        return c;
    }
    catch (const std::future_error&) {
        return -3;
    }
    catch (...) {
        return -4;
    }
}
template<class R> static long get(const std::shared_future<R>& f)
{
    return outcome([&]() -> long {
        if constexpr (std::is_void_v<R>) {
            f.get();
            return 5;
        } else {
            return num(f.get());
        }
    });
}
template<class R> static long status(const std::shared_future<R>& f)
{
    if (!f.valid()) return -2;
    if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) return 0;
    return get(f);
}
template<class R> static std::packaged_task<R()> task(int w, int how)
{
    std::packaged_task<R()> t(Work<R>{w});
    if (how % 10 == 1) (void)t.get_future();
    if (how % 10 == 2) {
        auto f = t.get_future();
        t();
    }
    if (how % 10 == 3) t();
    return t;
}
template<class R> struct Player {
    using B = WorkBlock<R>;
    std::shared_ptr<B> b[3];
    bool moved[3] = {false, false, false};
    std::vector<std::shared_future<R>> kept;
    std::string observe(long ret)
    {
        std::vector<long> fin, fut;
        for (int k = 0; k < 3; ++k) fin.push_back(!b[k] || moved[k] ? -1 : b[k]->isFinished() ? 1 : 0);
        for (auto& f : kept) fut.push_back(status(f));
        return ",\"runs\":" + js(runs) + ",\"fin\":" + js(fin) + ",\"fut\":" + js(fut) + ",\"ret\":" + std::to_string(ret);
    }
    void play(const std::vector<std::string>& toks)
    {
        for (auto& tk : toks) {
            auto p = split(tk, ':');
            int o = std::stoi(p[0]);
            char op = p[1][0];
            int w = p.size() > 2 ? std::stoi(p[2]) : -1, how = p.size() > 3 ? std::stoi(p[3]) : 0;
            std::string e = "{\"k\":\"op\",\"o\":" + std::to_string(o) + ",\"op\":\"" + p[1] + "\",\"w\":" + std::to_string(w) +
                ",\"how\":" + std::to_string(how);
            bool have = b[o] && !moved[o];
            if (!have && strchr("ergvwWma", op)) continue;      // nothing there
            if (!b[o] && strchr("UVn", op)) continue;
            if (op == 'a' && !b[w]) continue;
            if ((op == 'a' || op == 'm') && w == o) continue;
            flushPartial("{\"k\":\"try\",\"op\":\"" + p[1] + "\"}");
            runs.clear();
            long ret = -9;
            std::packaged_task<R()> t;
            if (op == 'T' || op == 'V') {
                t = task<R>(w, how);
                runs.clear();
            }
            try {
                switch (op) {
                    case 'D': b[o] = std::make_shared<B>(); moved[o] = false; break;
                    case 'n': b[o].reset(); moved[o] = false; break;
                    case 'F': {
                        Work<R> wk{w};
                        std::shared_ptr<B> x;
                        if (how == 0) x = std::make_shared<B>(Work<R>{w});
                        else if (how == 1) { std::function<R()> f = wk; x = std::make_shared<B>(f); }
                        else if (how == 2) { auto u = make_workBlock([wk] { return wk(); }); x = std::move(u); }
                        else if (how == 3) x = make_shared_workBlock([wk] { return wk(); });
                        else if (how == 4) x = std::make_shared<B>(MoveOnly<R>{std::make_unique<int>(w)});
                        else if (how == 5) x = std::make_shared<B>(wk);
                        else _exit(3);
                        b[o] = x;
                        moved[o] = false;
                        break;
                    }
                    case 'T': {
                        std::shared_ptr<B> x;
                        if (how < 10) x = std::make_shared<B>(std::move(t));
                        else if (how < 20) { auto u = make_workBlock(std::move(t)); x = std::move(u); }
                        else x = make_shared_workBlock(std::move(t));
                        b[o] = x;
                        moved[o] = false;
                        break;
                    }
                    case 'U': {
                        Work<R> wk{w};
                        if (how == 0) b[o]->updateWorkFunction(Work<R>{w});
                        else if (how == 1) { std::function<R()> f = wk; b[o]->updateWorkFunction(f); }
                        else if (how == 2) b[o]->updateWorkFunction([wk] { return wk(); });
                        else if (how == 4) b[o]->updateWorkFunction(MoveOnly<R>{std::make_unique<int>(w)});
                        else if (how == 5) b[o]->updateWorkFunction(wk);
                        else _exit(3);
                        moved[o] = false;
                        break;
                    }
                    case 'V': b[o]->updateTask(std::move(t)); moved[o] = false; break;
                    case 'e':
                        running = b[o].get();
                        static_cast<BasicWorkBlock&>(*b[o]).execute();
                        running = nullptr;
                        break;
                    case 'r': b[o]->reset(); break;
                    case 'g': kept.push_back(b[o]->get_future()); break;
                    case 'v': case 'w': {
                        auto f = b[o]->get_future();
                        if (!f.valid() || f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) break;
                        if (op == 'w') {
                            b[o]->wait();
                            ret = 1;
                        } else ret = value(*b[o]);
                        break;
                    }
                    case 'W': {
                        auto f = b[o]->get_future();
                        B& x = *b[o];
                        running = &x;
                        if (!f.valid()) {
                            x.execute();
                            running = nullptr;
                            break;
                        }
                        auto got = std::make_shared<std::promise<long>>();
                        auto gf = got->get_future();
                        std::thread th([&x, got] { x.wait(); got->set_value(value(x)); });
                        x.execute();
                        running = nullptr;
                        if (gf.wait_for(std::chrono::seconds(4)) != std::future_status::ready) {
                            ev(e + ",\"stuck\":1" + observe(-8) + "}");
                            th.detach();
                            new std::shared_ptr<B>(b[o]);  // the thread still uses it
                            return;
                        }
                        ret = gf.get();
                        th.join();
                        break;
                    }
                    case 'm': b[w] = std::make_shared<B>(std::move(*b[o])); moved[w] = false; moved[o] = true; break;
                    case 'a': *b[w] = std::move(*b[o]); moved[w] = false; moved[o] = true; break;
                    default: _exit(3);
                }
            }
            catch (const std::exception& x) {
                ev("{\"k\":\"threw\",\"op\":\"" + p[1] + "\",\"what\":\"" + x.what() + "\"}");
                return;
            }
            catch (long) {
                ev("{\"k\":\"threw\",\"op\":\"" + p[1] + "\",\"what\":\"the work's exception\"}");
                return;
            }
            NullWorkBlock nb;
            nb.execute();
            ev(e + ",\"null\":" + (nb.isFinished() ? "1" : "0") + observe(ret) + "}");
        }
    }
    static long value(B& x)
    {
        return outcome([&]() -> long {
            if constexpr (std::is_void_v<R>) {
                x.getReturnVal();
                return 5;
            } else {
                return num(x.getReturnVal());
            }
        });
    }
};
static void runScript(const std::vector<std::string>& f, const std::vector<std::string>& toks)
{
    memset(runCount, 0, sizeof runCount);
    if (f[1] == "1") Player<int>().play(toks);
    else if (f[1] == "2") Player<std::string>().play(toks);
    else Player<void>().play(toks);
}
