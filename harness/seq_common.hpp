// Shared by the harnesses of the sequential components: script interpreter frame with crash containment.
#pragma once
#include <bits/stdc++.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

struct Shm {
    volatile long index;
    volatile size_t len;
    char text[1 << 20];
};
static Shm* shm = nullptr;
static std::string curTrace;
static std::string curHead;  // header fields of the trace, without braces

static void ev(const std::string& e)
{
    if (!curTrace.empty()) curTrace += ',';
    curTrace += e;
}
static void flushPartial(const std::string& pending)
{  // what the parent reports if the next operation does not come back
    std::string s = curTrace;
    if (!pending.empty()) s += (s.empty() ? "" : ",") + pending;
    if (s.size() + 1 < sizeof(shm->text)) {
        memcpy(shm->text, s.data(), s.size());
        shm->text[s.size()] = 0;
        shm->len = s.size();
    }
}
static std::string js(const std::vector<long>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    std::string x;
    std::stringstream ss(s);
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}
static std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r;
    std::string x;
    std::stringstream ss(s);
    while (ss >> x) r.push_back(x);
    return r;
}

// supplied by the harness
static std::string header(const std::vector<std::string>& fields);  // extra header fields: ,"kind":"..."
static void runScript(const std::vector<std::string>& fields, const std::vector<std::string>& toks);

int main(int argc, char** argv)
{
    (void)argc;
    std::ifstream in(argv[1]);
    std::vector<std::string> lines;
    std::string l;
    while (std::getline(in, l))
        if (!l.empty()) lines.push_back(l);
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int out = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    auto emit = [&](const std::vector<std::string>& f, const std::string& events) {  // one complete line at a time
        std::string s = "{\"sc\":\"" + f[0] + "\"" + header(f) + ",\"script\":\"" + f.back() + "\",\"ev\":[" + events + "]}\n";
        for (size_t k = 0; k < s.size();) {
            ssize_t w = write(out, s.data() + k, s.size() - k);
            if (w <= 0) _exit(4);
            k += (size_t)w;
        }
    };
    long start = 0, crashes = 0, n = (long)lines.size();
    while (start < n && crashes < 40) {
        shm->index = start;
        pid_t pid = fork();
        if (pid == 0) {
            for (long i = start; i < n; ++i) {
                shm->index = i;
                shm->len = 0;
                struct itimerval tv {};
                tv.it_value.tv_sec = 10;
                setitimer(ITIMER_PROF, &tv, nullptr);
                auto f = split(lines[(size_t)i], ';');  // name;field;...;tokens
                curTrace.clear();
                runScript(f, words(f.back()));
                emit(f, curTrace);
            }
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            start = n;
            break;
        }
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 3 || WEXITSTATUS(status) == 4)) return 5;
        long i = shm->index;
        ++crashes;
        auto f = split(lines[(size_t)i], ';');
        bool hang = WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF;
        std::string part(shm->text, shm->len);
        emit(f, part + (part.empty() ? "" : ",") + "{\"k\":\"" + (hang ? "Hang" : "Crash") + "\",\"w\":\"status " +
                    std::to_string(status) + "\"}");
        start = i + 1;
    }
    close(out);
    printf("{\"scripts\":%ld,\"executed\":%ld,\"crashes\":%ld}\n", n, start, crashes);
    return 0;
}
