// mapFind on both kinds of map: script line name;kt;tokens   kt: key type 1 int, 2 string; value type int or string
// tokens: k=v pairs of the content, then queries are made for every key of the universe with several defaults
#include "seq_common.hpp"
#include "gmlc/containers/mapOps.hpp"
static std::string header(const std::vector<std::string>& f) { return ",\"kt\":" + f[1]; }
template<class K> K key(int k);
template<> int key<int>(int k) { return k < 6 ? k - 1 : k * 7919; }  // includes 0 (the default) and -1
template<> std::string key<std::string>(int k)
{
    static const char* s[] = {"", "a", "a key which is much longer than the small buffer 1", "a key which is much longer than the small buffer 2", "A", "aa"};
    return k < 6 ? s[k] : std::string((size_t)k, 'k');
}
template<class V> V value(int v);
template<> int value<int>(int v) { return v; }  // 0 is the default-constructed value
template<> std::string value<std::string>(int v) { return v == 0 ? "" : std::string((size_t)v * 11, (char)('a' + v)); }
template<> double value<double>(int v) { return v * 0.25; }
template<> char value<char>(int v) { return (char)v; }
template<> std::vector<int> value<std::vector<int>>(int v) { return std::vector<int>((size_t)v, 0); }
static const int targets[8] = {};
template<> const int* value<const int*>(int v) { return v == 0 ? nullptr : targets + v; }
template<class V> int num(const V& x)
{
    for (int v = 0; v <= 4; ++v)
        if (x == value<V>(v)) return v;
    return -9;
}
template<class M, class K, class V> void query(const std::map<int, int>& content, const char* kind)
{
    M m;
    for (auto& e : content) m.emplace(key<K>(e.first), value<V>(e.second));
    const M before = m;
    std::vector<long> entries;
    for (auto& e : content) {
        entries.push_back(e.first);
        entries.push_back(e.second);
    }
    std::vector<long> answers;  // key, default or -1, found 0/1, value
    for (int k = 0; k < 8; ++k) {
        K kk = key<K>(k);
        for (int d = 0; d <= 3; ++d) {
            V dd = value<V>(d);
            V r = mapFind(m, kk, dd);
            answers.insert(answers.end(), {k, d, 1, num(r)});
        }
        std::optional<V> o = mapFind(m, kk);
        answers.insert(answers.end(), {k, -1, o ? 1 : 0, o ? num(*o) : -1});
    }
    ev("{\"k\":\"map\",\"w\":\"" + std::string(kind) + "\",\"in\":" + js(entries) + ",\"same\":" + (m == before ? "1" : "0") + ",\"out\":" + js(answers) + "}");
}
static void runScript(const std::vector<std::string>& f, const std::vector<std::string>& toks)
{
    std::map<int, int> content;
    for (auto& t : toks) {
        if (t == "-") continue;
        auto p = split(t, '=');
        content[std::stoi(p[0])] = std::stoi(p[1]);
    }
    flushPartial("{\"k\":\"try\"}");
    if (f[1] == "1") {
        query<std::map<int, int>, int, int>(content, "map");
        query<std::unordered_map<int, int>, int, int>(content, "unordered");
        query<std::map<int, std::string>, int, std::string>(content, "map");
        query<std::unordered_map<int, std::string>, int, std::string>(content, "unordered");
        query<std::map<int, double>, int, double>(content, "map");
        query<std::unordered_map<int, char>, int, char>(content, "unordered");
        query<std::map<int, const int*>, int, const int*>(content, "map");
        query<std::unordered_map<int, const int*>, int, const int*>(content, "unordered");
    } else {
        query<std::map<std::string, int>, std::string, int>(content, "map");
        query<std::unordered_map<std::string, int>, std::string, int>(content, "unordered");
        query<std::map<std::string, std::string>, std::string, std::string>(content, "map");
        query<std::unordered_map<std::string, std::string>, std::string, std::string>(content, "unordered");
        query<std::map<std::string, std::vector<int>>, std::string, std::vector<int>>(content, "map");
        query<std::unordered_map<std::string, std::vector<int>>, std::string, std::vector<int>>(content, "unordered");
    }
}
