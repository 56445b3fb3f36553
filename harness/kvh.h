// Common parts of the drivers: script reading, JSON events, named UIDs.
#pragma once
#include <knp/core/uid.h>

#include <spdlog/spdlog.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace kvh
{
inline std::vector<std::string> split(const std::string &s, char c)
{
    std::vector<std::string> r;
    if (s.empty() || s == "-") return r;
    std::string cur;
    for (char x : s)
    {
        if (x == c)
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += x;
    }
    r.push_back(cur);
    return r;
}

inline std::vector<std::string> words(const std::string &s)
{
    std::istringstream is(s);
    std::vector<std::string> r;
    std::string w;
    while (is >> w) r.push_back(w);
    return r;
}

inline std::string q(const std::string &s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') r += '\\';
        if (c == '\n')
        {
            r += "\\n";
            continue;
        }
        r += c;
    }
    return r + "\"";
}

// Names are mapped to identifiers derived from the name and a salt, so runs repeat exactly.
class Names
{
public:
    uint64_t salt = 0;

    knp::core::UID uid(const std::string &n)
    {
        auto it = by_name_.find(n);
        if (it != by_name_.end()) return it->second;
        uint64_t h = 1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull);
        for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
        std::array<uint8_t, 16> a;
        for (int i = 0; i < 16; ++i)
        {
            h ^= h >> 29;
            h *= 0xBF58476D1CE4E5B9ull;
            h ^= h >> 32;
            a[i] = static_cast<uint8_t>(h);
        }
        knp::core::UID u(a);
        set(n, u);
        return u;
    }
    void set(const std::string &n, const knp::core::UID &u)
    {
        by_name_.insert_or_assign(n, Holder{u}.u);
        by_uid_[std::string(u)] = n;
    }
    bool has(const std::string &n) const { return by_name_.count(n) != 0; }
    std::string name(const knp::core::UID &u) const
    {
        auto it = by_uid_.find(std::string(u));
        return it == by_uid_.end() ? "?" + std::string(u) : it->second;
    }
    std::vector<knp::core::UID> uids(const std::string &list)
    {
        std::vector<knp::core::UID> r;
        for (auto &n : split(list, ',')) r.push_back(uid(n));
        return r;
    }
    void clear()
    {
        by_name_.clear();
        by_uid_.clear();
    }

private:
    struct Holder
    {
        knp::core::UID u;
    };
    std::map<std::string, knp::core::UID> by_name_;
    std::map<std::string, std::string> by_uid_;
};

class Out
{
public:
    explicit Out(const char *path) : f_(fopen(path, "w"))
    {
        if (!f_)
        {
            perror(path);
            exit(3);
        }
    }
    void line(const std::string &s)
    {
        fwrite(s.data(), 1, s.size(), f_);
        fputc('\n', f_);
        fflush(f_);
    }
    ~Out() { fclose(f_); }

private:
    FILE *f_;
};

template <class C, class F>
std::string arr(const C &c, F f)
{
    std::string r = "[";
    bool first = true;
    for (const auto &x : c)
    {
        if (!first) r += ",";
        first = false;
        r += f(x);
    }
    return r + "]";
}

inline std::vector<std::string> read_script(const char *path)
{
    std::ifstream f(path);
    std::vector<std::string> r;
    std::string l;
    while (std::getline(f, l))
        if (!l.empty()) r.push_back(l);
    return r;
}

inline void quiet() { spdlog::set_level(spdlog::level::off); }
}  // namespace kvh
