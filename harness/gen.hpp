// Generic replay loop.  stdin: C <id> key=value ...   H <id> <step> ...   steps k:i:v
#pragma once
#include "replay.hpp"
#include <chrono>
#include <unistd.h>

using Cfg = std::map<std::string, std::string>;
struct Step
{
    std::string k;
    int         i = 0, v = 0;
};
struct Run
{
    virtual ~Run() = default;
    virtual void        step(const Step&) = 0;
    virtual std::string flags()           = 0; // ints joined by ','
    std::string         outs;
    void                out(const std::string& k, long i, long v) { outs += (outs.empty() ? "" : " ") + k + "." + std::to_string(i) + "." + std::to_string(v); }
};
std::unique_ptr<Run> make_run(const Cfg&, int variant);
inline int           num(const Cfg& c, const std::string& k, int def = 0) { auto it = c.find(k); return it == c.end() || it->second.empty() ? def : atoi(it->second.c_str()); }
inline std::string   str(const Cfg& c, const std::string& k) { auto it = c.find(k); return it == c.end() ? "" : it->second; }
inline std::vector<std::vector<std::string>> table(const Cfg& c, const std::string& k)
{
    std::vector<std::vector<std::string>> r;
    if (auto s = str(c, k); !s.empty())
        for (auto& x : split(s, ';'))
            r.push_back(split(x, ','));
    return r;
}
inline std::string ints(const std::vector<long>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s;
}
#ifndef GEN_OWN_CLOCK
// virtual steady clock: tests of durations do not wait
inline long& fake_ms()
{
    static long v = 1000000;
    return v;
}
namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept { return time_point{milliseconds{fake_ms()}}; }
    }
}
#endif
int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    const int                  variant = argc > 1 ? atoi(argv[1]) : 0;
    std::map<std::string, Cfg> cfgs;
    std::string                line;
    while (std::getline(std::cin, line))
    {
        const auto f = split(line, ' ');
        if (f[0] == "C")
        {
            auto& c = cfgs[f[1]];
            for (size_t i = 2; i < f.size(); ++i)
                if (auto p = f[i].find('='); p != std::string::npos)
                    c[f[i].substr(0, p)] = f[i].substr(p + 1);
        }
        else if (f[0] == "H")
        {
            std::cout << std::flush;
            alarm(20);
            std::string line_out;
            {
                auto r = make_run(cfgs.at(f[1]), variant);
                for (size_t i = 2; i < f.size(); ++i)
                {
                    const auto x = split(f[i], ':');
                    r->step(Step{x[0], atoi(x[1].c_str()), atoi(x[2].c_str())});
                    line_out += (i > 2 ? "|" : "") + r->outs + "/" + r->flags();
                    r->outs.clear();
                }
            }
            std::cout << line_out << "\n";
        }
    }
    std::cout << std::flush;
    return 0;
}
