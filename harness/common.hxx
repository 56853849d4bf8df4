// Shared infrastructure of the runtime monitors: seeded RNG, violation
// reporting, per-case CPU watchdog, coverage counters.
#ifndef VERIF_COMMON_HXX
#define VERIF_COMMON_HXX

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

namespace vf {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); } // inclusive
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template<class T> T &pick(std::vector<T> &v) { return v[below((int)v.size())]; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
    template<class T> void shuffle(std::vector<T> &v)
    {
        for(int i = (int)v.size() - 1; i > 0; --i)
            std::swap(v[i], v[below(i + 1)]);
    }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xFF51AFD7ED558CCDull;
    return h ^ (h >> 33);
}
inline uint64_t mixd(uint64_t h, double d)
{
    if(d == 0.0) d = 0.0;
    uint64_t u; memcpy(&u, &d, 8);
    return mix(h, u);
}
inline uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// A violated property.  'sig' is a short stable signature (used to match
// known findings), 'msg' carries the details of the failing history.
struct Violation
{
    std::string sig, msg;
    Violation(const std::string &s, const std::string &m) : sig(s), msg(m) {}
};

struct Stats
{
    std::map<std::string, long long> counters;
    std::unordered_set<uint64_t> distinct;
    long long evaluations = 0; // single monitor checks
    long long states = 0;      // monitored executions / states judged
    std::vector<std::string> samples;
    void count(const std::string &k, long long n = 1) { counters[k] += n; }
    void eval(long long n = 1) { evaluations += n; }
    void state(uint64_t h) { ++states; if(distinct.size() < 2000000) distinct.insert(h); }
    void sample(const std::string &s) { if(samples.size() < 4) samples.push_back(s); }
};
inline Stats &stats() { static Stats s; return s; }

// history of the running case: included in violation messages
inline std::vector<std::string> &trace() { static std::vector<std::string> t; return t; }
inline void note(const std::string &s) { trace().push_back(s); if(trace().size() > 400) trace().erase(trace().begin(), trace().begin() + 200); }

#define VF_STR(x) (([&]{ std::ostringstream vf_s_; vf_s_.precision(17); vf_s_ << x; return vf_s_.str(); })())
#define VIOLATE(sig, x) throw ::vf::Violation(sig, VF_STR(x))
#define CHECK(cond, sig, x) do { ::vf::stats().eval(); if(!(cond)) VIOLATE(sig, x); } while(0)

struct Options
{
    std::string prop = "P00", tier = "quick", statusFile, outFile;
    long long start = 0, count = 1;
    uint64_t seed = 1;
    int cpuLimit = 20;
    bool verbose = false;
};
inline Options &opts() { static Options o; return o; }

inline uint64_t caseSeed(long long idx)
{
    return mix(mix(hashStr(opts().prop), opts().seed), (uint64_t)idx);
}

inline int &statusFd() { static int fd = -1; return fd; }
inline void writeStatus(long long idx, const char *what)
{
    if(statusFd() < 0) return;
    char buf[96];
    int n = snprintf(buf, sizeof(buf), "%-20lld %-40s\n", idx, what);
    ssize_t r = pwrite(statusFd(), buf, n, 0); (void)r;
}
inline volatile long long &curCase() { static volatile long long c = -1; return c; }

inline void onCpuAlarm(int)
{
    writeStatus(curCase(), "HANG");
    _exit(88);
}
inline void armWatchdog(int seconds)
{
    struct itimerval tv; memset(&tv, 0, sizeof(tv));
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, NULL);
}

inline std::string jsonEsc(const std::string &s)
{
    std::string r;
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

typedef std::function<void(Rng &, long long)> CaseFn;

inline int runMain(int argc, char **argv, const std::map<std::string, CaseFn> &props)
{
    Options &o = opts();
    for(int i = 1; i < argc; ++i)
    {
        std::string a(argv[i]);
        auto val = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--prop") o.prop = val();
        else if(a == "--tier") o.tier = val();
        else if(a == "--start") o.start = atoll(val().c_str());
        else if(a == "--count") o.count = atoll(val().c_str());
        else if(a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if(a == "--status") o.statusFile = val();
        else if(a == "--out") o.outFile = val();
        else if(a == "--cpu") o.cpuLimit = atoi(val().c_str());
        else if(a == "-v") o.verbose = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    auto it = props.find(o.prop);
    if(it == props.end()) { fprintf(stderr, "unknown property %s\n", o.prop.c_str()); return 2; }
    if(!o.statusFile.empty())
        statusFd() = open(o.statusFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    FILE *out = o.outFile.empty() ? stdout : fopen(o.outFile.c_str(), "w");
    if(!out) return 2;
    if(!o.verbose) // the library reports progress on cerr; keep it out of the way
    {
        static std::ofstream *dummy = 0; (void)dummy;
        std::cerr.setstate(std::ios::failbit);
    }
    signal(SIGPROF, onCpuAlarm);
    int nviol = 0;
    for(long long i = o.start; i < o.start + o.count; ++i)
    {
        curCase() = i;
        writeStatus(i, "run");
        trace().clear();
        armWatchdog(o.cpuLimit);
        std::string sig, msg;
        try
        {
            Rng rng(caseSeed(i));
            it->second(rng, i);
        }
        catch(Violation &v) { sig = v.sig; msg = v.msg; }
        catch(std::exception &e) { sig = "unexpected-exception"; msg = e.what(); }
        armWatchdog(0);
        stats().count("cases");
        if(stats().samples.size() < 2)
        {
            std::string t = VF_STR("case " << i << ": ");
            for(auto &l : trace()) { if(t.size() > 500) { t += "..."; break; } t += l + "; "; }
            stats().sample(t);
        }
        if(!sig.empty())
        {
            std::string tr;
            size_t from = trace().size() > 60 ? trace().size() - 60 : 0;
            for(size_t k = from; k < trace().size(); ++k) tr += trace()[k] + "\n";
            fprintf(out, "{\"violation\":true,\"case\":%lld,\"sig\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",
                    i, jsonEsc(sig).c_str(), jsonEsc(msg).c_str(), jsonEsc(tr).c_str());
            fflush(out);
            if(++nviol >= 40) break;
        }
    }
    writeStatus(o.start + o.count, "done");
    fprintf(out, "{\"stats\":true,\"evaluations\":%lld,\"states\":%lld,\"distinct\":%zu,\"counters\":{", stats().evaluations, stats().states, stats().distinct.size());
    bool first = true;
    for(auto &c : stats().counters)
    {
        fprintf(out, "%s\"%s\":%lld", first ? "" : ",", jsonEsc(c.first).c_str(), c.second);
        first = false;
    }
    fprintf(out, "},\"samples\":[");
    first = true;
    for(auto &s : stats().samples)
    {
        fprintf(out, "%s\"%s\"", first ? "" : ",", jsonEsc(s).c_str());
        first = false;
    }
    fprintf(out, "]}\n");
    // distinct hashes (for merging over shards)
    fprintf(out, "{\"hashes\":[");
    first = true; size_t k = 0;
    for(uint64_t h : stats().distinct)
    {
        if(++k > 200000) break;
        fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    fprintf(out, "]}\n");
    if(out != stdout) fclose(out); else fflush(out);
    return nviol ? 1 : 0;
}

} // namespace vf
#endif
