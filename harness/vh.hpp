// Common part of every harness: deterministic case generation, case isolation, reporting.
//
// A harness is a list of sections; a case is (section, index). Everything a case does is a
// function of (seed, section, index): its own generator, and - because the library seeds its
// generators with std::random_device - a std::random_device whose value is fixed per thread
// (seedThread). Each case runs in a thread of its own, so that thread local generators of the
// library start again for each case.
#pragma once
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh
{
    using u64 = uint64_t;

    inline u64 mix(u64 x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    inline u64 hashStr(const std::string& s)
    {
        u64 h = 1469598103934665603ull;
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        return mix(h);
    }

    inline u64 hashBytes(const void* p, size_t n, u64 h = 1469598103934665603ull)
    {
        const auto* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i)
            h = (h ^ b[i]) * 1099511628211ull;
        return mix(h);
    }

    inline u64 hashVec(const std::vector<float>& v, u64 h = 7) { return hashBytes(v.data(), v.size() * sizeof(float), h ^ v.size()); }

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed = 1) : s(seed) {}
        u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
        int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<u64>(n)); }
        int range(int a, int b) { return a + below(b - a + 1); } // [a; b]
        // mostly [a; b], sometimes much more
        int sized(int a, int b, int most, double p = 0.02) { return chance(p) ? range(b, most) : range(a, b); }
        double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
        float uniform(float a, float b) { return a + (b - a) * static_cast<float>(unit()); }
        bool chance(double p) { return unit() < p; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[static_cast<size_t>(below(static_cast<int>(v.size())))]; }
    };

    // value of std::random_device in this thread, 0: the real one
    inline thread_local u64 threadSeed = 0;
    inline std::atomic<u64> defaultSeed{0}; // for the threads created by the library
    inline std::atomic<u64> threadCounter{0};
    inline std::atomic<bool> realRandom{false};
    inline void seedThread(u64 s) { threadSeed = mix(s) | 1; }

    struct Options
    {
        std::string tier = "quick", out, progress, only, scratch;
        u64 seed = 1;
        int shard = 0, shards = 1;
        long from = 0;
        double scale = 1;
        bool thorough() const { return tier == "thorough"; }
    };
    inline Options opt;

    inline std::string esc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r;
    }

    class Ctx
    {
        std::mutex m;
    public:
        std::string section;
        long index = 0;
        Rng rng;
        bool thorough = false;
        std::vector<std::pair<std::string, std::string>> violations; // signature, detail
        std::vector<std::pair<std::string, std::string>> knowns;     // id, detail
        std::vector<u64> keys;
        std::map<std::string, long> counts;
        std::string sampleText;

        // a violation: signature identifies the kind of failure, detail the witness
        void fail(const std::string& signature, const std::string& detail)
        {
            std::lock_guard l(m);
            if (violations.size() < 4)
                violations.emplace_back(signature, detail);
        }
        bool failed() { std::lock_guard l(m); return !violations.empty(); }
        void known(const std::string& id, const std::string& detail)
        {
            std::lock_guard l(m);
            for (auto& k : knowns)
                if (k.first == id)
                    return;
            knowns.emplace_back(id, detail);
        }
        void nontrivial(u64 key) { std::lock_guard l(m); if (keys.size() < 64) keys.push_back(key); }
        void count(const std::string& what, long n = 1) { std::lock_guard l(m); counts[what] += n; }
        void sample(const std::string& s) { std::lock_guard l(m); if (sampleText.empty()) sampleText = s; }
        // scratch directory of this case, removed at its end
        std::string dir;
        std::string scratch()
        {
            if (dir.empty())
            {
                dir = opt.scratch + "/case-" + std::to_string(getpid()) + "-" + section + "-" + std::to_string(index);
                std::filesystem::create_directories(dir);
            }
            return dir;
        }
    };

    struct Section
    {
        std::string name;
        long quick, thorough;
        std::function<void(Ctx&)> fn;
    };

    template <class... A>
    std::string str(const A&... a)
    {
        std::ostringstream ss;
        ss.precision(9);
        (ss << ... << a);
        return ss.str();
    }

    inline std::string vecStr(const std::vector<float>& v, size_t maxN = 12)
    {
        std::ostringstream ss;
        ss.precision(9);
        ss << "[";
        for (size_t i = 0; i < v.size() && i < maxN; ++i)
            ss << (i ? " " : "") << v[i];
        if (v.size() > maxN)
            ss << " ... " << v.size();
        ss << "]";
        return ss.str();
    }

    // NaN and infinity by their bits: the harness is built with -ffast-math in one variant
    inline uint32_t bitsOf(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
    inline bool finiteBits(float f) { return (bitsOf(f) & 0x7F800000u) != 0x7F800000u; }
    inline bool nanBits(float f) { return (bitsOf(f) & 0x7FFFFFFFu) > 0x7F800000u; }
    inline bool sameBits(const std::vector<float>& a, const std::vector<float>& b)
    {
        return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * 4) == 0);
    }
    // same value: equal, or both NaN
    inline bool sameValue(float a, float b)
    {
        if (nanBits(a) || nanBits(b)) return nanBits(a) && nanBits(b);
        return a == b;
    }

    inline void runThread(u64 seed, const std::function<void()>& f)
    {
        std::exception_ptr e;
        std::thread t([&] {
            seedThread(seed);
            try { f(); } catch (...) { e = std::current_exception(); }
        });
        t.join();
        if (e)
            std::rethrow_exception(e);
    }

    template <class F>
    bool throws(F&& f, std::string* what = nullptr)
    {
        try { f(); }
        catch (std::exception& e) { if (what) *what = e.what(); return true; }
        catch (...) { if (what) *what = "unknown"; return true; }
        return false;
    }

    int runAll(int argc, char** argv, const std::vector<Section>& sections);
}
#ifdef VH_MAIN
// the generators of the library are seeded by this
namespace
{
    unsigned realRandomValue()
    {
        unsigned v = 0;
        FILE* f = std::fopen("/dev/urandom", "rb");
        if (f)
        {
            if (std::fread(&v, sizeof v, 1, f) != 1) v = 0;
            std::fclose(f);
        }
        return v;
    }
}
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*)
{
    if (vh::realRandom)
        return realRandomValue();
    if (vh::threadSeed == 0)
        vh::threadSeed = vh::mix(vh::defaultSeed.load() + 1000 * ++vh::threadCounter) | 1;
    return static_cast<unsigned>(vh::mix(vh::threadSeed));
}

int vh::runAll(int argc, char** argv, const std::vector<Section>& sections)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        const std::string k = argv[i], v = argv[i + 1];
        if (k == "--tier") opt.tier = v;
        else if (k == "--seed") opt.seed = std::stoull(v);
        else if (k == "--shard") { const auto p = v.find('/'); opt.shard = std::stoi(v.substr(0, p)); opt.shards = std::stoi(v.substr(p + 1)); }
        else if (k == "--out") opt.out = v;
        else if (k == "--progress") opt.progress = v;
        else if (k == "--only") opt.only = v;
        else if (k == "--from") opt.from = std::stol(v);
        else if (k == "--scale") opt.scale = std::stod(v);
        else if (k == "--scratch") opt.scratch = v;
        else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    if (opt.scratch.empty())
        opt.scratch = std::filesystem::temp_directory_path().string() + "/vh-" + std::to_string(getpid());
    std::filesystem::create_directories(opt.scratch);

    // the cases of this shard
    std::vector<std::pair<const Section*, long>> cases;
    std::string wanted; // comma separated sections, or section:index
    long onlyIndex = -1;
    if (!opt.only.empty())
    {
        const auto p = opt.only.find(':');
        wanted = "," + opt.only.substr(0, p) + ",";
        if (p != std::string::npos)
            onlyIndex = std::stol(opt.only.substr(p + 1));
    }
    long ordinal = 0;
    for (const auto& s : sections)
    {
        if (!wanted.empty() && wanted.find("," + s.name + ",") == std::string::npos)
            continue;
        if (onlyIndex >= 0)
        {
            cases.emplace_back(&s, onlyIndex);
            continue;
        }
        long n = opt.thorough() ? s.thorough : s.quick;
        if (n > 0)
            n = std::max(1L, static_cast<long>(static_cast<double>(n) * opt.scale));
        for (long i = 0; i < n; ++i, ++ordinal)
            if (ordinal % opt.shards == opt.shard)
                cases.emplace_back(&s, i);
    }

    FILE* out = opt.out.empty() ? stdout : std::fopen(opt.out.c_str(), "a");
    if (!out) { std::perror("out"); return 2; }
    FILE* progress = opt.progress.empty() ? nullptr : std::fopen(opt.progress.c_str(), "w");

    long evaluated = 0;
    std::map<std::string, long> counts, perSection;
    std::unordered_set<u64> keys;
    std::vector<std::string> samples;
    std::map<std::string, long> reported;
    std::map<std::string, int> sampled;
    auto flush = [&](bool done) {
        std::string line = "{\"type\":\"summary\",\"done\":" + std::string(done ? "true" : "false") + ",\"evaluations\":" + std::to_string(evaluated) + ",\"counts\":{";
        bool first = true;
        for (auto& [k, v] : counts) { line += (first ? "\"" : ",\"") + esc(k) + "\":" + std::to_string(v); first = false; }
        line += "},\"sections\":{"; first = true;
        for (auto& [k, v] : perSection) { line += (first ? "\"" : ",\"") + esc(k) + "\":" + std::to_string(v); first = false; }
        line += "},\"samples\":["; first = true;
        for (auto& s : samples) { line += (first ? "\"" : ",\"") + esc(s) + "\""; first = false; }
        line += "],\"keys\":["; first = true;
        for (auto k : keys) { char b[32]; std::snprintf(b, sizeof b, "%s\"%llx\"", first ? "" : ",", static_cast<unsigned long long>(k)); line += b; first = false; }
        line += "]}";
        std::fprintf(out, "%s\n", line.c_str());
        std::fflush(out);
        evaluated = 0; counts.clear(); perSection.clear(); keys.clear(); samples.clear();
    };
    for (size_t p = static_cast<size_t>(opt.from); p < cases.size(); ++p)
    {
        const auto [section, index] = cases[p];
        if (progress)
        {
            std::rewind(progress);
            std::fprintf(progress, "%zu %s:%ld                    \n", p, section->name.c_str(), index);
            std::fflush(progress);
        }
        Ctx ctx;
        ctx.section = section->name;
        ctx.index = index;
        ctx.thorough = opt.thorough();
        const u64 caseSeed = mix(mix(opt.seed) ^ hashStr(section->name) ^ mix(static_cast<u64>(index) * 77 + 5));
        ctx.rng = Rng(caseSeed);
        defaultSeed = mix(caseSeed + 3);
        threadCounter = 0;
        try
        {
            runThread(caseSeed + 1, [&] { section->fn(ctx); });
        }
        catch (std::exception& e)
        {
            ctx.fail("unexpected-exception", std::string("uncaught exception: ") + e.what());
        }
        catch (...)
        {
            ctx.fail("unexpected-exception", "uncaught exception of unknown type");
        }
        if (!ctx.dir.empty())
        {
            std::error_code ec;
            std::filesystem::remove_all(ctx.dir, ec);
        }
        ++evaluated;
        ++perSection[section->name];
        for (auto& [k, v] : ctx.counts) counts[k] += v;
        for (auto k : ctx.keys) keys.insert(k);
        if (!ctx.sampleText.empty() && sampled[section->name]++ < 1)
            samples.push_back(section->name + ":" + std::to_string(index) + " " + ctx.sampleText.substr(0, 400));
        for (auto& [sig, detail] : ctx.violations)
            if (reported["v" + sig]++ < 5)
                std::fprintf(out, "{\"type\":\"violation\",\"sig\":\"%s\",\"case\":\"%s:%ld\",\"detail\":\"%s\"}\n", esc(sig).c_str(),
                             section->name.c_str(), index, esc(detail.substr(0, 1500)).c_str());
        for (auto& [id, detail] : ctx.knowns)
            if (reported["k" + id]++ < 5)
                std::fprintf(out, "{\"type\":\"known\",\"id\":\"%s\",\"case\":\"%s:%ld\",\"detail\":\"%s\"}\n", esc(id).c_str(),
                             section->name.c_str(), index, esc(detail.substr(0, 1500)).c_str());
        if (evaluated >= 200)
            flush(false);
    }
    flush(true);
    if (progress) { std::rewind(progress); std::fprintf(progress, "done                                        \n"); std::fclose(progress); }
    if (out != stdout) std::fclose(out);
    std::error_code ec;
    std::filesystem::remove_all(opt.scratch, ec);
    return 0;
}
#endif
