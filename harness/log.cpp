// C28: the progress log says what happens and changes nothing
#define VH_MAIN
#include <unistd.h>
#include <fcntl.h>
#include <regex>
#include "tap.hpp"
using namespace gen;
namespace fs = std::filesystem;

namespace
{
    constexpr bool LOUD = snn::verbose != snn::none;

    // Everything printed on the console while it lives; a monitor sees each line while it is printed.
    struct Console : std::streambuf
    {
        std::mutex m;
        std::map<std::thread::id, std::string> lines; // the texts of two threads may be mixed on the console
        std::function<void(const std::string&, bool)> monitor; // a complete line, or a progress that the next text writes over
        std::streambuf* before;

        Console() : before(std::cout.rdbuf(this)) {}
        ~Console() override { std::cout.rdbuf(before); }

        int_type overflow(int_type ch) override
        {
            std::lock_guard l(m);
            auto& line = lines[std::this_thread::get_id()];
            if (ch == traits_type::eof()) return 0;
            if (ch == '\n')
            {
                if (monitor) monitor(line, true);
                line.clear();
            }
            else
            {
                if (ch == '\r') line.clear(); // what is on the line is written over
                else line += static_cast<char>(ch);
            }
            return ch;
        }
        int sync() override
        {
            std::lock_guard l(m);
            auto& line = lines[std::this_thread::get_id()];
            if (line.ends_with('s') && line.find(" in progress... ") != std::string::npos)
            {
                if (monitor) monitor(line, false);
                line.clear(); // the text that follows is another one, it is put on the same line
            }
            return 0;
        }
    };

    std::string padded(std::string s, size_t n) { return s.size() < n ? std::string(n - s.size(), ' ') + s : s; }
    std::string number(float v, int digits)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.*f", digits, static_cast<double>(v));
        return b;
    }
    bool finite(float v) { return (std::bit_cast<uint32_t>(v) & 0x7F800000u) != 0x7F800000u; }

    struct Monitor
    {
        vh::Ctx& c;
        SNN& net;
        std::string text, path;
        bool automatic = false;
        long starts = 0, stops = 0, nan = 0, evaluations = 0, progresses = 0, threads = 0, closed = 0, others = 0, saved = 0;
        int lastEpoch = 0;
        const Data* data = nullptr;
        std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();

        double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count(); }
        bool time(const std::string& t) const
        {
            const auto s = t.substr(t.find_first_not_of(' '));
            char* end = nullptr;
            const double v = std::strtod(s.c_str(), &end);
            return std::string(end) == "s" && v >= 0 && v <= elapsed() + 1;
        }
        void see(const std::string& l, bool newLine)
        {
            const std::string prefix = "Epoch: " + padded(std::to_string(net.getCurrentEpoch()), 2) + " - ";
            if (!newLine)
            {
                const auto p = l.find(" in progress... ");
                if (p == std::string::npos) return;
                ++progresses;
                const bool evaluation = l.find("Evaluation") != std::string::npos;
                const auto size = data->sets[evaluation ? snn::testing : snn::training].size;
                const auto expected = prefix + (evaluation ? "Evaluation" : "Training  ") + " in progress... "
                    + padded(std::to_string(static_cast<int>(static_cast<float>(net.getCurrentIndex()) / static_cast<float>(size) * 100)), 2) + "% - Time: ";
                if (l.substr(0, expected.size()) != expected || !time(l.substr(expected.size())))
                    c.fail("log-progress", text + ": '" + l + "' instead of '" + expected + "'");
                return;
            }
            if (l == "Start training") ++starts;
            else if (l == "Stop training") ++stops;
            else if (l == "A NaN value has been detected") ++nan;
            else if (l == "Start a new thread") ++threads;
            else if (l == "Thread closed") ++closed;
            else if (l == "Data loaded") {}
            else if (l.starts_with("Epoch"))
            {
                ++evaluations;
                lastEpoch = net.getCurrentEpoch();
                const auto expected = prefix + "Accuracy: " + padded(number(net.getGlobalClusteringRate(), 2), 4) + " - MAE: " + padded(number(net.getMeanAbsoluteError(), 4), 7) + " - Time: ";
                const bool written = fs::exists(path);
                if (written) fs::remove(path);
                auto rest = l.size() > expected.size() ? l.substr(expected.size()) : "";
                const bool says = rest.ends_with(" - Saved");
                if (says) rest.resize(rest.size() - 8);
                if (l.substr(0, expected.size()) != expected || rest.find_first_not_of(' ') == std::string::npos || !time(rest))
                    c.fail("log-evaluation", text + ": '" + l + "' instead of '" + expected + "'");
                if (says != written) c.fail("log-saved", vh::str(text, ": '", l, "' but the file was ", written ? "" : "not ", "written"));
                saved += written;
            }
            else
                c.fail("log-unknown", text + ": '" + l + "'");
        }
    };
}

// the lines of trainings and evaluations
static void evaluations(vh::Ctx& c)
{
    if constexpr (!LOUD) { c.count("skipped"); return; }
    auto& r = c.rng;
    GenOptions go;
    go.maxX = 4;
    go.maxLayers = 2;
    go.lastOutputs = r.range(1, 4);
    const Arch a = ref::gen(r, go);
    auto net = build(a);
    if (r.chance(0.5)) setRandomWeights(r, *net, a, r.chance(0.2) ? 50.0f : 1.0f);
    auto spec = gen::data(r, prod(a.in), go.lastOutputs, 8);
    auto data = spec.make();
    Monitor m{c, *net, str(a) + " on " + spec.str(), c.scratch() + "/auto.snn"};
    m.data = data.get();
    net->autoSaveFilePath = m.path;
    bool failed = false;
    for (int i = r.range(1, 4); i > 0 && !failed; --i)
    {
        net->autoSaveWhenBetter = r.chance(0.5);
        const int freq = r.pick(vector<int>{0, 1, 1, 2, 3}), n = r.range(1, r.chance(0.2) ? 15 : 5), batch = spec.n == nature::nonTemporal ? r.range(1, std::min(2, static_cast<int>(spec.in.size()))) : 1;
        const bool wasNan = net->hasNan();
        const auto e = m.evaluations, s = m.starts, z = m.stops, t = m.threads, k = m.closed;
        const int kind = r.below(4);
        m.text += kind == 0 ? "; evaluate" : vh::str(kind == 1 ? "; async " : "; train ", n, " frequency ", freq, " batch ", batch);
        Console console;
        console.monitor = [&](const std::string& l, bool newLine) { m.see(l, newLine); };
        try
        {
            if (kind == 0) net->evaluate(*data);
            else if (kind == 1)
            {
                net->startTrainingAsync(*data, batch, freq);
                net->waitFor(epochs(r.range(1, n)));
                net->stopTrainingAsync();
            }
            else net->train(*data, epochs(n), batch, freq);
        }
        catch (const std::exception& x) { c.fail("log-exception", m.text + ": " + x.what()); return; }
        if (wasNan || net->hasNan()) { c.count("trainings with NaN"); m.path = c.scratch() + "/none"; failed = true; continue; }
        if (kind == 0)
        {
            if (m.evaluations != e + 1 || m.starts != s) c.fail("log-count", vh::str(m.text, ": ", m.evaluations - e, " lines for an evaluation"));
        }
        else if (kind == 1)
        {
            if (m.starts != s + 1 || m.stops < z + 1 || m.threads != t + 1 || m.closed != k + 1)
                c.fail("log-count", vh::str(m.text, ": ", m.starts - s, " starts, ", m.stops - z, " stops, ", m.threads - t, " threads started and ", m.closed - k, " closed"));
        }
        else
        {
            const long expected = freq > 0 ? 1 + n / freq : 0;
            if (m.evaluations != e + expected || m.starts != s + 1 || m.stops != z + 1)
                c.fail("log-count", vh::str(m.text, ": ", m.evaluations - e, " evaluations instead of ", expected, ", ", m.starts - s, " starts, ", m.stops - z, " stops"));
        }
        if (c.failed()) return;
    }
    if (m.nan != 0 && !net->hasNan()) c.fail("log-nan", m.text + ": a NaN is announced but the network has none");
    c.count("evaluation lines compared", m.evaluations);
    c.count("saved lines compared", m.saved);
    c.nontrivial(vh::hashStr(m.text));
    c.sample(m.text);
}

namespace
{
    using Clock = std::chrono::steady_clock;

    // a progress is due once 100 ms passed since the last text with a time
    struct Slow : spy::Script
    {
        vh::Ctx* c = nullptr;
        int micro = 0;
        vector<float> y;
        std::string text;
        Clock::time_point end = Clock::now();   // of the last presentation
        Clock::time_point printed = Clock::now(), before = Clock::now(); // the last text was printed between these
        bool any = false, first = true;

        void print(bool progress)
        {
            const auto now = Clock::now();
            if (progress && now - before < std::chrono::milliseconds(99))
                c->fail("log-progress", text + ": a progress is printed less than 100 ms after the last text");
            printed = now;
            before = end;
            any = true;
        }
        void judge()
        {
            if (!any && end - printed > std::chrono::milliseconds(101)) c->fail("log-progress", text + ": no progress is printed although 100 ms passed");
            any = false;
        }
        vector<float> output(const vector<float>&, bool, bool) override
        {
            if (first) end = printed = Clock::now(); // after the start of the clock of the training
            else judge();
            first = false;
            std::this_thread::sleep_for(std::chrono::microseconds(micro));
            end = Clock::now();
            return y;
        }
    };
}

// the progress inside long epochs and evaluations
static void progressCase(vh::Ctx& c)
{
    if constexpr (!LOUD) { c.count("skipped"); return; }
    auto& r = c.rng;
    Slow slow;
    slow.c = &c;
    slow.micro = r.range(500, 30000);
    auto spec = gen::data(r, 1, 1, 60, 0);
    slow.y = {0.5f};
    const spy::Registered reg(slow);
    auto net = spy::network(reg, 1, 1);
    auto data = spec.make();
    slow.text = vh::str("slow network, ", slow.micro, " us, on ", spec.str());
    Monitor m{c, *net, slow.text, c.scratch() + "/auto.snn"};
    m.data = data.get();
    snn::Wait w;
    w.duration = r.range(500, 1500);
    Console console;
    console.monitor = [&](const std::string& l, bool newLine) { m.see(l, newLine); if (!newLine || l.starts_with("Epoch")) slow.print(!newLine); };
    slow.end = slow.printed = slow.before = Clock::now();
    net->train(*data, w, 1, r.pick(vector<int>{0, 1, 1, 2, 5}));
    c.count("progress lines compared", m.progresses);
    c.nontrivial(vh::hashStr(m.text));
}

// at the default level nothing is printed
static void silence(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxX = 4;
    go.lastOutputs = r.range(1, 3);
    const auto path = c.scratch() + "/console";
    std::cout.flush();
    std::fflush(nullptr);
    const int file = open(path.c_str(), O_CREAT | O_RDWR, 0600), out = dup(1), err = dup(2);
    dup2(file, 1);
    dup2(file, 2);
    std::string text;
    try
    {
        const Arch a = ref::gen(r, go);
        auto net = build(a);
        auto spec = gen::data(r, prod(a.in), go.lastOutputs, 8);
        auto data = spec.make();
        text = str(a) + " on " + spec.str();
        net->autoSaveFilePath = c.scratch() + "/auto.snn";
        net->autoSaveWhenBetter = r.chance(0.5);
        for (int i = r.range(1, 6); i > 0; --i)
        {
            const auto step = r.below(10);
            text += vh::str(" ", step);
            switch (step)
            {
            case 0: net->evaluate(*data); break;
            case 1: net->train(*data, epochs(r.range(1, 3)), 1, r.below(3)); break;
            case 2: net->startTrainingAsync(*data, 1, r.below(3)); net->waitFor(epochs(r.range(1, 2))); net->stopTrainingAsync(); break;
            case 3: { SNN copy(*net); (void)(copy == *net); break; }
            case 4: net->saveAs(c.scratch() + "/s.snn"); delete &SNN::loadFrom(c.scratch() + "/s.snn"); break;
            case 5: (void)net->summary(); break;
            case 6: (void)net->computeOutput(spec.in[0]); (void)net->computeCluster(spec.in[0]); break;
            case 7: vh::throws([&] { net->computeOutput({}); }); break;
            case 8: data->normalize(-1, 1); break;
            default:
                if (r.chance(0.3)) net->trainOnce(vector<float>(spec.in[0].size(), std::numeric_limits<float>::quiet_NaN()), spec.out[0], true);
                vh::throws([&] { delete &SNN::loadFrom(c.scratch() + "/missing.snn"); });
            }
        }
    }
    catch (const std::exception& e) { text += std::string(" exception ") + e.what(); }
    std::cout.flush();
    std::cerr.flush();
    std::fflush(nullptr);
    dup2(out, 1);
    dup2(err, 2);
    close(out);
    close(err);
    const auto size = lseek(file, 0, SEEK_END);
    close(file);
    std::ifstream f(path);
    std::string first;
    std::getline(f, first);
    if (size != 0) c.fail("log-silence", vh::str(text, ": ", size, " bytes are printed, first: ", first));
    c.count("silent histories");
    c.nontrivial(vh::hashStr(text));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"evaluations", 1500, 15000, evaluations},
        {"progress", 16, 160, progressCase},
        {"silence", 2000, 20000, silence},
    });
}
