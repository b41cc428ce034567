// C12: training stops exactly on its criteria and evaluates on schedule
#define VH_MAIN
#include "gen.hpp"
#include <ctime>
#include <optional>
using namespace gen;
using namespace snn;

// the clock of the library: moved by the script only
static std::atomic<long long> virtualNs{-1}; // -1: the real one
static std::atomic<long long> adjustedNs{0};  // the date can be set while the time passes
static long long clockNow(clockid_t id)
{
    const long long v = virtualNs;
    if (v >= 0) return id == CLOCK_REALTIME ? v + adjustedNs : v;
    timespec t;
    clock_gettime(id, &t);
    return t.tv_sec * 1000000000LL + t.tv_nsec;
}
extern "C" long long _ZNSt6chrono3_V212system_clock3nowEv() { return clockNow(CLOCK_REALTIME); }
extern "C" long long _ZNSt6chrono3_V212steady_clock3nowEv() { return clockNow(CLOCK_MONOTONIC); }

namespace
{
    struct Atom { int kind; double v; }; // 0 epochs, 1 accuracy, 2 mae, 3 ms

    Wait one(const Atom& a, Rng& r)
    {
        switch (a.kind)
        {
        case 0: return operator""_ep(static_cast<unsigned long long>(a.v));
        case 1: return operator""_acc(static_cast<long double>(a.v));
        case 2: return operator""_mae(static_cast<long double>(a.v));
        default:
        {
            const auto ms = static_cast<unsigned long long>(a.v);
            if (ms % 60000 == 0 && r.chance(0.5)) return operator""_min(ms / 60000);
            if (ms % 1000 == 0 && r.chance(0.7)) return operator""_s(ms / 1000);
            return operator""_ms(ms);
        }
        }
    }

    std::string text(const vector<Atom>& v, bool all)
    {
        static const char* n[] = {"_ep", "_acc", "_mae", "_ms"};
        std::string s;
        for (auto& a : v) s += (s.empty() ? "" : all ? " && " : " || ") + vh::str(a.v, n[a.kind]);
        return s;
    }

    struct GiveUp {}; // ends a training that does not stop

    struct Monitor : spy::Script
    {
        vh::Ctx* c = nullptr;
        const DataSpec* spec = nullptr;
        std::string what;
        Rng rng{1};
        vector<Atom> atoms;
        bool all = false;
        int freq = 1, batch = 1, perEpoch = 1;
        bool moveClock = true, slow = false;
        long long stepMs = 0;
        // the plan: right answers and error of the others at each evaluation
        vector<std::pair<int, double>> plan;
        // observed
        long long start = 0;
        int evaluation = 0;   // done in this training
        int tested = 0;       // in the evaluation in progress
        int epoch = 0, step = 0; // complete epochs, steps of the epoch in progress
        bool expectEvaluation = false, evaluatedPartial = false;
        double accuracy = -1, mae = -1;
        long steps = 0, learned = 0;
        bool metAtLastStep = false;
        std::atomic<bool> everMet{false};

        bool met() const
        {
            const double ms = static_cast<double>((virtualNs.load() - start) / 1000000);
            bool any = false, every = true;
            for (auto& a : atoms)
            {
                const bool m = a.kind == 0 ? epoch >= a.v : a.kind == 1 ? accuracy >= static_cast<float>(a.v) : a.kind == 2 ? mae >= 0 && mae <= static_cast<float>(a.v) : ms >= a.v;
                any |= m;
                every &= m;
            }
            return all ? every : any;
        }
        std::string state() const
        {
            return vh::str(what, ": ", epoch, " epochs and ", step, " steps, ", evaluation, " evaluations, accuracy ", accuracy, ", MAE ", mae, ", ", (virtualNs.load() - start) / 1000000, " ms");
        }
        void begin()
        {
            start = virtualNs;
            evaluation = tested = epoch = step = 0;
            steps = learned = 0;
            accuracy = mae = -1;
            expectEvaluation = freq > 0;
            everMet = metAtLastStep = false;
        }
        void tick()
        {
            if (moveClock && rng.chance(0.5)) virtualNs += static_cast<long long>(rng.unit() * 1e6 * static_cast<double>(stepMs));
            if (rng.chance(0.01)) adjustedNs = 1000000LL * rng.range(-100'000'000, 100'000'000);
            if (slow && rng.chance(0.05)) usleep(30);
        }
        vector<float> output(const vector<float>&, bool, bool training) override
        {
            const auto nOut = static_cast<size_t>(spec->nOut);
            if (training)
            {
                if (tested != 0) c->fail("evaluation-incomplete", state());
                if (expectEvaluation) { c->fail("evaluation-missing", state() + ": an epoch starts without the evaluation that was due"); expectEvaluation = false; }
                if (step == perEpoch) { step = 0; }
                if (met() && !everAllowed) c->fail("stop-late", state() + ": a step is trained although the criteria are met");
                if (!everAllowed && c->failed()) throw GiveUp{};
                ++steps;
                if (++step == perEpoch)
                {
                    step = 0;
                    ++epoch;
                    expectEvaluation = freq > 0 && epoch % freq == 0;
                }
                tick();
                metAtLastStep = step > 0 && met();
                if (met()) everMet = true;
                return vector<float>(nOut, 0.0f);
            }
            // an evaluation
            if (tested == 0)
            {
                // the epoch that was stopped may be evaluated, when its number is on schedule
                const bool partial = (everAllowed ? stopping.load() : step > 0 && met()) && freq > 0 && (epoch + 1) % freq == 0;
                if (!expectEvaluation && !partial) c->fail("evaluation-unwanted", state() + ": an evaluation that is not on schedule");
                expectEvaluation = false;
            }
            const auto& p = plan[std::min(static_cast<size_t>(evaluation), plan.size() - 1)];
            const auto& t = spec->outT[static_cast<size_t>(tested)];
            vector<float> y = t;
            if (tested >= p.first)
                y[0] += static_cast<float>(p.second);
            tick();
            if (++tested == static_cast<int>(spec->outT.size()))
            {
                const double n = static_cast<double>(tested);
                tested = 0;
                ++evaluation;
                accuracy = static_cast<float>(p.first) / static_cast<float>(n);
                mae = static_cast<float>(p.second) * (n - p.first) / n;
            }
            if (met()) everMet = true;
            return y;
        }
        void train(const vector<float>&) override { ++learned; }
        std::atomic<bool> stopping{false};
        bool everAllowed = false; // asynchronous: nobody has to stop at once
    };

    void prepare(Rng& r, Monitor& m, DataSpec& spec)
    {
        // few tests and errors that are exact in float
        spec = DataSpec{};
        spec.p = problem::regression;
        spec.precision = 0.125f;
        spec.nIn = 2;
        spec.nOut = r.range(1, 2);
        spec.n = r.chance(0.6) ? nature::nonTemporal : nature::timeSeries;
        const int n = r.sized(2, 7, 150), t = r.chance(0.02) ? 64 : r.pick(vector<int>{1, 2, 4});
        if (spec.n == nature::timeSeries) spec.recurrences = 1;
        for (int i = 0; i < n; ++i) { spec.in.push_back(genInput(r, 2)); spec.out.push_back(vector<float>(static_cast<size_t>(spec.nOut), 0.5f)); }
        for (int i = 0; i < std::max(t, spec.recurrences + 1); ++i) { spec.inT.push_back(genInput(r, 2)); spec.outT.push_back(vector<float>(static_cast<size_t>(spec.nOut), static_cast<float>(r.range(-2, 2)) * 0.5f)); }
        m.spec = &spec;
        m.rng = Rng(r.next());
    }

    void plan(Rng& r, Monitor& m)
    {
        m.plan.clear();
        const int t = static_cast<int>(m.spec->outT.size());
        for (int i = 0; i < 12; ++i) m.plan.emplace_back(r.range(0, t), 0.25 * r.range(1, 8));
    }

    Atom atom(Rng& r, const Monitor& m, bool scores, bool clock, bool huge = false)
    {
        vector<int> k{0, 0};
        if (scores) { k.push_back(1); k.push_back(2); }
        if (clock) k.push_back(3);
        switch (r.pick(k))
        {
        case 0: if (huge && r.chance(0.03)) return {0, r.pick(vector<double>{2147483647.0, 2147483648.0, 4294967296.0, 4294967297.0, 1e15, 1.8e19})}; // only with another criterion
            return {0, r.chance(0.03) ? 0.0 : static_cast<double>(r.sized(1, 9, 120, 0.01))};
        case 1: return {1, r.chance(0.05) ? 0.0 : static_cast<double>(r.range(1, 4)) * 0.25};
        case 2: return {2, r.chance(0.1) ? 0.0 : 0.125 * r.range(1, 9)};
        default:
            if (huge && r.chance(0.03)) return {3, 60000.0 * r.range(20 * 1440, 200 * 1440)}; // months
            if (huge && r.chance(0.02)) return {3, r.pick(vector<double>{2147483648.0 * 60000, 9223372036854e6, 9223372036854774784.0, 1.8e19})};
            return {3, r.chance(0.03) ? 0.0 : r.chance(0.2) ? 60000.0 * r.range(1, 2) : r.chance(0.3) ? 1000.0 * r.range(1, 30) : static_cast<double>(r.range(1, 3000))};
        }
        (void)m;
    }
}

static void syncCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Monitor m;
    m.c = &c;
    DataSpec spec;
    prepare(r, m, spec);
    const spy::Registered reg(m);
    auto net = spy::network(reg, spec.nIn, spec.nOut);
    auto data = spec.make();
    virtualNs = 1000000000LL * r.range(200'000'000, 2000000000);
    std::optional<Wait> given; // the criteria of the previous training
    for (int run = r.range(1, 3); run > 0; --run)
    {
        const bool again = given && r.chance(0.2);
        if (!again) m.freq = r.pick(vector<int>{0, 1, 1, 2, 3});
        m.batch = spec.n == nature::nonTemporal && r.chance(0.4) ? r.range(1, static_cast<int>(spec.in.size())) : 1;
        m.perEpoch = static_cast<int>(spec.in.size()) / m.batch;
        const auto atoms = m.atoms;
        const bool all = m.all;
        m.all = r.chance(0.5);
        m.atoms.clear();
        plan(r, m);
        const int n = r.range(1, 4);
        bool longClock = false, ends = false;
        double longest = 0;
        const auto never = [](const Atom& a) { return (a.kind == 0 && a.v > 1e9) || (a.kind == 3 && a.v > 1e13); };
        for (int i = 0; i < n; ++i)
        {
            m.atoms.push_back(atom(r, m, m.freq > 0, true, true));
            // what is never met must be one of several
            if (never(m.atoms.back()) && (m.all || (i == n - 1 && !ends))) { m.atoms.back() = {0, 2}; }
            ends |= !never(m.atoms.back());
            longClock |= m.atoms.back().kind == 3 && m.atoms.back().v > 3000;
            if (m.atoms.back().kind == 3 && !never(m.atoms.back())) longest = std::max(longest, m.atoms.back().v);
        }
        if (again)
        {
            m.atoms = atoms;
            m.all = all;
            longest = 0;
            longClock = false;
            for (auto& a : atoms) if (a.kind == 3 && !never(a)) { longest = std::max(longest, a.v); longClock |= a.v > 3000; }
            c.count("criteria given again");
        }
        if (longest > 1e9) c.count("durations of months");
        if (std::any_of(m.atoms.begin(), m.atoms.end(), never)) c.count("criteria that are never met");
        // a training that must end: the last evaluation of the plan reaches everything
        m.plan.emplace_back(static_cast<int>(spec.outT.size()), 0.25);
        m.stepMs = longest > 1e9 ? static_cast<long long>(longest / 15) : longClock ? 4000 : r.pick(vector<int>{20, 200, 1000});
        Wait w = one(m.atoms[0], r);
        for (size_t i = 1; i < m.atoms.size(); ++i)
        {
            if (i + 1 < m.atoms.size() && r.chance(0.3)) // (a || b) || (c || d)
            {
                Wait right = one(m.atoms[i], r);
                right = m.all ? right && one(m.atoms[i + 1], r) : right || one(m.atoms[i + 1], r);
                w = m.all ? w && right : w || right;
                ++i;
                continue;
            }
            w = m.all ? w && one(m.atoms[i], r) : w || one(m.atoms[i], r);
        }
        if (r.chance(0.3)) // criteria used in others stay what they are
        {
            Wait other = one(atom(r, m, true, true), r);
            (void)(m.all ? w && other : w || other);
            (void)(m.all ? other && w : other || w);
            c.count("criteria used in others");
        }
        if (again) w = *given;
        given = w;
        m.what = vh::str(again ? "again " : "", text(m.atoms, m.all), ", ", spec.in.size(), " data, batch ", m.batch, ", frequency ", m.freq, spec.n == nature::timeSeries ? ", time series" : "");
        m.begin();
        const auto before = net->getNumberOfTraining();
        try { net->train(*data, *given, m.batch, m.freq); } catch (const GiveUp&) {}
        if (c.failed()) break;
        if (!m.met() && !m.metAtLastStep) c.fail("stop-early", m.state() + ": the training stopped although the criteria are not met");
        if (m.step == 0 && m.expectEvaluation) c.fail("evaluation-missing", m.state() + ": the training ended without the evaluation that was due");
        if (net->isTraining()) c.fail("stop-state", m.state() + ": still training");
        if (net->getNumberOfTraining() - before != m.learned) c.fail("training-counter", vh::str(m.state(), ": ", net->getNumberOfTraining() - before, " trainings reported for ", m.learned));
        const int e = net->getCurrentEpoch();
        if (m.step == 0 ? e != m.epoch + 1 : e != m.epoch + 1 && e != m.epoch + 2) c.fail("current-epoch", vh::str(m.state(), ": current epoch ", e));
        if (m.evaluation && (net->getGlobalClusteringRate() != static_cast<float>(m.accuracy) || std::abs(net->getMeanAbsoluteError() - m.mae) > 1e-6)) c.count("scores not exact");
        c.count("trainings observed");
        c.count("evaluations observed", m.evaluation);
        c.count("steps observed", m.steps);
        if (m.step) c.count("trainings stopped inside an epoch");
        for (auto& a : m.atoms) c.count(vh::str("criteria of kind ", a.kind));
        c.nontrivial(vh::hashStr(m.what + std::to_string(m.epoch) + "." + std::to_string(m.step)));
        c.sample(m.state());
        if (c.failed()) break;
    }
    virtualNs = -1;
}

static void asyncCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Monitor m;
    m.c = &c;
    m.everAllowed = true;
    m.slow = true;
    DataSpec spec;
    prepare(r, m, spec);
    const spy::Registered reg(m);
    auto net = spy::network(reg, spec.nIn, spec.nOut);
    auto data = spec.make();
    virtualNs = 1000000000LL;
    for (int run = r.range(1, 3); run > 0; --run)
    {
        m.freq = r.pick(vector<int>{1, 1, 2, 3});
        m.batch = spec.n == nature::nonTemporal && r.chance(0.4) ? r.range(1, static_cast<int>(spec.in.size())) : 1;
        m.perEpoch = static_cast<int>(spec.in.size()) / m.batch;
        m.all = r.chance(0.5);
        m.atoms.clear();
        plan(r, m);
        m.plan.emplace_back(static_cast<int>(spec.outT.size()), 0.25);
        for (int i = r.range(1, 3); i > 0; --i) m.atoms.push_back(atom(r, m, true, true));
        m.stepMs = 4000;
        Wait w = one(m.atoms[0], r);
        for (size_t i = 1; i < m.atoms.size(); ++i)
            w = m.all ? w && one(m.atoms[i], r) : w || one(m.atoms[i], r);
        m.what = vh::str("waitFor ", text(m.atoms, m.all), ", batch ", m.batch, ", frequency ", m.freq);
        m.begin();
        const auto before = net->getNumberOfTraining();
        net->startTrainingAsync(*data, m.batch, m.freq);
        // the clock of the wait starts here, later than the one of the monitor: only a wait that is too short is an error
        net->waitFor(w);
        const bool was = m.everMet || m.met();
        m.stopping = true;
        net->stopTrainingAsync();
        m.stopping = false;
        // the criteria on scores may have been met by the scores of the previous training, before the first evaluation
        const bool scores = std::any_of(m.atoms.begin(), m.atoms.end(), [](const Atom& a) { return a.kind == 1 || a.kind == 2; });
        if (!was && !(scores && before > 0)) c.fail("wait-early", m.state() + ": the wait ended although the criteria were never met");
        if (net->isTraining()) c.fail("stop-state", m.state() + ": still training");
        if (net->getNumberOfTraining() - before != m.learned) c.fail("training-counter", vh::str(m.state(), ": ", net->getNumberOfTraining() - before, " trainings reported for ", m.learned));
        c.count("waits observed");
        c.nontrivial(vh::hashStr(m.what));
        c.sample(m.state());
        if (c.failed()) break;
    }
    virtualNs = -1;
}

// || with && is rejected wherever it is
static void mixingCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Monitor m;
    struct Node { Wait w; int op; bool bad; std::string s; };
    std::function<Node(int)> tree = [&](int depth) -> Node {
        if (depth == 0 || r.chance(0.25))
        {
            const auto a = atom(r, m, true, true);
            return {one(a, r), 0, false, text({a}, false)};
        }
        auto a = tree(depth - 1);
        if (a.bad) return a;
        auto b = tree(depth - 1);
        if (b.bad) return b;
        const int op = r.range(1, 2);
        const bool wrong = (a.op && a.op != op) || (b.op && b.op != op);
        const std::string s = "(" + a.s + (op == 1 ? " || " : " && ") + b.s + ")";
        Wait both;
        const auto same = [](const Wait& x, const Wait& y) { return x.epochs == y.epochs && x.accuracy == y.accuracy && x.mae == y.mae && x.duration == y.duration && x.op == y.op; };
        const Wait left = a.w, right = b.w;
        const bool thrown = vh::throws([&] { both = op == 1 ? a.w || b.w : a.w && b.w; });
        if (!same(left, a.w) || !same(right, b.w)) c.fail("criteria-changed", s + " changes the criteria it combines");
        if (thrown != wrong) c.fail(wrong ? "mixing-accepted" : "mixing-rejected", s);
        c.count(wrong ? "mixed criteria rejected" : "criteria combined");
        return {both, op, wrong, s};
    };
    for (int i = 0; i < 20; ++i)
        c.nontrivial(vh::hashStr(tree(r.range(1, 3)).s));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"sync", 12000, 120000, syncCase},
        {"async", 300, 3000, asyncCase},
        {"mixing", 300, 3000, mixingCase},
    });
}
