// long lives: tens of thousands of data, epochs, evaluations, steps, restarts
#define VH_MAIN
#include "gen.hpp"
using namespace gen;
using spy::Registered;
using spy::Scores;
using spy::Script;

namespace
{
    // the input of a data is its number plus one, its target the opposite
    struct Numbered
    {
        vector<vector<float>> in, out;
        explicit Numbered(int n)
        {
            for (int i = 1; i <= n; ++i)
            {
                in.push_back({static_cast<float>(i)});
                out.push_back({static_cast<float>(-i)});
            }
        }
    };
    struct Seen { float in, target; bool reset, training, learned; };
    struct Recorder : Script
    {
        vector<Seen> log;
        vector<float> output(const vector<float>& in, bool reset, bool training) override
        {
            log.push_back({in[0], 0, reset, training, false});
            return {0.0f};
        }
        void train(const vector<float>& e) override
        {
            log.back().learned = true;
            log.back().target = e[0] / 2;
        }
    };
    int many(Rng& r) { return r.chance(0.5) ? r.range(65'600, 140'000) : r.range(5'000, 60'000); }
}

// C10, C11
static void rows(vh::Ctx& c, nature kind)
{
    auto& r = c.rng;
    const int batch = kind == nature::nonTemporal && r.chance(0.5) ? r.pick(vector<int>{2, 3, 256, 300, 5000}) : 1;
    const int n = kind == nature::nonTemporal ? many(r) / batch * batch + r.below(batch) : many(r);
    const int window = kind == nature::timeSeries ? 1 + r.pick(vector<int>{1, 2, 9, r.range(100, 2000), r.range(3000, n - 2)}) : 1;
    vector<int> starts;
    if (kind == nature::sequential)
    {
        const int longest = r.pick(vector<int>{1, 3, 500, 30'000});
        for (int i = 0; i < n; i += r.range(1, longest)) starts.push_back(i);
    }
    starts.push_back(n);
    Numbered d(n);
    std::unique_ptr<Data> data;
    if (kind == nature::sequential)
    {
        vector<vector<vector<float>>> s;
        for (size_t q = 0; q + 1 < starts.size(); ++q) s.push_back({d.in.begin() + starts[q], d.in.begin() + starts[q + 1]});
        data = std::make_unique<Data>(problem::regression, s, d.out, kind);
    }
    else
    {
        auto in = d.in;
        data = std::make_unique<Data>(problem::regression, in, d.out, kind, kind == nature::timeSeries ? window - 1 : 0);
    }
    Recorder rec;
    const Registered reg(rec);
    auto net = spy::network(reg, 1, 1);
    const int e = r.range(1, 2);
    net->train(*data, epochs(e), batch, 1);
    const std::string what = vh::str(n, " data, ", kind == nature::timeSeries ? vh::str("windows of ", window) : kind == nature::sequential ? vh::str(starts.size() - 1, " sequences") : vh::str("batch ", batch));
    const size_t steps = static_cast<size_t>(n / batch);
    if (rec.log.size() != static_cast<size_t>(n) * static_cast<size_t>(e + 1) + steps * static_cast<size_t>(e))
    { c.fail("long-epoch-size", vh::str(what, ": ", rec.log.size(), " presentations in ", e, " epochs")); return; }
    if (net->getNumberOfTraining() > e * n || (kind != nature::timeSeries && net->getNumberOfTraining() != static_cast<long long>(steps) * e))
        c.fail("long-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings in ", e, " epochs"));
    size_t at = 0;
    vector<float> previous;
    for (int epoch = 0; epoch <= e; ++epoch)
    {
        if (epoch > 0)
        {
            // an epoch
            vector<char> seen(static_cast<size_t>(n) + 1, 0);
            vector<float> order;
            double sum = 0;
            std::set<vector<int>> runs;
            int run = 0, learned = 0;
            for (size_t i = 0; i < steps; ++i, ++at)
            {
                const auto& s = rec.log[at];
                const auto tell = [&](const char* k) { c.fail(k, vh::str(what, ", epoch ", epoch, " step ", i, ": input ", s.in, " target ", s.target, " reset ", s.reset, " learned ", s.learned)); };
                if (!s.training || (!s.learned && kind != nature::timeSeries)) { tell("long-presentation"); return; }
                order.push_back(s.in);
                if (batch > 1)
                {
                    if (!(std::abs(s.in + s.target) <= 2e-5f * static_cast<float>(n)) || !s.reset) { tell("long-target"); return; }
                    sum += static_cast<double>(s.in) * batch;
                    continue;
                }
                const int id = static_cast<int>(s.in) - 1;
                if (id < 0 || id >= n || s.in != static_cast<float>(id + 1) || seen[static_cast<size_t>(id)]++) { tell("long-repetition"); return; }
                if (s.learned && s.target != -s.in) { tell("long-target"); return; }
                learned += s.learned;
                if (kind == nature::nonTemporal && !s.reset) { tell("long-reset"); return; }
                if (kind == nature::sequential)
                {
                    const bool first = std::binary_search(starts.begin(), starts.end() - 1, id);
                    if (s.reset != first || (!first && (i == 0 || rec.log[at - 1].in != s.in - 1)) || (first && i > 0 && !std::binary_search(starts.begin(), starts.end(), static_cast<int>(rec.log[at - 1].in)))) { tell("long-sequence"); return; }
                }
                if (kind == nature::timeSeries)
                {
                    const int offset = (epoch - 1) % window; // of a first training
                    const bool inWindow = id >= offset && id < offset + (n - offset) / window * window;
                    const bool first = inWindow ? (id - offset) % window == 0 : id == 0;
                    // learned: the data before the first window, and the last data of each window
                    const bool learns = id < offset || (inWindow && (id - offset) % window == window - 1);
                    if (s.learned != learns || ((inWindow || id < offset) && s.reset != first)) { tell("long-window"); return; }
                    if (!first && (i == 0 || (rec.log[at - 1].in != s.in - 1 && (inWindow || id < offset)))) { tell("long-window"); return; }
                    ++run;
                }
            }
            if (batch > 1)
            {
                const double all = 0.5 * n * (n + 1.0), rest = static_cast<double>(n % batch) * n;
                if (sum > all * 1.00001 || sum < all * 0.99999 - rest) { c.fail("long-batch", vh::str(what, ": the sum of the data presented is ", sum, " instead of ", all)); return; }
            }
            const bool orders = kind == nature::nonTemporal || (kind == nature::sequential ? starts.size() > 20 : n / window > 20);
            if (orders && (order == previous || std::is_sorted(order.begin(), order.end()))) { c.fail("long-order", vh::str(what, ": the data are not shuffled")); return; }
            if (orders && kind == nature::nonTemporal && batch == 1)
            {
                // every tenth of the epoch sees data of every tenth
                vector<int> cells(100, 0);
                for (size_t i = 0; i < order.size(); ++i) ++cells[i * 10 / order.size() * 10 + static_cast<size_t>(static_cast<double>(order[i] - 1) * 10 / n)];
                for (size_t i = 0; i < 100; ++i)
                    if (cells[i] < n / 200 || cells[i] > n / 50) { c.fail("long-order", vh::str(what, ": the tenth ", i / 10, " of an epoch presents ", cells[i], " data of the tenth ", i % 10)); return; }
                c.count("tenths compared", 100);
            }
            previous = order;
            c.count("data of long epochs observed", static_cast<long>(steps));
            (void)run; (void)learned;
        }
        size_t next = 0;
        for (int i = 0; i < n; ++i, ++at)
        {
            const auto& s = rec.log[at];
            const bool first = kind == nature::nonTemporal || (kind == nature::sequential ? starts[next] == i : i == 0);
            if (kind == nature::sequential && first) ++next;
            if (s.training || s.learned || s.in != static_cast<float>(i + 1) || s.reset != first) { c.fail("long-evaluation", vh::str(what, ": the evaluation presents ", s.in, " at ", i, " with reset ", s.reset)); return; }
        }
        c.count("data of long evaluations observed", n);
    }
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C07: the auto save after hundreds of improvements and tens of thousands of evaluations
static void saves(vh::Ctx& c)
{
    struct Judge : Script
    {
        std::string path;
        int tests = 0, at = 0, right = 0, best = -1, first = 0;
        long evaluations = 0, improvements = 0, writes = 0;
        bool improved = false, pending = false, on = true;
        double rate = 0;
        Rng* r = nullptr;
        std::string bad;
        SNN* net = nullptr;
        void check()
        {
            if (!pending) return;
            pending = false;
            const bool written = std::filesystem::exists(path), expected = improved && on;
            if (written != expected) { if (bad.empty()) bad = vh::str("evaluation ", evaluations, ", improvement ", improvements, ": the file was ", written ? "" : "not ", "written"); }
            if (!written) return;
            if (++writes % 10 == 0)
            {
                std::unique_ptr<SNN> l;
                if (vh::throws([&] { l.reset(&SNN::loadFrom(path)); })) bad = "the file cannot be loaded";
                else if (l->isTraining() || l->getGlobalClusteringRateMax() != static_cast<float>(best) / static_cast<float>(tests)) bad = vh::str("the file of improvement ", improvements, " says ", l->getGlobalClusteringRateMax());
            }
            std::filesystem::remove(path);
        }
        vector<float> output(const vector<float>&, bool, bool training) override
        {
            check();
            if (training) return {0.0f};
            if (at == 0)
            {
                ++evaluations;
                right = best < tests && r->chance(rate) ? std::min(tests, best + 1) : r->below(std::max(1, best + 1));
                if (best < 0) right = first;
            }
            const bool good = at++ < right;
            if (at == tests)
            {
                at = 0;
                improved = right > best;
                improvements += improved;
                best = std::max(best, right);
                pending = true;
            }
            return {good ? 1.0f : 5.0f};
        }
    } s;
    auto& r = c.rng;
    s.r = &r;
    s.path = c.scratch() + "/long.snn";
    const int style = r.below(3); // many evaluations, many improvements, the smallest improvements
    s.tests = style == 0 ? r.range(1, 8) : style == 1 ? r.range(300, 700) : r.range(2000, 60'000);
    const int e = style == 0 ? many(r) : style == 1 ? r.range(1000, 3000) : r.range(20, 60);
    s.rate = style == 0 ? 8.0 / e : 0.5;
    s.first = style == 2 ? r.chance(0.5) ? s.tests - r.range(5, 20) : r.below(s.tests) : 0;
    vector<vector<float>> in(1, {1.0f}), out(1, {1.0f}), tin(static_cast<size_t>(s.tests), {1.0f}), tout(static_cast<size_t>(s.tests), {1.0f});
    Data data(problem::regression, in, out, tin, tout);
    const Registered reg(s);
    auto net = spy::network(reg, 1, 1);
    net->autoSaveFilePath = s.path;
    net->autoSaveWhenBetter = true;
    const auto what = vh::str(e, " epochs, ", s.tests, " testing data");
    const int parts = r.range(1, 3);
    for (int i = 0; i < parts; ++i)
    {
        net->train(data, epochs(e / parts), 1, 1);
        s.check();
    }
    if (s.evaluations != static_cast<long>(parts) * (e / parts + 1)) c.fail("long-autosave", vh::str(what, ": ", s.evaluations, " evaluations"));
    if (!s.bad.empty()) { c.fail("long-autosave", what + ": " + s.bad); return; }
    c.count("evaluations of long lives", s.evaluations);
    c.count("auto saves of long lives", s.writes);
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C10: the batches of many epochs are made of different data, and have their targets
static void batches(vh::Ctx& c)
{
    struct Watcher : Script
    {
        int n = 0, batch = 0, per = 0;
        long steps = 0, tested = 0;
        vector<char> seen, now;
        std::string bad;
        bool learned = true;
        vector<long> times; // how often each data was in a batch
        vector<float> output(const vector<float>& in, bool, bool training) override
        {
            if (!training) { ++tested; return {0.0f}; }
            if (!learned) bad = "a batch is not learned";
            learned = false;
            if (steps % per == 0) std::ranges::fill(seen, '\0');
            std::ranges::fill(now, '\0');
            int k = 0;
            for (int i = 0; i < n; ++i)
            {
                const float x = in[static_cast<size_t>(i)] * static_cast<float>(batch);
                if (std::abs(x) < 1e-3f) continue;
                if (std::abs(x - 1.0f) > 1e-3f) bad = vh::str("data ", i, " is ", x, " times in a batch");
                if (seen[static_cast<size_t>(i)]) bad = vh::str("data ", i, " is presented twice in an epoch");
                seen[static_cast<size_t>(i)] = now[static_cast<size_t>(i)] = 1;
                ++times[static_cast<size_t>(i)];
                ++k;
            }
            if (k != batch) bad = vh::str("a batch of ", k, " data");
            ++steps;
            return {0.0f};
        }
        void train(const vector<float>& e) override
        {
            learned = true;
            double target = 0;
            for (int i = 0; i < n; ++i)
                if (now[static_cast<size_t>(i)]) target += (i + 1.0) / batch;
            if (e.size() != 1 || std::abs(e[0] / 2 - target) > 1e-3 * target) bad = vh::str("the target is not ", target);
        }
    } s;
    auto& r = c.rng;
    const int n = s.n = r.range(2, 30);
    const int runs = r.range(1, 3);
    vector<vector<float>> in, out;
    for (int i = 0; i < n; ++i)
    {
        in.emplace_back(static_cast<size_t>(n), 0.0f).at(static_cast<size_t>(i)) = 1.0f;
        out.push_back({static_cast<float>(i + 1)});
    }
    Data data(problem::regression, in, out);
    s.seen.assign(static_cast<size_t>(n), 0);
    s.now = s.seen;
    s.times.assign(static_cast<size_t>(n), 0);
    const Registered reg(s);
    auto net = spy::network(reg, n, 1);
    std::string what;
    long total = 0;
    for (int run = 0; run < runs; ++run)
    {
        s.batch = r.range(1, n);
        s.per = n / s.batch;
        s.steps = s.tested = 0;
        std::ranges::fill(s.times, 0L);
        const int e = r.chance(0.7) ? r.range(20, 3000) : r.range(3000, 30'000), freq = r.pick(vector<int>{0, 0, 1, 7, 1000});
        what += vh::str(run ? ", then " : "", e, " epochs of ", n, " data, batch ", s.batch, ", evaluation frequency ", freq);
        net->train(data, epochs(e), s.batch, freq);
        total += s.steps;
        if (!s.bad.empty()) { c.fail("long-batches", what + ": " + s.bad); return; }
        if (s.steps != static_cast<long>(e) * s.per) { c.fail("long-batches", vh::str(what, ": ", s.steps, " batches presented instead of ", static_cast<long>(e) * s.per)); return; }
        if (net->getNumberOfTraining() != total) { c.fail("long-batches", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported instead of ", total)); return; }
        const long evaluations = freq ? 1 + e / freq : 0;
        if (s.tested != evaluations * n) { c.fail("long-batches", vh::str(what, ": ", s.tested, " data evaluated instead of ", evaluations * n)); return; }
        // those left out of an epoch are not always the same
        const double p = static_cast<double>(s.per) * s.batch / n, mean = p * e, sd = std::sqrt(e * p * (1 - p));
        for (int i = 0; i < n; ++i)
            if (std::abs(static_cast<double>(s.times[static_cast<size_t>(i)]) - mean) > 7 * sd + 1e-6) { c.fail("long-batches", vh::str(what, ": data ", i, " is presented ", s.times[static_cast<size_t>(i)], " times instead of ", mean)); return; }
        c.count("epochs of batches observed", e);
    }
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C10, C12: as many epochs as asked, all of them complete
static void epochsCase(vh::Ctx& c)
{
    struct Counter : Script
    {
        long presented = 0, tested = 0, evaluations = 0;
        int n = 0, tests = 0, freq = 0, next = 0;
        unsigned seen = 0;
        bool bad = false;
        vector<long> epochsOfEvaluations; // the number of epochs trained at each evaluation
        vector<float> output(const vector<float>& in, bool, bool training) override
        {
            if (!training)
            {
                bad |= presented % n != 0 || in[0] != static_cast<float>(tested % tests + 1);
                if (tested++ % tests == 0 && epochsOfEvaluations.size() < 1'000'000) epochsOfEvaluations.push_back(presented / n);
                return {0.0f};
            }
            if (presented % n == 0) seen = 0;
            const unsigned bit = 1u << static_cast<unsigned>(in[0]);
            bad |= (seen & bit) != 0;
            seen |= bit;
            ++presented;
            return {0.0f};
        }
    } s;
    auto& r = c.rng;
    s.n = r.range(1, 3);
    s.tests = r.range(1, 2);
    s.freq = r.pick(vector<int>{0, 1, 2, 300, 66'000});
    const int e = r.chance(0.4) ? r.range(200, 2000) : many(r);
    Numbered d(s.n), t(s.tests);
    Data data(problem::regression, d.in, d.out, t.in, t.out);
    const Registered reg(s);
    auto net = spy::network(reg, 1, 1);
    int already = 0;
    if (r.chance(0.5)) // not the first training
    {
        already = r.range(1, 300);
        net->train(data, epochs(already), 1, 0);
        if (s.bad || s.presented != already * s.n) c.fail("long-epochs", vh::str(already, " epochs of ", s.n, " data present ", s.presented, " data"));
        s.presented = 0;
    }
    snn::Wait w = epochs(e);
    if (r.chance(0.3)) w = w || snn::operator""_min(10000);
    if (r.chance(0.2)) w = w || epochs(e + 1);
    net->train(data, w, 1, s.freq);
    const auto what = vh::str(e, " epochs of ", s.n, " data, evaluation frequency ", s.freq);
    if (s.bad || s.presented != static_cast<long>(e) * s.n) c.fail("long-epochs", vh::str(what, ": ", s.presented, " presentations", s.bad ? ", not all the data once in each epoch" : ""));
    if (net->getNumberOfTraining() != static_cast<long long>(e + already) * s.n) c.fail("long-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported after ", already, " other epochs"));
    if (net->getCurrentEpoch() != e + 1) c.fail("long-count", vh::str(what, ": current epoch ", net->getCurrentEpoch()));
    if (s.freq > 0)
    {
        vector<long> expected{0};
        for (long i = s.freq; i <= e; i += s.freq) expected.push_back(i);
        if (s.epochsOfEvaluations != expected) c.fail("long-evaluations", vh::str(what, ": ", s.epochsOfEvaluations.size(), " evaluations instead of ", expected.size()));
    }
    else if (s.tested) c.fail("long-evaluations", vh::str(what, ": ", s.tested, " outputs asked by evaluations"));
    c.count("epochs of long trainings", e);
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C09: the best of very many evaluations
static void evaluations(vh::Ctx& c)
{
    struct One : Script
    {
        float y = 0;
        vector<float> output(const vector<float>&, bool, bool) override { return {y, 0.5f}; }
    } s;
    auto& r = c.rng;
    vector<vector<float>> in{{1.0f}}, out{{0.0f, 0.0f}};
    Data data(problem::regression, in, out);
    const Registered reg(s);
    auto net = spy::network(reg, 1, 2);
    const int n = many(r);
    const double drift = r.uniform(-1e-4, 1e-4);
    const Scores none{{-1, -1, -1, -1, -1}};
    Scores best = none;
    for (int i = 0; i < n; ++i)
    {
        s.y = static_cast<float>(std::abs(1.0 + drift * i + (r.chance(0.01) ? r.uniform(-0.9, 0.9) : 0)));
        net->evaluate(data);
        const auto now = Scores::of(*net);
        for (size_t k = 0; k < 5; ++k)
            if (best.v[k] < 0 || (k < 3 ? now.v[k] > best.v[k] : now.v[k] < best.v[k])) best.v[k] = now.v[k];
        if (!Scores::best(*net).same(best)) { c.fail("long-best", vh::str("after ", i + 1, " evaluations: best scores ", Scores::best(*net).str(), " instead of ", best.str())); return; }
        if (std::abs(now.v[3] - (s.y + 0.5f)) > 1e-6f * now.v[3]) { c.fail("long-scores", vh::str("evaluation ", i, ": MAE ", now.v[3], " instead of ", s.y + 0.5f)); return; }
    }
    c.count("evaluations of long lives", n);
    c.nontrivial(vh::mix(static_cast<vh::u64>(n)));
    c.sample(vh::str(n, " evaluations"));
}

// C15: the first special output after a long life
static void nanCase(vh::Ctx& c)
{
    struct Late : Script
    {
        long n = 0, at = 0, after = 0, learned = 0;
        float value = 0;
        vector<float> output(const vector<float>&, bool, bool) override
        {
            if (n > at) ++after;
            return {0.5f, n++ >= at ? value : 1.0f};
        }
        void train(const vector<float>&) override { if (n > at) ++learned; }
    } s;
    auto& r = c.rng;
    s.at = many(r);
    s.value = r.pick(vector<float>{NAN, INFINITY, -INFINITY});
    vector<vector<float>> in(3, {1.0f}), out(3, {0.0f, 0.0f});
    Data data(problem::regression, in, out);
    const Registered reg(s);
    auto net = spy::network(reg, 1, 2);
    const auto what = vh::str("special output after ", s.at, " outputs");
    if (r.chance(0.5)) net->train(data, epochs(300'000), 1, r.below(2));
    else
        for (long i = 0; i <= s.at; ++i)
        {
            if (net->hasNan()) { c.fail("long-nan", vh::str(what, ": reported after ", i)); return; }
            if (i % 2) (void)net->computeOutput({1.0f}); else net->trainOnce({1.0f}, {0.0f, 0.0f});
        }
    if (!net->hasNan() || s.n <= s.at) c.fail("long-nan", what + ": not reported");
    if (s.learned) c.fail("long-nan", what + ": a step was applied");
    if (s.after > 10) c.fail("long-nan", vh::str(what, ": ", s.after, " outputs computed after it"));
    c.count("special outputs after a long life");
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C13: many restarts of one network
static void restarts(vh::Ctx& c)
{
    struct Busy : Script
    {
        std::atomic<long> steps{0};
        std::atomic<bool> allowed{false}, wrong{false};
        vector<float> output(const vector<float>&, bool, bool) override
        {
            if (!allowed) wrong = true;
            ++steps;
            return {0.0f};
        }
    } s;
    auto& r = c.rng;
    vector<vector<float>> in(3, {1.0f}), out(3, {0.0f});
    Data data(problem::regression, in, out);
    const Registered reg(s);
    auto net = spy::network(reg, 1, 1);
    const int n = r.range(300, 700);
    long trained = 0;
    for (int i = 0; i < n; ++i)
    {
        s.allowed = true;
        net->startTrainingAsync(data, 1, r.below(2));
        if (!net->isTraining()) { c.fail("long-restarts", vh::str("start ", i, ": not training")); break; }
        const long from = s.steps;
        for (int t = 0; s.steps < from + 2 && t < 200'000; ++t) usleep(20);
        if (s.steps < from + 2) { c.fail("long-restarts", vh::str("start ", i, ": no step")); break; }
        net->stopTrainingAsync();
        s.allowed = false;
        if (net->isTraining()) { c.fail("long-restarts", vh::str("stop ", i, ": still training")); break; }
        if (s.wrong) { c.fail("long-restarts", vh::str("stop ", i, ": a step after the stop")); break; }
        ++trained;
    }
    net->stopTrainingAsync();
    c.count("restarts of one network", trained);
    c.nontrivial(vh::mix(static_cast<vh::u64>(n)));
    c.sample(vh::str(n, " restarts"));
}

// C04, C05, C06, C20, C21: a network that learned very long
static void lives(vh::Ctx& c, int part)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxX = 3;
    go.maxLayers = 2;
    go.opts = r.chance(0.3);
    go.dropout = r.chance(0.3);
    Arch a = ref::gen(r, go);
    a.lr = r.uniform(0.0005f, 0.01f);
    a.mom = r.uniform(0.0f, 0.5f);
    auto net = build(a);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs(), n = many(r) / 2;
    if (net->getNumberOfParameters() > 60) { c.count("too large"); return; }
    const auto what = vh::str(str(a), " after ", n, " steps");
    vector<vector<float>> x, t;
    for (int i = 0; i < 7; ++i) { x.push_back(genInput(r, nIn, 1.0f)); t.push_back(genInput(r, nOut, 0.9f)); }
    auto learn = [&](SNN& s, int from, int to) { for (int i = from; i < to; ++i) s.trainOnce(x[static_cast<size_t>(i % 7)], t[static_cast<size_t>(i % 7)], i % 3 == 0); };
    const auto seed = r.next();
    vh::runThread(seed, [&] { learn(*net, 0, n); });
    if (net->getNumberOfTraining() != n) c.fail("long-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported"));
    if (!sane(*net, a)) { c.count("vague"); return; }
    auto same = [&](SNN& o, const char* k) {
        const auto why = compareState(*net, o, a);
        if (!why.empty()) { c.fail(k, what + ": " + why); return; }
        SNN p(*net), q(o);
        const auto s2 = r.next();
        vh::runThread(s2, [&] { learn(p, 1, 40); });
        vh::runThread(s2, [&] { learn(q, 1, 40); });
        const auto later = compareState(p, q, a);
        if (!later.empty()) c.fail(k, what + ", later: " + later);
        c.count("networks compared after a long life");
    };
    if (part == 0) { SNN copy(*net); same(copy, "long-copy"); if (!(copy == *net)) c.fail("long-copy", what + ": the copy is not equal"); }
    if (part == 1)
    {
        const auto f = c.scratch() + "/long.snn";
        net->saveAs(f);
        std::unique_ptr<SNN> l(&SNN::loadFrom(f));
        same(*l, "long-load");
    }
    if (part == 2)
    {
        SNN copy(*net);
        if (!(copy == *net) || copy != *net) c.fail("long-equality", what + ": a copy is not equal");
        learn(copy, 0, 1);
        if (copy == *net || !(copy != *net)) c.fail("long-equality", what + ": equal to its copy trained once more");
        c.count("networks compared after a long life");
    }
    if (part == 3)
    {
        const auto before = allWeights(*net, a);
        SNN twin(*net);
        vector<vector<float>> first;
        const bool memory = hasMemory(a);
        for (int i = 0; i < n; ++i)
        {
            const auto y = net->computeOutput(x[static_cast<size_t>(i % 7)], true);
            if (!memory)
            {
                if (i < 7) first.push_back(y);
                else if (!vh::sameBits(y, first[static_cast<size_t>(i % 7)])) { c.fail("long-outputs", vh::str(what, ": the output ", i, " is ", vh::vecStr(y), " and was ", vh::vecStr(first[static_cast<size_t>(i % 7)]))); return; }
            }
        }
        const auto d = diffWeights(before, allWeights(*net, a));
        if (!d.empty()) c.fail("long-outputs", vh::str(what, ": ", n, " outputs change the weights: ", d));
        if (net->getNumberOfTraining() != n) c.fail("long-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported after outputs"));
        if (!memory) { vh::runThread(seed, [&] { learn(*net, 0, 20); }); vh::runThread(seed, [&] { learn(twin, 0, 20); }); if (!diffWeights(allWeights(*net, a), allWeights(twin, a)).empty()) c.fail("long-outputs", vh::str(what, ": the future depends on ", n, " outputs")); }
        c.count("outputs of long lives", n);
    }
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C21: a long training is its steps
static void replayLong(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxX = 3;
    go.maxLayers = 2;
    Arch a = ref::gen(r, go);
    a.lr = r.uniform(0.0005f, 0.01f);
    a.mom = r.uniform(0.0f, 0.5f);
    auto net = build(a);
    if (net->getNumberOfParameters() > 60) { c.count("too large"); return; }
    SNN mirror(*net);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs(), n = many(r) / 2;
    vector<vector<float>> in{genInput(r, nIn, 1.0f)}, out{genInput(r, nOut, 0.9f)};
    Data data(problem::regression, in, out);
    net->train(data, epochs(n), 1, 0);
    for (int i = 0; i < n; ++i) mirror.trainOnce(in[0], out[0], true);
    const auto what = vh::str(str(a), " after ", n, " steps");
    if (!sane(mirror, a)) { c.count("vague"); return; }
    const auto d = diffWeights(allWeights(*net, a), allWeights(mirror, a));
    if (!d.empty()) c.fail("long-replay", what + ": " + d);
    if (net->getNumberOfTraining() != n) c.fail("long-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported"));
    c.count("steps of long trainings replayed", n);
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"rows", 2, 40, [](vh::Ctx& c) { rows(c, nature::nonTemporal); }},
        {"sequences", 1, 20, [](vh::Ctx& c) { rows(c, nature::sequential); }},
        {"series", 1, 20, [](vh::Ctx& c) { rows(c, nature::timeSeries); }},
        {"epochs", 4, 60, epochsCase},
        {"saves", 4, 60, saves},
        {"batches", 4, 60, batches},
        {"evaluations", 1, 20, evaluations},
        {"nan", 2, 40, nanCase},
        {"restarts", 1, 20, restarts},
        {"copy", 2, 40, [](vh::Ctx& c) { lives(c, 0); }},
        {"load", 2, 40, [](vh::Ctx& c) { lives(c, 1); }},
        {"equal", 2, 40, [](vh::Ctx& c) { lives(c, 2); }},
        {"outputs", 2, 40, [](vh::Ctx& c) { lives(c, 3); }},
        {"replay", 2, 40, replayLong},
    });
}
