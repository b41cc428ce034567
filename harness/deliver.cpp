// C10, C11: what a training and an evaluation present to the network, for each nature of data
#define VH_MAIN
#include "spy.hpp"
using namespace ref;
using namespace spy;
using snn::Data;
using snn::nature;
using snn::problem;

namespace
{
    struct Event
    {
        bool training, reset, learned = false;
        vector<float> in, out, target; // target: recovered from the errors
    };

    // records everything; the outputs are small exact numbers
    struct Recorder : Script
    {
        vector<Event> log;
        int k;
        unsigned n = 0;
        explicit Recorder(int k) : k(k) {}
        vector<float> output(const vector<float>& in, bool reset, bool training) override
        {
            vector<float> y(static_cast<size_t>(k));
            for (auto& x : y) x = static_cast<float>(static_cast<int>(vh::mix(++n) % 9) - 4) / 4.0f;
            log.push_back({training, reset, false, in, y, {}});
            return y;
        }
        void train(const vector<float>& e) override
        {
            log.back().learned = true;
            for (size_t i = 0; i < e.size(); ++i) log.back().target.push_back(log.back().out[i] + e[i] / 2);
        }
    };

    // data whose input is a one in its own place, and whose target is a code of it in another
    struct Coded
    {
        vector<vector<float>> in, out;
        int size;
        Coded(Rng& r, int n, int width, bool classification) : size(n)
        {
            vector<int> perm(static_cast<size_t>(width));
            for (int i = 0; i < width; ++i) perm[static_cast<size_t>(i)] = i;
            for (int i = width - 1; i > 0; --i) std::swap(perm[static_cast<size_t>(i)], perm[static_cast<size_t>(r.below(i + 1))]);
            const float a = classification ? 1.0f : 4.0f;
            for (int i = 0; i < n; ++i)
            {
                vector<float> x(static_cast<size_t>(width), 0.0f), y(static_cast<size_t>(width), 0.0f);
                x[static_cast<size_t>(i)] = 2.0f;
                y[static_cast<size_t>(perm[static_cast<size_t>(i)])] = a;
                in.push_back(x);
                out.push_back(y);
            }
        }
    };

    std::string kindName(nature n) { return n == nature::nonTemporal ? "non temporal" : n == nature::sequential ? "sequential" : "time series"; }

    // splits the log in epochs and evaluations
    struct Part { bool training; vector<Event> events; };
    vector<Part> split(const vector<Event>& log, size_t perEpoch, size_t perEvaluation, std::string& why)
    {
        vector<Part> parts;
        size_t i = 0;
        while (i < log.size())
        {
            const bool t = log[i].training;
            const size_t n = t ? perEpoch : perEvaluation;
            Part p{t, {}};
            for (size_t j = 0; j < n; ++j, ++i)
            {
                if (i >= log.size() || log[i].training != t)
                {
                    why = vh::str(t ? "an epoch" : "an evaluation", " has ", j, " presentations instead of ", n);
                    return parts;
                }
                p.events.push_back(log[i]);
            }
            parts.push_back(p);
        }
        return parts;
    }
}

// the members of a (batched) presentation; false when it is no mean of whole data
static bool decode(const vector<float>& x, float one, int batch, vector<int>& members)
{
    members.clear();
    for (size_t i = 0; i < x.size(); ++i)
    {
        const float n = x[i] * static_cast<float>(batch) / one;
        const int k = static_cast<int>(std::lround(n));
        if (std::abs(n - static_cast<float>(k)) > 1e-4f * static_cast<float>(batch) || k < 0)
            return false;
        for (int j = 0; j < k; ++j) members.push_back(static_cast<int>(i));
    }
    return static_cast<int>(members.size()) == batch;
}

static void nonTemporal(vh::Ctx& c)
{
    auto& r = c.rng;
    const bool large = c.index % 25 == 7;
    const int n = large ? r.range(70, 400) : r.chance(0.3) ? r.range(12, 24) : r.range(1, 12);
    const bool classification = n >= 2 && r.chance(0.4), multiple = !classification && r.chance(0.3);
    const auto p = classification ? problem::classification : multiple ? problem::multipleClassification : problem::regression;
    const int tests = large ? r.range(1, 300) : r.range(1, 8), width = std::max(n, tests);
    Coded train(r, n, width, classification), test(r, tests, width, classification);
    const bool same = r.chance(0.3);
    auto data = same ? std::make_unique<Data>(p, train.in, train.out) : std::make_unique<Data>(p, train.in, train.out, test.in, test.out);
    const auto& tested = same ? train : test;
    const int batch = large ? r.pick(vector<int>{1, r.range(1, n), r.range(n / 2, n), n}) : r.chance(0.5) ? 1 : r.range(1, n);
    const int epochs = large ? r.range(1, 2) : c.index % 20 == 0 ? 60 : r.range(1, 6), freq = r.chance(0.7) ? 1 : r.range(0, 3);
    Recorder rec(width);
    const Registered reg(rec);
    auto net = network(reg, width, width);
    const int runs = r.range(1, 2);
    vector<vector<int>> orders;
    for (int run = 0; run < runs; ++run)
    {
        rec.log.clear();
        snn::Wait w;
        w.epochs = epochs;
        if (r.chance(0.25))
        {
            net->startTrainingAsync(*data, batch, freq);
            net->waitFor(w);
            net->stopTrainingAsync();
        }
        else
            net->train(*data, w, batch, freq);
        // an asynchronous training is stopped anywhere: the last part may be incomplete
        const size_t perEpoch = static_cast<size_t>(n / batch);
        std::string why;
        auto log = rec.log;
        vector<Part> parts = split(log, perEpoch, static_cast<size_t>(tested.size), why);
        size_t events = 0;
        for (auto& q : parts) events += q.events.size();
        const bool tail = log.size() - events < std::max(perEpoch, static_cast<size_t>(tested.size)) && !why.empty();
        // cut by the stop: a last incomplete epoch followed or not by an evaluation
        if (!why.empty() && !tail)
        {
            bool stopped = false;
            size_t i = events;
            while (i < log.size() && log[i].training) ++i; // the incomplete epoch
            stopped = log.size() - i <= static_cast<size_t>(tested.size);
            if (!stopped)
            {
                c.fail("epoch-size", vh::str("run ", run, ", ", n, " data, batch ", batch, ": ", why));
                return;
            }
        }
        const float one = classification ? 1.0f : 4.0f;
        for (auto& q : parts)
        {
            if (!q.training)
            {
                for (size_t i = 0; i < q.events.size(); ++i)
                    if (!vh::sameBits(q.events[i].in, tested.in[i]) || !q.events[i].reset || q.events[i].learned)
                    {
                        c.fail("evaluation-order", vh::str("evaluation presents ", vh::vecStr(q.events[i].in), " at ", i, " reset ", q.events[i].reset, " learned ", q.events[i].learned));
                        return;
                    }
                c.count("evaluations observed");
                continue;
            }
            vector<int> seen(static_cast<size_t>(width), 0), order, m, mt;
            for (auto& e : q.events)
            {
                if (!e.learned || !e.reset)
                {
                    c.fail("presentation", vh::str("a data is presented with learned ", e.learned, " and reset ", e.reset));
                    return;
                }
                if (!decode(e.in, 2.0f, batch, m))
                {
                    c.fail("batch", vh::str("a batch of ", batch, " is presented as ", vh::vecStr(e.in, 30)));
                    return;
                }
                vector<float> expected(static_cast<size_t>(width), 0.0f);
                for (int i : m)
                {
                    if (i >= n) { c.fail("batch", "a data that does not exist"); return; }
                    if (seen[static_cast<size_t>(i)]++)
                    {
                        c.fail("repetition", vh::str("data ", i, " is presented twice in an epoch (", n, " data, batch ", batch, ")"));
                        return;
                    }
                    for (size_t j = 0; j < expected.size(); ++j) expected[j] += train.out[static_cast<size_t>(i)][j] / static_cast<float>(batch);
                }
                for (size_t j = 0; j < expected.size(); ++j)
                    if (!(std::abs(expected[j] - e.target[j]) <= 1e-4f))
                    {
                        c.fail("target", vh::str("data ", m[0], " (batch ", batch, ") is trained with the target ", vh::vecStr(e.target, 30), " instead of ", vh::vecStr(expected, 30)));
                        return;
                    }
                order.insert(order.end(), m.begin(), m.end());
            }
            if (batch == 1) orders.push_back(order);
            (void)one;
            c.count("epochs observed");
            c.count("presentations observed", static_cast<long>(q.events.size()));
        }
    }
    // the data are not altered
    if (data->sets[snn::training].inputs != train.in || data->sets[snn::training].labels != train.out || data->sets[snn::testing].inputs != tested.in || data->sets[snn::testing].labels != tested.out)
        c.fail("data-altered", "training altered the data");
    // shuffled anew: an order of at least 12 data does not come back, and every place sees many data
    if (n >= 12 && orders.size() >= 2)
    {
        for (size_t i = 1; i < orders.size(); ++i)
            if (orders[i] == orders[i - 1])
            {
                c.fail("order", vh::str("two epochs in a row with the same order of ", n, " data"));
                return;
            }
        if (orders.size() >= 60)
        {
            for (size_t place = 0; place < static_cast<size_t>(n); ++place)
            {
                std::set<int> s, follow;
                for (auto& o : orders)
                {
                    s.insert(o[place]);
                    follow.insert((o[(place + 1) % o.size()] - o[place] + n) % n);
                }
                if (s.size() < 5 || follow.size() < 4)
                {
                    c.fail("order", vh::str("place ", place, " of ", n, " saw only ", s.size(), " different data in ", orders.size(), " epochs, and ", follow.size(), " different steps to the next"));
                    return;
                }
            }
            c.count("places whose variety was checked", n);
        }
    }
    data->unshuffle();
    for (int i = 0; i < n; ++i)
        if (!vh::sameBits(data->getTrainingData(i), train.in[static_cast<size_t>(i)]) || !vh::sameBits(data->getTrainingOutputs(i), train.out[static_cast<size_t>(i)]))
        {
            c.fail("unshuffle", vh::str("data ", i, " after unshuffle is ", vh::vecStr(data->getTrainingData(i), 30)));
            return;
        }
    c.nontrivial(vh::hashStr(vh::str(n, " ", batch, " ", epochs, " ", freq, " ", tests, " ", orders.empty() ? 0 : orders[0][0])));
    c.sample(vh::str(n, " data, batch ", batch, ", ", epochs, " epochs, evaluation every ", freq));
}

static void sequential(vh::Ctx& c)
{
    auto& r = c.rng;
    const bool large = c.index % 25 == 7; // long sequences, or many of them
    const bool many = large ? r.chance(0.5) : r.chance(0.2);
    vector<vector<vector<float>>> seq[2];
    int size[2] = {0, 0};
    vector<int> start[2];
    for (int s = 0; s < 2; ++s)
    {
        const int q = large ? (many ? r.range(60, 150) : r.range(1, 4)) : many ? r.range(12, 14) : r.range(1, 6);
        for (int i = 0; i < q; ++i)
        {
            start[s].push_back(size[s]);
            size[s] += r.chance(0.3) ? 1 : r.range(1, many ? 3 : large ? 100 : 5);
        }
        start[s].push_back(size[s]);
    }
    const bool same = r.chance(0.3);
    const int width = std::max({size[0], size[1], 2});
    const auto p = r.chance(0.5) ? problem::classification : problem::regression;
    Coded coded[2] = {Coded(r, size[0], width, p == problem::classification), Coded(r, size[1], width, p == problem::classification)};
    for (int s = 0; s < 2; ++s)
        for (size_t q = 0; q + 1 < start[s].size(); ++q)
            seq[s].push_back({coded[s].in.begin() + start[s][q], coded[s].in.begin() + start[s][q + 1]});
    auto given0 = seq[0], given1 = seq[1];
    auto data = same ? std::make_unique<Data>(p, given1, coded[1].out, nature::sequential) : std::make_unique<Data>(p, given1, coded[1].out, given0, coded[0].out, nature::sequential);
    const int t = same ? 1 : 0;
    Recorder rec(width);
    const Registered reg(rec);
    auto net = network(reg, width, width);
    const int runs = r.range(1, 2), epochs = r.range(1, large ? 2 : many ? 12 : 5);
    vector<vector<int>> orders;
    for (int run = 0; run < runs; ++run)
    {
        rec.log.clear();
        snn::Wait w;
        w.epochs = epochs;
        net->train(*data, w, 1, 1);
        std::string why;
        const auto parts = split(rec.log, static_cast<size_t>(size[1]), static_cast<size_t>(size[t]), why);
        if (!why.empty() || parts.size() != static_cast<size_t>(2 * epochs + 1))
        {
            c.fail("epoch-size", vh::str(size[1], " data in ", start[1].size() - 1, " sequences, ", parts.size(), " parts: ", why));
            return;
        }
        Definition d{p};
        for (auto& q : parts)
        {
            if (!q.training)
            {
                d = Definition{p};
                size_t s = 0;
                for (size_t i = 0; i < q.events.size(); ++i)
                {
                    if (static_cast<int>(i) == start[t][s + 1]) ++s;
                    const bool first = static_cast<int>(i) == start[t][s], last = static_cast<int>(i) + 1 == start[t][s + 1];
                    const auto& e = q.events[i];
                    if (!vh::sameBits(e.in, coded[t].in[i]) || e.reset != first || e.learned)
                    {
                        c.fail("evaluation-order", vh::str("evaluation presents ", vh::vecStr(e.in, 30), " at ", i, " with reset ", e.reset, " learned ", e.learned));
                        return;
                    }
                    if (last) d.add(e.out, coded[t].out[i]);
                }
                c.count("evaluations observed");
                continue;
            }
            vector<int> order;
            vector<char> seen(start[1].size(), 0);
            size_t i = 0;
            while (i < q.events.size())
            {
                vector<int> m;
                if (!decode(q.events[i].in, 2.0f, 1, m)) { c.fail("presentation", "not a data"); return; }
                size_t s = 0;
                while (s + 1 < start[1].size() && start[1][s] != m[0]) ++s;
                if (s + 1 >= start[1].size() || seen[s]++)
                {
                    c.fail("sequence-order", vh::str("at ", i, " of an epoch, data ", m[0], s + 1 >= start[1].size() ? " is not the start of a sequence" : " starts a sequence already presented"));
                    return;
                }
                order.push_back(static_cast<int>(s));
                for (int j = start[1][s]; j < start[1][s + 1]; ++j, ++i)
                {
                    const auto& e = q.events[i];
                    if (i >= q.events.size() || !vh::sameBits(e.in, coded[1].in[static_cast<size_t>(j)]) || e.reset != (j == start[1][s]) || !e.learned)
                    {
                        c.fail("sequence-order", vh::str("data ", j, " of sequence ", s, ": input ", vh::vecStr(e.in, 30), " reset ", e.reset, " learned ", e.learned));
                        return;
                    }
                    if (!vh::sameBits(e.target, coded[1].out[static_cast<size_t>(j)]))
                    {
                        c.fail("target", vh::str("data ", j, " is trained with the target ", vh::vecStr(e.target, 30)));
                        return;
                    }
                }
            }
            orders.push_back(order);
            c.count("epochs observed");
            c.count("presentations observed", static_cast<long>(q.events.size()));
        }
        const auto wrong = d.compare(Scores::of(*net));
        if (!wrong.empty())
        {
            c.fail("scored-data", vh::str("sequential evaluation of ", size[t], " data: ", wrong));
            return;
        }
    }
    if (many)
    {
        for (size_t i = 1; i < orders.size(); ++i)
            if (orders[i] == orders[i - 1])
            {
                c.fail("order", vh::str("two epochs in a row with the same order of ", orders[0].size(), " sequences"));
                return;
            }
        if (orders.size() >= 10)
            c.count("sequence orders compared", static_cast<long>(orders.size()));
    }
    if (data->sets[snn::training].inputs != coded[1].in || data->sets[snn::training].labels != coded[1].out || data->sets[snn::testing].inputs != coded[t].in)
        c.fail("data-altered", "training altered the data");
    data->unshuffle();
    for (int i = 0; i < size[1]; ++i)
        if (!vh::sameBits(data->getTrainingData(i), coded[1].in[static_cast<size_t>(i)]))
        {
            c.fail("unshuffle", vh::str("data ", i));
            return;
        }
    c.nontrivial(vh::hashStr(vh::str(size[1], " ", start[1].size(), " ", size[0], " ", epochs, orders[0].back())));
    c.sample(vh::str(start[1].size() - 1, " sequences of ", size[1], " data, ", epochs, " epochs"));
}

static void timeSeries(vh::Ctx& c)
{
    auto& r = c.rng;
    const bool large = c.index % 25 == 7;
    const int n = large ? r.range(60, 300) : r.chance(0.15) ? r.range(30, 48) : r.range(1, 20), tests = large ? r.range(1, 200) : r.range(1, 8), width = std::max({n, tests, 2});
    const int rec0 = r.chance(large ? 0.5 : 0.1) ? r.range(1, n + 2) : r.range(1, 5), window = rec0 + 1;
    const auto p = r.chance(0.5) ? problem::classification : problem::regression;
    Coded train(r, n, width, p == problem::classification), test(r, tests, width, p == problem::classification);
    const bool same = r.chance(0.3);
    auto data = same ? std::make_unique<Data>(p, train.in, train.out, nature::timeSeries, rec0) : std::make_unique<Data>(p, train.in, train.out, test.in, test.out, nature::timeSeries, rec0);
    const auto& tested = same ? train : test;
    Recorder rec(width);
    const Registered reg(rec);
    auto net = network(reg, width, width);
    const int runs = r.range(1, 2), epochs = r.range(1, large ? 3 : 2 * window + 2);
    int previousOffset = -1;
    vector<vector<int>> orders;
    for (int run = 0; run < runs; ++run)
    {
        rec.log.clear();
        snn::Wait w;
        w.epochs = epochs;
        net->train(*data, w, 1, 1);
        std::string why;
        const auto parts = split(rec.log, static_cast<size_t>(n), static_cast<size_t>(tested.size), why);
        if (!why.empty() || parts.size() != static_cast<size_t>(2 * epochs + 1))
        {
            c.fail("epoch-size", vh::str(n, " data, ", parts.size(), " parts: ", why));
            return;
        }
        Definition d{p};
        for (auto& q : parts)
        {
            if (!q.training)
            {
                d = Definition{p};
                for (size_t i = 0; i < q.events.size(); ++i)
                {
                    const auto& e = q.events[i];
                    if (!vh::sameBits(e.in, tested.in[i]) || e.reset != (i == 0) || e.learned)
                    {
                        c.fail("evaluation-order", vh::str("evaluation presents ", vh::vecStr(e.in, 30), " at ", i, " with reset ", e.reset));
                        return;
                    }
                    d.add(e.out, tested.out[i]);
                }
                c.count("evaluations observed");
                continue;
            }
            vector<int> id;
            for (auto& e : q.events)
            {
                vector<int> m;
                if (!decode(e.in, 2.0f, 1, m)) { c.fail("presentation", "not a data"); return; }
                id.push_back(m[0]);
                if (e.learned && !vh::sameBits(e.target, train.out[static_cast<size_t>(m[0])]))
                {
                    c.fail("target", vh::str("data ", m[0], " is trained with the target ", vh::vecStr(e.target, 30)));
                    return;
                }
            }
            // the alignment of this epoch
            const int offset = previousOffset < 0 ? 0 : (previousOffset + 1) % window;
            previousOffset = offset;
            const int windows = std::max(0, (n - offset) / window);
            auto text = [&] {
                std::ostringstream ss;
                ss << n << " data, windows of " << window << " from " << offset << ":";
                for (size_t i = 0; i < id.size(); ++i) ss << " " << (q.events[i].reset ? "|" : "") << id[i] << (q.events[i].learned ? "*" : "");
                return ss.str();
            };
            bool good = true;
            int i = 0;
            for (; i < offset && i < n; ++i)
                good &= id[static_cast<size_t>(i)] == i && q.events[static_cast<size_t>(i)].learned && q.events[static_cast<size_t>(i)].reset == (i == 0);
            vector<char> seen(static_cast<size_t>(windows) + 1, 0);
            vector<int> order;
            for (int k = 0; k < windows && good; ++k)
            {
                const int first = id[static_cast<size_t>(i)];
                good &= first >= offset && (first - offset) % window == 0 && (first - offset) / window < windows;
                if (!good) break;
                good &= !seen[static_cast<size_t>((first - offset) / window)]++;
                order.push_back((first - offset) / window);
                for (int j = 0; j < window; ++j, ++i)
                {
                    const auto& e = q.events[static_cast<size_t>(i)];
                    good &= id[static_cast<size_t>(i)] == first + j && e.reset == (j == 0) && e.learned == (j == window - 1);
                }
            }
            // the rest of the series: too short for a window, presented in its order, not learned
            for (; i < n && good; ++i)
                good &= !q.events[static_cast<size_t>(i)].learned && id[static_cast<size_t>(i)] == i;
            if (!good)
            {
                c.fail("windows", text());
                return;
            }
            orders.push_back(order);
            c.count("epochs observed");
            c.count("windows observed", windows);
            c.count("presentations observed", static_cast<long>(q.events.size()));
        }
        const auto wrong = d.compare(Scores::of(*net));
        if (!wrong.empty())
        {
            c.fail("scored-data", vh::str("time series evaluation: ", wrong));
            return;
        }
    }
    // shuffled: epochs of at least 12 windows in another order, and not the order of the series
    for (size_t i = 1; i < orders.size(); ++i)
        if (orders[i].size() >= 12 && orders[i - 1].size() == orders[i].size())
        {
            c.count("window orders compared");
            if (orders[i] == orders[i - 1] || std::is_sorted(orders[i].begin(), orders[i].end()))
            {
                c.fail("order", vh::str(orders[i].size(), " windows are not shuffled"));
                return;
            }
        }
    if (data->sets[snn::training].inputs != train.in || data->sets[snn::training].labels != train.out || data->sets[snn::testing].inputs != tested.in)
        c.fail("data-altered", "training altered the data");
    data->unshuffle();
    for (int i = 0; i < n; ++i)
        if (!vh::sameBits(data->getTrainingData(i), train.in[static_cast<size_t>(i)]) || !data->needToLearnOnTrainingData(i) || data->isFirstTrainingDataOfTemporalSequence(i) != (i == 0))
        {
            c.fail("unshuffle", vh::str("data ", i));
            return;
        }
    c.nontrivial(vh::hashStr(vh::str(n, " ", window, " ", epochs, " ", tests)));
    c.sample(vh::str(n, " data, windows of ", window, ", ", epochs, " epochs"));
}

// C03: every sequence or window that a training or an evaluation presents starts with a reset, and only its start
static void resets(vh::Ctx& c)
{
    auto& r = c.rng;
    const auto kind = r.pick(vector<nature>{nature::nonTemporal, nature::sequential, nature::timeSeries});
    const auto p = problem::regression;
    Recorder rec(0);
    vector<vector<float>> in[2], out[2];
    vector<vector<vector<float>>> seq[2];
    vector<bool> first[2];
    int n[2];
    for (int t = 0; t < 2; ++t) // 1: training
    {
        const int sequences = kind == nature::sequential ? r.sized(1, 6, 40) : 1;
        for (int q = 0; q < sequences; ++q)
        {
            const int l = kind == nature::sequential ? r.sized(1, 5, 30, 0.01) : r.sized(1, 16, 150);
            for (int i = 0; i < l; ++i) first[t].push_back(i == 0 || kind == nature::nonTemporal);
            seq[t].emplace_back(static_cast<size_t>(l));
        }
        n[t] = static_cast<int>(first[t].size());
    }
    const int width = std::max(n[0], n[1]);
    rec.k = width;
    for (int t = 0; t < 2; ++t)
    {
        Coded code(r, n[t], width, false);
        in[t] = code.in;
        out[t] = code.out;
        size_t i = 0;
        for (auto& s : seq[t]) for (auto& x : s) x = in[t][i++];
    }
    const int recurrences = kind == nature::timeSeries ? r.sized(1, 4, 20) : 0;
    auto data = kind == nature::sequential ? std::make_unique<Data>(p, seq[1], out[1], seq[0], out[0], kind)
                                           : std::make_unique<Data>(p, in[1], out[1], in[0], out[0], kind, recurrences);
    const Registered reg(rec);
    auto net = network(reg, width, width);
    const auto what = vh::str(kindName(kind), ", ", n[1], " and ", n[0], " data", recurrences ? vh::str(", ", recurrences, " recurrences") : "");
    if (r.chance(0.3))
    {
        net->startTrainingAsync(*data, 1, r.range(0, 2));
        net->waitFor(epochs(1));
        net->stopTrainingAsync();
    }
    else if (r.chance(0.8)) net->train(*data, epochs(r.range(1, 4)), 1, r.range(0, 2));
    else net->evaluate(*data);
    int previous = -2, length = 0;
    bool wasTraining = false, mixed = false;
    for (auto& e : rec.log)
    {
        vector<int> m;
        if (!decode(e.in, 2.0f, 1, m)) { c.fail("reset", what + ": not a data"); return; }
        const auto i = static_cast<size_t>(m[0]);
        const bool follows = e.training == wasTraining && m[0] == previous + 1; // the data before it in its set was the last presented
        bool must = !follows;
        if (kind != nature::timeSeries) must = first[e.training ? 1 : 0][i];
        else if (!e.training) must = i == 0;
        // the last data of a series, too few for a window, are presented without being learned
        if (e.reset) mixed = false;
        else if (must) mixed = true;
        if (mixed && (e.learned || kind != nature::timeSeries || !e.training))
        { c.fail("reset-missing", vh::str(what, ": the ", e.training ? "training" : "testing", " data ", m[0], " is presented after the ", wasTraining ? "training" : "testing", " data ", previous, " without a reset")); return; }
        // windows may follow each other; a reset inside one would make it shorter
        length = e.reset ? 1 : length + 1;
        if (!must && e.reset && (kind != nature::timeSeries || !e.training))
        { c.fail("reset-inside", vh::str(what, ": the ", e.training ? "training" : "testing", " data ", m[0], " is presented with a reset inside its sequence")); return; }
        if (kind == nature::timeSeries && e.training && e.learned && length > recurrences + 1)
        { c.fail("reset-missing", vh::str(what, ": a window of ", length, " training data")); return; }
        if (kind == nature::timeSeries && e.training && e.learned && length < recurrences + 1 && m[0] + 1 > recurrences)
        { c.fail("reset-inside", vh::str(what, ": a window of ", length, " training data ends at the data ", m[0])); return; }
        previous = m[0];
        wasTraining = e.training;
        c.count(e.reset ? "starts of sequences presented" : "data presented inside a sequence");
    }
    c.nontrivial(vh::hashStr(what + std::to_string(rec.log.size())));
    c.sample(what);
}

// every order of few data is seen
static void orders(vh::Ctx& c)
{
    auto& r = c.rng;
    const int n = r.range(2, 6), epochs = 400;
    Coded train(r, n, n, false);
    Recorder q(n);
    const Registered reg(q);
    auto net = network(reg, n, n);
    Data data(problem::regression, train.in, train.out);
    vector<vector<int>> seen(static_cast<size_t>(n), vector<int>(static_cast<size_t>(n), 0)), before = seen;
    vector<int> order;
    net->train(data, ref::epochs(epochs), 1, 0);
    for (auto& e : q.log)
    {
        if (!e.learned) { c.fail("order", vh::str("a data of ", n, " is not learned")); return; }
        const auto it = std::find(e.in.begin(), e.in.end(), 2.0f);
        order.push_back(static_cast<int>(it - e.in.begin()));
        if (static_cast<int>(order.size()) < n) continue;
        for (size_t i = 0; i < order.size(); ++i)
        {
            ++seen[i][static_cast<size_t>(order[i])];
            for (size_t j = i + 1; j < order.size(); ++j) ++before[static_cast<size_t>(order[i])][static_cast<size_t>(order[j])];
        }
        order.clear();
    }
    for (size_t i = 0; i < static_cast<size_t>(n); ++i)
        for (size_t j = 0; j < static_cast<size_t>(n); ++j)
        {
            // probabilities of a false alarm: (5/6)^400 and 2^-400
            if (seen[i][j] == 0) { c.fail("order", vh::str("data ", j, " of ", n, " is never at the place ", i, " in ", epochs, " epochs")); return; }
            if (i != j && before[i][j] == 0) { c.fail("order", vh::str("data ", i, " of ", n, " is never before data ", j, " in ", epochs, " epochs")); return; }
        }
    c.count("sets of few data whose orders were all seen");
    c.nontrivial(c.rng.next());
}

// a batch is the mean of its data, whatever their values
static void means(vh::Ctx& c)
{
    auto& r = c.rng;
    const int n = r.range(1, 12), nIn = r.range(1, 4), nOut = r.range(1, 4);
    vector<vector<float>> in, out;
    const int kind = r.below(4);
    auto row = [&](int k) {
        vector<float> v(static_cast<size_t>(k));
        for (auto& x : v) x = kind == 0 ? r.uniform(-2, 2) : kind == 1 ? static_cast<float>(r.below(2)) : kind == 2 ? static_cast<float>(r.range(-3, 3)) : r.pick(vector<float>{0, 1e10f, -1e10f, 1e-10f});
        return v;
    };
    for (int i = 0; i < n; ++i)
    {
        const auto like = r.below(n);
        const bool copy = like < i && r.chance(0.3); // the same values several times
        in.push_back(copy && r.chance(0.7) ? in[static_cast<size_t>(like)] : row(nIn));
        out.push_back(copy && r.chance(0.7) ? out[static_cast<size_t>(like)] : row(nOut));
    }
    Data data(problem::regression, in, out);
    for (int times = 0; times < 3; ++times)
    {
        if (times > 0) data.shuffle();
        for (int batch = 1; batch <= n; ++batch)
            for (int i = 0; i + batch <= n; ++i)
            {
                vector<double> x(static_cast<size_t>(nIn), 0.0), y(static_cast<size_t>(nOut), 0.0), ax = x, ay = y;
                for (int k = i; k < i + batch; ++k)
                {
                    const auto a = data.getTrainingData(k), b = data.getTrainingOutputs(k);
                    for (size_t j = 0; j < x.size(); ++j) { x[j] += a[j] / static_cast<double>(batch); ax[j] += std::abs(static_cast<double>(a[j])); }
                    for (size_t j = 0; j < y.size(); ++j) { y[j] += b[j] / static_cast<double>(batch); ay[j] += std::abs(static_cast<double>(b[j])); }
                }
                const auto a = data.getTrainingData(i, batch), b = data.getTrainingOutputs(i, batch);
                if (a.size() != x.size() || b.size() != y.size()) { c.fail("batch-mean", "a batch of another size"); return; }
                for (size_t j = 0; j < x.size() + y.size(); ++j)
                {
                    const bool input = j < x.size();
                    const size_t at = input ? j : j - x.size();
                    const double want = input ? x[at] : y[at], is = input ? a[at] : b[at], sum = input ? ax[at] : ay[at];
                    if (!(std::abs(want - is) <= 1e-6 * sum + 1e-30))
                    {
                        c.fail("batch-mean", vh::str("the mean of the ", input ? "inputs" : "targets", " of ", batch, " data of ", n, " is ", is, " instead of ", want));
                        return;
                    }
                }
                c.count("batch means compared");
            }
    }
    c.nontrivial(c.rng.next());
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"resets", 2000, 20000, resets},
        {"nonTemporal", 4000, 40000, nonTemporal},
        {"orders", 25, 250, orders},
        {"means", 400, 4000, means},
        {"sequential", 4000, 40000, sequential},
        {"timeSeries", 4000, 40000, timeSeries},
    });
}
