// Random data sets, trainings and the comparison of the whole behaviour of two networks.
#pragma once
#include "ref.hpp"
#include "spy.hpp"

namespace gen
{
    using namespace ref;
    using snn::Data;
    using snn::nature;
    using snn::problem;

    // The network as after a very long training: the counter is found in its file as the number that one step increments. Null when it cannot be found.
    inline std::unique_ptr<SNN> afterTrainings(const SNN& net, long long n, const std::string& directory)
    {
        SNN a(net);
        const auto step = [](SNN& s) { s.trainOnce(vector<float>(static_cast<size_t>(s.getNumberOfInputs()), 0.1f), vector<float>(static_cast<size_t>(s.getNumberOfOutputs()), 0.1f), true); };
        for (int i = 0; i < 7; ++i) step(a);
        SNN b(a);
        step(b);
        const auto path = directory + "/counter.snn";
        auto words = [&](SNN& s) {
            s.saveAs(path);
            std::ifstream f(path);
            vector<std::string> r;
            for (std::string w; f >> w;) r.push_back(w);
            return r;
        };
        auto x = words(a);
        const auto y = words(b);
        size_t found = 0;
        int places = 0;
        if (x.size() == y.size())
            for (size_t i = 0; i < x.size(); ++i)
                if (x[i] != y[i] && x[i] == std::to_string(a.getNumberOfTraining()) && y[i] == std::to_string(a.getNumberOfTraining() + 1)) { found = i; ++places; }
        if (places != 1) return nullptr;
        x[found] = std::to_string(n);
        {
            std::ofstream f(path);
            for (auto& w : x) f << w << ' ';
        }
        std::unique_ptr<SNN> r(&SNN::loadFrom(path));
        if (r->getNumberOfTraining() != n) return nullptr;
        r->autoSaveFilePath = net.autoSaveFilePath;
        return r;
    }

    inline long long manyTrainings(Rng& r)
    {
        return r.pick(vector<long long>{2147483646LL, 2147483648LL, 4294967295LL, 4294967297LL, 9007199254740993LL, 1LL << 62}) + r.below(4);
    }

    struct DataSpec
    {
        problem p = problem::regression;
        nature n = nature::nonTemporal;
        int nIn = 1, nOut = 1, recurrences = 0, tests = 0;
        vector<vector<float>> in, out, inT, outT;   // flat
        vector<int> lengths, lengthsT;              // of the sequences
        float separator = 0.5f, precision = 0.1f;

        static vector<vector<vector<float>>> split(const vector<vector<float>>& v, const vector<int>& l)
        {
            vector<vector<vector<float>>> r;
            size_t i = 0;
            for (int n : l)
            {
                r.emplace_back(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i) + n);
                i += static_cast<size_t>(n);
            }
            return r;
        }

        std::unique_ptr<Data> make() const
        {
            auto a = in, b = out, c = inT, d = outT;
            std::unique_ptr<Data> data;
            if (n == nature::sequential)
            {
                auto s = split(in, lengths), t = split(inT, lengthsT);
                data = std::make_unique<Data>(p, s, b, t, d, n);
            }
            else
                data = std::make_unique<Data>(p, a, b, c, d, n, recurrences);
            if (p == problem::regression) data->setPrecision(precision);
            else data->setSeparator(separator);
            return data;
        }
        std::string str() const
        {
            static const char* ps[] = {"classification", "multiple classification", "regression"};
            static const char* ns[] = {"", " sequential", " time series"};
            return vh::str(ps[static_cast<int>(p)], ns[static_cast<int>(n)], " ", in.size(), "+", inT.size(), " data of ", nIn, "->", nOut, recurrences ? vh::str(", ", recurrences, " recurrences") : "");
        }
    };

    inline vector<float> target(Rng& r, problem p, int nOut)
    {
        vector<float> t(static_cast<size_t>(nOut), 0.0f);
        if (p == problem::classification) t[static_cast<size_t>(r.below(nOut))] = 1;
        else if (p == problem::multipleClassification) for (auto& x : t) x = r.chance(0.4) ? 1.0f : 0.0f;
        else t = genInput(r, nOut, 1.0f);
        return t;
    }

    // temporal: what the networks allow (any nature fits any network)
    inline DataSpec data(Rng& r, int nIn, int nOut, int maxN = 10, int kind = -1)
    {
        DataSpec d;
        d.nIn = nIn;
        d.nOut = nOut;
        d.p = nOut >= 2 && r.chance(0.4) ? problem::classification : r.chance(0.4) ? problem::multipleClassification : problem::regression;
        d.n = static_cast<nature>(kind >= 0 ? kind : r.pick(vector<int>{0, 0, 1, 2}));
        int n = r.sized(1, maxN, 5 * maxN), t = r.sized(1, maxN, 5 * maxN);
        if (d.n == nature::sequential)
        {
            auto cut = [&](int total) {
                vector<int> l;
                while (total > 0) { l.push_back(r.chance(0.03) ? total : r.range(1, std::min(total, 4))); total -= l.back(); }
                return l;
            };
            d.lengths = cut(n);
            d.lengthsT = cut(t);
        }
        if (d.n == nature::timeSeries)
        {
            d.recurrences = r.sized(1, 4, 25);
            n = std::max(n, d.recurrences + 1 + r.below(4));
            t = std::max(t, d.recurrences + 1);
        }
        for (int i = 0; i < n; ++i) { d.in.push_back(genInput(r, nIn)); d.out.push_back(target(r, d.p, nOut)); }
        for (int i = 0; i < t; ++i) { d.inT.push_back(genInput(r, nIn)); d.outT.push_back(target(r, d.p, nOut)); }
        d.separator = r.chance(0.5) ? 0.5f : r.uniform(0.1f, 0.9f);
        d.precision = r.chance(0.5) ? 0.1f : r.uniform(0.05f, 1.0f);
        return d;
    }

    inline bool sane(const SNN& net, const Arch& a)
    {
        if (net.hasNan()) return false;
        for (auto& l : allWeights(net, a))
            for (auto& n : l)
                for (float f : n)
                    if (!(std::abs(f) < 1e4f)) return false;
        return true;
    }

    // an evaluation leaves the index of its last data: only a part of the state when statistics are compared too
    inline std::string counters(const SNN& n, bool index = true)
    {
        return vh::str("training ", n.getNumberOfTraining(), " epoch ", n.getCurrentEpoch(), " index ", index ? n.getCurrentIndex() : 0, " between ", n.getNumberOfTrainingsBetweenTwoEvaluations(),
                       " idle ", !n.isTraining(), " nan ", n.hasNan(), " autosave ", n.autoSaveWhenBetter, " ", n.autoSaveFilePath, " layers ", n.getNumberOfLayers(),
                       " in ", n.getNumberOfInputs(), " out ", n.getNumberOfOutputs(), " neurons ", n.getNumberOfNeurons(), " parameters ", n.getNumberOfParameters());
    }

    // what can be seen without computing anything; empty when the same
    inline std::string compareState(const SNN& x, const SNN& y, const Arch& a, bool statistics = true)
    {
        const auto w = diffWeights(allWeights(x, a), allWeights(y, a));
        if (!w.empty()) return "weights: " + w;
        if (counters(x, statistics) != counters(y, statistics)) return counters(x) + " and " + counters(y);
        if (x.summary() != y.summary()) return "summaries differ";
        if (statistics)
        {
            if (!spy::Scores::of(x).same(spy::Scores::of(y))) return "scores " + spy::Scores::of(x).str() + " and " + spy::Scores::of(y).str();
            if (!spy::Scores::best(x).same(spy::Scores::best(y))) return "best scores " + spy::Scores::best(x).str() + " and " + spy::Scores::best(y).str();
        }
        return "";
    }

    // one random thing done to a network, described
    struct Step
    {
        int kind = 0; // 0 output, 1 cluster, 2 trainOnce, 3 train, 4 evaluate, 5 another learning rate and momentum
        vector<float> in, out;
        bool reset = true;
        const DataSpec* data = nullptr;
        int epochs = 1, batch = 1, freq = 1;
        float rate = 0, momentum = 0;
        vh::u64 seed = 1;
        std::string str() const
        {
            static const char* n[] = {"computeOutput", "computeCluster", "trainOnce", "train", "evaluate"};
            if (kind == 5) return vh::str("learning rate ", rate, " and momentum ", momentum);
            return vh::str(n[kind], reset ? " with reset" : "", kind == 3 ? vh::str(" ", epochs, " epochs, batch ", batch, ", frequency ", freq) : "", kind >= 3 ? " on " + data->str() : "");
        }
    };

    inline Step step(Rng& r, int nIn, int nOut, const vector<DataSpec>& sets, bool trainings = true)
    {
        Step s;
        s.kind = trainings ? r.pick(vector<int>{0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5}) : r.pick(vector<int>{0, 1, 4});
        s.in = genInput(r, nIn);
        s.out = genInput(r, nOut, 1.0f);
        s.reset = r.chance(0.5);
        s.data = &r.pick(sets);
        s.epochs = r.chance(0.1) ? 0 : r.range(1, 3);
        s.rate = r.uniform(0.001f, 0.1f);
        s.momentum = r.uniform(0.0f, 0.5f);
        s.freq = r.pick(vector<int>{0, 1, 1, 2});
        s.batch = s.data->n == nature::nonTemporal && r.chance(0.3) ? r.range(1, static_cast<int>(s.data->in.size())) : 1;
        s.seed = r.next();
        return s;
    }

    // in a new thread, so that the random numbers used are those of its seed; returns what was computed
    inline vector<float> apply(SNN& net, const Step& s)
    {
        vector<float> result;
        vh::runThread(s.seed, [&] {
            switch (s.kind)
            {
            case 0: result = net.computeOutput(s.in, s.reset); break;
            case 1: result = {static_cast<float>(net.computeCluster(s.in, s.reset))}; break;
            case 2: net.trainOnce(s.in, s.out, s.reset); break;
            case 3:
            {
                const auto d = s.data->make();
                net.train(*d, epochs(s.epochs), s.batch, s.freq);
                break;
            }
            case 5:
            {
                // public members: a user changes them as the training progresses
                auto& sgd = dynamic_cast<snn::internal::StochasticGradientDescent&>(*net.optimizer);
                sgd.learningRate = s.rate;
                sgd.momentum = s.momentum;
                break;
            }
            default:
            {
                const auto d = s.data->make();
                net.evaluate(*d);
                const auto v = spy::Scores::of(net).v;
                result = {v.begin(), v.end()};
            }
            }
        });
        return result;
    }
}
