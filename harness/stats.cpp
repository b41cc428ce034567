// C08, C09, C26: evaluation statistics, best scores and predicted clusters
#define VH_MAIN
#include "spy.hpp"
using namespace ref;
using namespace spy;
using snn::Data;
using snn::nature;
using snn::problem;

namespace
{
    struct Answers : Script
    {
        vector<vector<float>> answers;
        size_t next = 0;
        SNN* net = nullptr;
        std::function<void(bool training)> before;
        long training = 0, testing = 0;
        bool pure = false; // the answers are those of the evaluations only
        vector<float> output(const vector<float>&, bool, bool t) override
        {
            if (before) before(t);
            (t ? training : testing)++;
            if (t && pure) return vector<float>(answers[0].size(), 0.25f);
            return answers[next++ % answers.size()];
        }
    };

    problem genProblem(Rng& r) { return vector<problem>{problem::classification, problem::multipleClassification, problem::regression}[static_cast<size_t>(r.below(3))]; }

    // values on a grid of 1/8: exactly representable sums, and many ties and boundaries
    float grid(Rng& r, int from = -16, int to = 16) { return static_cast<float>(r.range(from, to)) / 8.0f; }

    vector<float> genTarget(Rng& r, problem p, int k, bool exact)
    {
        vector<float> t(static_cast<size_t>(k));
        if (p == problem::classification)
            t[static_cast<size_t>(r.below(k))] = 1;
        else
            for (auto& x : t)
                x = p == problem::multipleClassification && r.chance(0.8) ? static_cast<float>(r.below(2)) : exact ? grid(r) : r.uniform(-2, 2);
        return t;
    }

    vector<float> genAnswer(Rng& r, int k, bool exact)
    {
        vector<float> v(static_cast<size_t>(k));
        const int kind = r.below(6);
        for (auto& x : v)
            x = kind == 0 ? grid(r, -80, -17) : kind == 1 ? grid(r, -2, 2) : kind == 2 ? grid(r, 0, 8) : exact ? grid(r) : r.uniform(-2.0f, 2.0f);
        return v;
    }
}

// scripted outputs on every kind of problem
static void scripted(vh::Ctx& c)
{
    auto& r = c.rng;
    const auto p = genProblem(r);
    const bool exact = r.chance(0.7);
    const int k = r.sized(p == problem::classification ? 2 : 1, 6, 150), n = r.sized(1, 60, k > 20 ? 60 : 2500), m = r.range(1, 4);
    vector<vector<float>> trainIn(static_cast<size_t>(r.range(1, 3)), vector<float>(static_cast<size_t>(m), 0.5f)), trainOut, testIn, testOut;
    for (auto& x : trainIn) { (void)x; trainOut.push_back(genTarget(r, p, k, exact)); }
    for (int i = 0; i < n; ++i)
    {
        testIn.push_back(genInput(r, m));
        testOut.push_back(genTarget(r, p, k, exact));
    }
    // regressions of very small or large values: everything is multiplied by a power of two
    const float scale = exact && p == problem::regression && r.chance(0.3) ? std::ldexp(1.0f, r.range(-50, 50)) : 1.0f;
    for (auto* o : {&trainOut, &testOut})
        for (auto& t : *o)
            for (auto& x : t) x *= scale;
    Data data(p, trainIn, trainOut, testIn, testOut);
    Definition d{p};
    d.scale = static_cast<double>(scale);
    if (scale != 1 || r.chance(0.6))
    {
        d.separator = exact ? grid(r, -8, 8) : r.uniform(-1, 1);
        if (p != problem::regression) data.setSeparator(static_cast<float>(d.separator));
        d.separator = static_cast<float>(d.separator);
        d.precision = exact ? grid(r, 0, 8) * scale : r.uniform(0.01f, 1);
        if (p == problem::regression) data.setPrecision(static_cast<float>(d.precision));
        d.precision = static_cast<float>(d.precision);
    }
    else
        d.precision = 0.1f;
    Answers s;
    for (int i = 0; i < n; ++i)
    {
        s.answers.push_back(genAnswer(r, k, exact));
        for (auto& x : s.answers.back()) x *= scale;
        if (r.chance(0.2)) // close to the target
            s.answers.back() = testOut[static_cast<size_t>(i)];
        else if (exact && p == problem::regression && r.chance(0.5)) // on the boundary
            for (size_t j = 0; j < static_cast<size_t>(k); ++j)
                s.answers.back()[j] = testOut[static_cast<size_t>(i)][j] + static_cast<float>(d.precision) * static_cast<float>(r.range(-1, 1));
        d.add(s.answers.back(), testOut[static_cast<size_t>(i)]);
    }
    if (d.near) { c.count("near a boundary"); return; }
    const Registered reg(s);
    auto net = network(reg, m, k);
    const int times = r.range(1, 3);
    s.pure = true;
    for (int t = 0; t < times; ++t)
    {
        // alone, or in a training (before its first epoch and after it)
        const bool trained = r.chance(0.3);
        if (trained) net->train(data, epochs(1));
        else net->evaluate(data);
        const auto why = d.compare(Scores::of(*net));
        if (!why.empty())
        {
            c.fail("scores", vh::str("problem ", static_cast<int>(p), ", ", k, " outputs, separator ", d.separator, " precision ", d.precision, ", evaluation ", t, trained ? " in a training" : "", ": ", why));
            return;
        }
    }
    c.count("evaluations compared with the definitions", times);
    c.count("evaluations of very small or large values", scale != 1 ? times : 0);
    c.count("data scored", times * n);
    c.nontrivial(vh::mix(vh::hashVec(s.answers.back()) ^ static_cast<vh::u64>(n)));
    c.sample(vh::str("problem ", static_cast<int>(p), ", ", n, " data, ", k, " outputs, scores ", Scores::of(*net).str()));
}

// as many data as the testing set of a long record, with outputs of any magnitude
static void many(vh::Ctx& c)
{
    struct Cycle : Script
    {
        vector<vector<float>> answers;
        size_t next = 0;
        vector<float> output(const vector<float>&, bool, bool) override { return answers[next++ % answers.size()]; }
    };
    auto& r = c.rng;
    const auto p = genProblem(r);
    const int k = r.range(p == problem::classification ? 2 : 1, 3);
    const bool huge = c.thorough && c.index == 0; // more than a float can count
    const int n = huge ? 17'500'000 : c.index % 4 ? r.range(1, 3000) : r.range(100'000, 400'000);
    Cycle s;
    vector<vector<float>> targets;
    const size_t answers = static_cast<size_t>(r.range(1, 7)), rows = static_cast<size_t>(r.range(1, 5));
    const float amplitude = r.chance(0.5) ? 1.0f : std::pow(10.0f, r.uniform(-12, 30));
    for (size_t i = 0; i < answers; ++i)
    {
        s.answers.push_back(genAnswer(r, k, false));
        for (auto& x : s.answers.back()) x *= amplitude;
    }
    for (size_t i = 0; i < rows; ++i)
    {
        targets.push_back(genTarget(r, p, k, false));
        if (p == problem::regression) for (auto& x : targets.back()) x *= amplitude;
    }
    Definition d{p};
    d.precision = 0.1f;
    vector<vector<float>> in{{0.5f}}, out{targets[0]}, testIn(static_cast<size_t>(n), vector<float>{0.5f}), testOut;
    testOut.reserve(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i)
    {
        testOut.push_back(targets[static_cast<size_t>(i) % rows]);
        d.add(s.answers[static_cast<size_t>(i) % answers], testOut.back());
    }
    if (d.near) { c.count("near a boundary"); return; }
    Data data(p, in, out, testIn, testOut);
    const Registered reg(s);
    auto net = network(reg, 1, k);
    net->evaluate(data);
    const auto why = d.compare(Scores::of(*net));
    if (!why.empty()) c.fail("scores", vh::str("problem ", static_cast<int>(p), ", ", k, " outputs, amplitude ", amplitude, ": ", why));
    c.count("data scored", n);
    c.count(n >= 100'000 ? "evaluations of more than 100000 data" : "evaluations of outputs of any magnitude");
    c.nontrivial(vh::mix(vh::hashVec(s.answers.back()) ^ static_cast<vh::u64>(n)));
    c.sample(vh::str("problem ", static_cast<int>(p), ", ", n, " data, amplitude ", amplitude, ", scores ", Scores::of(*net).str()));
}

// real networks, of any layer, on any nature of data
static void real(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.3);
    go.dropout = true;
    const auto p = genProblem(r);
    const int k = r.range(p == problem::classification ? 2 : 1, 5);
    go.lastOutputs = k;
    const Arch a = gen(r, go);
    auto net = build(a);
    const int m = prod(a.in);
    const auto kind = vector<nature>{nature::nonTemporal, nature::sequential, nature::timeSeries}[static_cast<size_t>(r.below(3))];
    vector<vector<float>> in[2], out[2];
    vector<vector<vector<float>>> seq[2];
    vector<bool> first, last; // of the testing data
    for (int s = 0; s < 2; ++s)
    {
        const int sequences = r.sized(1, 6, 60);
        for (int q = 0; q < sequences; ++q)
        {
            const int n = r.sized(1, 5, 40, 0.01);
            seq[s].push_back({});
            for (int i = 0; i < n; ++i)
            {
                in[s].push_back(genInput(r, m));
                out[s].push_back(genTarget(r, p, k, false));
                seq[s].back().push_back(in[s].back());
                if (s == 0) { first.push_back(i == 0); last.push_back(i == n - 1); }
            }
        }
    }
    std::unique_ptr<Data> data;
    if (kind == nature::sequential) data = std::make_unique<Data>(p, seq[1], out[1], seq[0], out[0], kind);
    else data = std::make_unique<Data>(p, in[1], out[1], in[0], out[0], kind, kind == nature::timeSeries ? r.sized(1, 3, 30) : 0);
    if (r.chance(0.5) && p == problem::regression) data->setPrecision(r.uniform(0.05f, 0.8f));
    Definition d{p};
    if (p == problem::regression) d.precision = data->getPrecision();
    else d.separator = data->getSeparator();
    for (int i = r.below(3); i > 0; --i) // some history
        net->trainOnce(genInput(r, m), genTarget(r, p, k, false), r.chance(0.5));
    SNN copy(*net);
    long clusters = 0;
    for (size_t i = 0; i < in[0].size(); ++i)
    {
        const bool reset = kind == nature::nonTemporal || (kind == nature::sequential ? first[i] : i == 0);
        const auto y = copy.computeOutput(in[0][i], reset);
        for (float f : y)
            if (!(std::abs(f) < 1e5f)) { c.count("vague"); return; }
        if (kind == nature::sequential && !last[i])
            continue;
        d.add(y, out[0][i]);
        ++clusters;
        for (float f : y)
            d.near |= p != problem::regression && std::abs(f - d.separator) < 1e-6;
    }
    if (d.near) { c.count("near a boundary"); return; }
    net->evaluate(*data);
    const auto why = d.compare(Scores::of(*net));
    if (!why.empty())
    {
        c.fail("scores", vh::str(str(a), ", problem ", static_cast<int>(p), " nature ", static_cast<int>(kind), ": ", why));
        return;
    }
    c.count("evaluations compared with the definitions");
    c.count("data scored", clusters);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", clusters, " data, scores ", Scores::of(*net).str()));
}

// C09: several data sets, trainings, copies and saves; the best is the best of all the evaluations
static void best(vh::Ctx& c)
{
    auto& r = c.rng;
    const auto p = genProblem(r);
    const int k = r.range(p == problem::classification ? 2 : 1, 3), n = r.sized(1, 8, 120);
    vector<vector<float>> in, out;
    for (int i = 0; i < n; ++i)
    {
        in.push_back(genInput(r, 2));
        out.push_back(genTarget(r, p, k, true));
    }
    Data data(p, in, out);
    Answers s;
    auto script = [&] { // answers of the next evaluations: from all right to all wrong
        s.answers.clear();
        s.next = 0;
        for (int e = 0; e < 40; ++e)
        {
            const double quality = r.unit();
            const bool extreme = r.chance(0.1);
            for (int i = 0; i < n; ++i)
            {
                s.answers.push_back(r.chance(quality) ? out[static_cast<size_t>(i)] : genAnswer(r, k, true));
                if (extreme) for (auto& x : s.answers.back()) x *= r.chance(0.5) ? 1000.0f : 0.0f;
            }
        }
    };
    const Registered reg(s);
    std::unique_ptr<SNN> net = network(reg, 2, k);
    const Scores init{{-1, -1, -1, -1, -1}};
    Scores expected = init;
    long evaluations = 0, improvements = 0;
    bool pending = false;
    std::string trail;
    auto finished = [&] { // an evaluation is over: the scores it gave
        const auto now = Scores::of(*net), b = Scores::best(*net);
        ++evaluations;
        for (size_t i = 0; i < 5; ++i)
        {
            const bool better = !net->hasNan() && (expected.v[i] < 0 || (i < 3 ? now.v[i] > expected.v[i] : now.v[i] < expected.v[i]));
            improvements += better;
            if (better) expected.v[i] = now.v[i];
        }
        trail += "e";
        if (!b.same(expected) && !c.failed())
            c.fail("best-scores", vh::str("after ", trail, ": best scores ", b.str(), " instead of ", expected.str(), ", last evaluation ", now.str()));
        pending = false;
    };
    s.before = [&](bool training) {
        if (training && pending) finished();
        if (!training && pending && s.testing % n == 0) finished(); // two evaluations in a row
        if (!training) pending = true;
    };
    const int actions = r.range(3, 14);
    for (int i = 0; i < actions && !c.failed(); ++i)
    {
        script();
        s.testing = 0;
        if (!net->hasNan() && n > 1 && r.chance(0.04))
        {
            // an evaluation that meets a NaN: it gives no score, and the best ones stay
            const int at = r.below(n - 1);
            s.answers[static_cast<size_t>(at)][static_cast<size_t>(r.below(k))] = r.chance(0.5) ? std::numeric_limits<float>::quiet_NaN() : std::numeric_limits<float>::infinity();
            net->evaluate(data);
            pending = false;
            trail += "n";
            if (!net->hasNan()) c.fail("best-scores", vh::str("after ", trail, ": no NaN reported"));
            c.count("evaluations that meet a NaN");
        }
        switch (r.below(6))
        {
        case 0: case 1: case 2:
            net->evaluate(data);
            finished();
            break;
        case 3:
        {
            snn::Wait w;
            w.epochs = r.range(1, 3);
            trail += "t";
            net->train(data, w, 1, r.range(0, 2));
            if (pending) finished();
            break;
        }
        case 4:
            trail += "c";
            net = std::make_unique<SNN>(*net);
            break;
        default:
        {
            trail += "l";
            const auto f = c.scratch() + "/best.snn";
            net->saveAs(f);
            net.reset(&SNN::loadFrom(f));
            if (!Scores::best(*net).same(expected))
                c.fail("best-scores", vh::str("after ", trail, ": best scores ", Scores::best(*net).str(), " instead of ", expected.str()));
        }
        }
        if (!Scores::best(*net).same(expected) && !c.failed())
            c.fail("best-scores", vh::str("after ", trail, ": best scores ", Scores::best(*net).str(), " instead of ", expected.str()));
    }
    c.count("evaluations of a history", evaluations);
    c.count("improvements", improvements);
    c.count("histories");
    c.nontrivial(vh::mix(vh::hashStr(trail) ^ vh::hashVec({expected.v.begin(), expected.v.end()})));
    c.sample(vh::str("history ", trail, ", best ", expected.str()));
}

// C26: the cluster is the index of the largest output
static void cluster(vh::Ctx& c)
{
    auto& r = c.rng;
    const int k = r.sized(1, 9, 600);
    Answers s;
    const Registered reg(s);
    auto net = network(reg, 1, k);
    for (int t = 0; t < 30; ++t)
    {
        vector<float> y(static_cast<size_t>(k));
        const int kind = r.below(7);
        for (auto& x : y)
        {
            switch (kind)
            {
            case 0: x = -r.uniform(2.0f, 100.0f); break;
            case 1: x = static_cast<float>(r.range(-1, 1)); break;
            case 2: x = -std::pow(10.0f, r.uniform(0, 38)); break;
            case 3: x = std::pow(10.0f, r.uniform(-30, 38)) * (r.chance(0.5) ? 1.0f : -1.0f); break;
            case 4: x = 3.0e38f * (r.chance(0.5) ? -1.0f : -0.9f); break;
            case 5: x = 1.0f + static_cast<float>(r.below(3)) * 1.1920929e-7f; break;
            default: x = r.uniform(-1, 1);
            }
        }
        s.answers = {y};
        size_t best = 0;
        for (size_t i = 1; i < y.size(); ++i)
            if (y[i] > y[best]) best = i;
        const int got = net->computeCluster({0.0f}, r.chance(0.5));
        if (got != static_cast<int>(best))
        {
            c.fail("cluster", vh::str("computeCluster gives ", got, " for the outputs ", vh::vecStr(y)));
            return;
        }
        if (k < 2)
            continue;
        // and the decision of an evaluation
        const int label = r.chance(0.5) ? static_cast<int>(best) : r.below(k);
        vector<vector<float>> in{{0.0f}}, out{vector<float>(static_cast<size_t>(k), 0.0f)};
        out[0][static_cast<size_t>(label)] = 1;
        Data d(problem::classification, in, out);
        net->evaluate(d);
        const float expected = label == static_cast<int>(best) ? 1.0f : 0.0f;
        if (net->getGlobalClusteringRate() != expected)
        {
            c.fail("cluster-decision", vh::str("accuracy ", net->getGlobalClusteringRate(), " for label ", label, " and outputs ", vh::vecStr(y)));
            return;
        }
        c.count("decisions compared");
    }
    c.count("clusters compared", 30);
    c.nontrivial(vh::hashVec(s.answers[0]));
    c.sample(vh::str("outputs ", vh::vecStr(s.answers[0])));
}

static void realCluster(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.3);
    const Arch a = gen(r, go);
    auto net = build(a);
    SNN copy(*net);
    const int n = r.range(1, 6);
    for (int i = 0; i < n; ++i)
    {
        const auto x = genInput(r, prod(a.in));
        const bool reset = r.chance(0.5);
        const auto y = copy.computeOutput(x, reset);
        size_t best = 0;
        for (size_t j = 1; j < y.size(); ++j)
            if (y[j] > y[best]) best = j;
        const int got = net->computeCluster(x, reset);
        if (got != static_cast<int>(best))
        {
            c.fail("cluster", vh::str(str(a), ": computeCluster gives ", got, " for the outputs ", vh::vecStr(y)));
            return;
        }
        c.count("clusters compared");
    }
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(str(a));
}

// C26: labels of the data
static void labels(vh::Ctx& c)
{
    auto& r = c.rng;
    const int k = r.sized(2, 6, 150), m = r.range(1, 3);
    const auto kind = vector<nature>{nature::nonTemporal, nature::sequential, nature::timeSeries}[static_cast<size_t>(r.below(3))];
    const bool same = r.chance(0.3);
    vector<vector<float>> in[2], out[2];
    vector<vector<vector<float>>> seq[2];
    for (int s = 0; s < 2; ++s)
        for (int q = r.sized(1, 5, 40); q > 0; --q)
        {
            seq[s].push_back({});
            for (int i = r.sized(1, 5, 30, 0.01); i > 0; --i)
            {
                in[s].push_back(genInput(r, m));
                seq[s].back().push_back(in[s].back());
                vector<float> t(static_cast<size_t>(k));
                for (auto& x : t) x = r.chance(0.7) ? 0.0f : r.uniform(-0.9f, 0.9f);
                if (r.chance(0.9)) t[static_cast<size_t>(r.below(k))] = 1;
                out[s].push_back(t);
            }
        }
    std::unique_ptr<Data> d;
    auto p = problem::classification;
    const int rec = kind == nature::timeSeries ? r.sized(1, 3, 30) : 0;
    if (kind == nature::sequential)
        d = same ? std::make_unique<Data>(p, seq[1], out[1], kind) : std::make_unique<Data>(p, seq[1], out[1], seq[0], out[0], kind);
    else
        d = same ? std::make_unique<Data>(p, in[1], out[1], kind, rec) : std::make_unique<Data>(p, in[1], out[1], in[0], out[0], kind, rec);
    const auto& test = out[same ? 1 : 0];
    auto check = [&](const std::string& what, const vector<float>& target, const std::function<int()>& get) {
        int expected = -1;
        for (int i = k - 1; i >= 0; --i)
            if (target[static_cast<size_t>(i)] == 1.0f) expected = i;
        int got = -2;
        const bool threw = vh::throws([&] { got = get(); });
        if (threw ? expected >= 0 : got != expected)
            c.fail("label", vh::str(what, " gives ", threw ? "an exception" : std::to_string(got), " for the target ", vh::vecStr(target), " nature ", static_cast<int>(kind)));
        c.count("labels compared");
    };
    for (int e = 0; e < 4; ++e)
    {
        for (int i = 0; i < static_cast<int>(out[1].size()); ++i)
        {
            const auto target = d->getTrainingOutputs(i);
            const auto& own = out[1][static_cast<size_t>(d->sets[snn::training].shuffledIndexes[static_cast<size_t>(i)])];
            if (!vh::sameBits(target, own))
                c.fail("label", vh::str("the target of training data ", i, " is ", vh::vecStr(target), " instead of ", vh::vecStr(own)));
            check(vh::str("getTrainingLabel after ", e, " shuffles"), target, [&] { return d->getTrainingLabel(i); });
            check("getLabel(training)", target, [&] { return d->getLabel(snn::training, i); });
        }
        for (int i = 0; i < static_cast<int>(test.size()); ++i)
        {
            check("getTestingLabel", test[static_cast<size_t>(i)], [&] { return d->getTestingLabel(i); });
            check("getLabel(testing)", test[static_cast<size_t>(i)], [&] { return d->getLabel(snn::testing, i); });
        }
        if (c.failed())
            return;
        if (e == 2) d->unshuffle();
        else d->shuffle();
    }
    c.nontrivial(vh::hashVec(out[1][0], static_cast<vh::u64>(out[1].size())));
    c.sample(vh::str(out[1].size(), " training and ", test.size(), " testing data, nature ", static_cast<int>(kind)));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"scripted", 8000, 120000, scripted},
        {"many", 12, 300, many},
        {"real", 4000, 60000, real},
        {"best", 2500, 30000, best},
        {"cluster", 2000, 30000, cluster},
        {"realCluster", 3000, 40000, realCluster},
        {"labels", 2500, 30000, labels},
    });
}
