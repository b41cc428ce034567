// more than 65536 inputs, outputs, neurons, kernels or weights, hundreds of layers
#define VH_MAIN
#include "gen.hpp"
using namespace gen;
using spy::Registered;
using spy::Scores;
using spy::Script;

namespace
{
    int wide(Rng& r) { return r.range(65'600, 90'000); }

    Arch architecture(Rng& r)
    {
        const int kind = r.below(15);
        Arch a = genHuge(r, kind);
        if (r.chance(0.3))
            for (auto& l : a.layers)
                if (kind != 14 || r.chance(0.02)) l.opts = genOpts(r, kind < 8 || kind > 11);
        return a;
    }
}

// C04, C05, C06, C20, C21
static void lives(vh::Ctx& c, int part)
{
    auto& r = c.rng;
    const Arch a = architecture(r);
    auto net = build(a);
    setRandomWeights(r, *net, a, 0.5f);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
    const auto what = str(a);
    vector<vector<float>> x, t;
    for (int i = 0; i < 3; ++i) { x.push_back(genInput(r, nIn, 1.0f)); t.push_back(genInput(r, nOut, 0.9f)); }
    auto learn = [&](SNN& s, int from, int to) { for (int i = from; i < to; ++i) s.trainOnce(x[static_cast<size_t>(i % 3)], t[static_cast<size_t>(i % 3)], i % 3 == 0); };
    const int n = r.range(1, 3);
    const auto seed = r.next();
    if (part != 4) vh::runThread(seed, [&] { learn(*net, 0, n); });
    if (!sane(*net, a)) { c.count("vague"); return; }
    auto same = [&](SNN& o, const char* k) {
        const auto why = compareState(*net, o, a);
        if (!why.empty()) { c.fail(k, what + ": " + why); return; }
        const auto s2 = r.next();
        const bool reset = r.chance(0.5);
        vector<float> y1, y2;
        vh::runThread(s2, [&] { y1 = net->computeOutput(x[0], reset); learn(*net, 1, 3); });
        vh::runThread(s2, [&] { y2 = o.computeOutput(x[0], reset); learn(o, 1, 3); });
        if (!vh::sameBits(y1, y2)) { c.fail(k, what + ": outputs " + vh::vecStr(y1) + " and " + vh::vecStr(y2)); return; }
        const auto later = compareState(*net, o, a);
        if (!later.empty()) c.fail(k, what + ", later: " + later);
        c.count("huge networks compared");
    };
    if (part == 0)
    {
        SNN copy(*net);
        if (!(copy == *net)) c.fail("huge-copy", what + ": the copy is not equal");
        same(copy, "huge-copy");
    }
    if (part == 1)
    {
        const auto f = c.scratch() + "/huge.snn";
        net->saveAs(f);
        std::unique_ptr<SNN> l(&SNN::loadFrom(f));
        std::remove(f.c_str());
        same(*l, "huge-load");
    }
    if (part == 2)
        for (int i = 0; i < 4; ++i)
        {
            SNN copy(*net);
            if (!(copy == *net) || copy != *net) { c.fail("huge-equality", what + ": a copy is not equal"); return; }
            // one weight, by the smallest difference: anywhere, the last one, or one beyond the 65536th
            size_t l = static_cast<size_t>(r.below(static_cast<int>(a.layers.size())));
            while (a.layers[l].type == snn::maxPooling) l = static_cast<size_t>(r.below(static_cast<int>(a.layers.size())));
            auto w = layerWeights(*copy.layers[l], a.layers[l].type);
            auto at = [&](size_t size) { return r.chance(0.3) ? size - 1 : static_cast<size_t>(r.range(static_cast<int>(size > 65536 && r.chance(0.5) ? 65536 : 0), static_cast<int>(size) - 1)); };
            const size_t k = at(w.size()), j = at(w[k].size());
            auto& v = w[k][j];
            v = v == 0 ? 1e-30f : std::nextafter(v, r.chance(0.5) ? 1e30f : -1e30f);
            setLayerWeights(*copy.layers[l], a.layers[l].type, w);
            const auto how = vh::str(what, ": layer ", l, " neuron ", k, " weight ", j);
            if (copy == *net || !(copy != *net) || *net == copy) { c.fail("huge-equality", how + " changed: still equal"); return; }
            c.count("huge networks compared");
        }
    if (part == 3)
    {
        SNN twin(*net);
        const auto before = allWeights(*net, a);
        const bool memory = hasMemory(a);
        const auto y0 = net->computeOutput(x[0], true);
        (void)net->computeOutput(x[1], true);
        (void)net->computeCluster(x[2]);
        const auto y1 = net->computeOutput(x[0], true);
        if (!memory && !vh::sameBits(y0, y1)) c.fail("huge-outputs", vh::str(what, ": ", vh::vecStr(y0), " and later ", vh::vecStr(y1)));
        const auto d = diffWeights(before, allWeights(*net, a));
        if (!d.empty()) c.fail("huge-outputs", what + ": outputs change the weights: " + d);
        if (!memory)
        {
            const auto s2 = r.next();
            vh::runThread(s2, [&] { learn(*net, 0, 2); });
            vh::runThread(s2, [&] { learn(twin, 0, 2); });
            const auto later = diffWeights(allWeights(*net, a), allWeights(twin, a));
            if (!later.empty()) c.fail("huge-outputs", what + ": the future depends on the outputs computed: " + later);
        }
        c.count("huge networks compared");
    }
    if (part == 4)
    {
        SNN mirror(*net);
        vector<vector<float>> in{x[0]}, out{t[0]};
        Data data(problem::regression, in, out);
        vh::runThread(seed, [&] { net->train(data, epochs(n), 1, 0); });
        bool dropout = false;
        for (auto& l : a.layers) for (auto& o : l.opts) dropout |= o.type == snn::layerOptimizerType::dropout;
        if (dropout) { c.count("with dropout"); return; }
        for (int i = 0; i < n; ++i) mirror.trainOnce(x[0], t[0], true);
        if (!sane(mirror, a)) { c.count("vague"); return; }
        const auto d = diffWeights(allWeights(*net, a), allWeights(mirror, a));
        if (!d.empty()) c.fail("huge-replay", what + ": " + d);
        if (net->getNumberOfTraining() != n) c.fail("huge-count", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported"));
        c.count("huge networks compared");
    }
    c.nontrivial(vh::hashStr(what));
    c.sample(vh::str(what, ", ", net->getNumberOfParameters(), " parameters"));
}

// C08, C26
static void scores(vh::Ctx& c)
{
    struct Answers : Script
    {
        vector<vector<float>> y;
        size_t next = 0;
        vector<float> output(const vector<float>&, bool, bool) override { return y[next++ % y.size()]; }
    } s;
    auto& r = c.rng;
    const auto p = static_cast<problem>(r.below(3));
    const int k = wide(r), n = r.range(1, 4);
    vector<vector<float>> in(static_cast<size_t>(n), {0.5f}), out;
    spy::Definition d{p};
    d.separator = static_cast<float>(r.uniform(-0.5f, 0.5f));
    d.precision = static_cast<float>(r.uniform(0.2f, 0.5f));
    auto where = [&] { return static_cast<size_t>(r.chance(0.7) ? r.range(65'536, k - 1) : r.below(k)); };
    vector<int> expected;
    for (int i = 0; i < n; ++i)
    {
        vector<float> y(static_cast<size_t>(k)), t(static_cast<size_t>(k), 0.0f);
        for (auto& v : y) v = static_cast<float>(r.range(-64, 64)) / 64 * 0.9f;
        const size_t best = where();
        y[best] = r.uniform(1.0f, 2.0f);
        if (p == problem::classification) t[r.chance(0.6) ? best : where()] = 1;
        else if (p == problem::multipleClassification)
        {
            for (size_t j = 0; j < t.size(); ++j) t[j] = y[j] > static_cast<float>(d.separator) ? 1.0f : 0.0f;
            if (d.separator >= 1) { c.count("vague"); return; }
            for (int j = r.below(4); j > 0; --j) { auto& v = t[where()]; v = 1 - v; }
        }
        else
        {
            for (size_t j = 0; j < t.size(); ++j) t[j] = y[j] + static_cast<float>(r.range(-8, 8)) / 64;
            if (r.chance(0.5)) { const auto j = where(); t[j] = y[j] + (r.chance(0.5) ? 0.75f : -0.75f); }
        }
        d.add(y, t);
        s.y.push_back(y);
        out.push_back(t);
        expected.push_back(static_cast<int>(best));
    }
    if (d.near) { c.count("near a boundary"); return; }
    auto in2 = in;
    Data data(p, in, out);
    if (p == problem::regression) data.setPrecision(static_cast<float>(d.precision)); else data.setSeparator(static_cast<float>(d.separator));
    const Registered reg(s);
    auto net = spy::network(reg, 1, k);
    net->evaluate(data);
    const auto what = vh::str("problem ", static_cast<int>(p), ", ", n, " data of ", k, " outputs, separator ", d.separator, " precision ", d.precision);
    const auto why = d.compare(Scores::of(*net));
    if (!why.empty()) c.fail("huge-scores", what + ": " + why);
    s.next = 0;
    for (int i = 0; i < n; ++i)
    {
        const int cluster = net->computeCluster(in2[static_cast<size_t>(i)], true);
        if (cluster != expected[static_cast<size_t>(i)]) { c.fail("huge-cluster", vh::str(what, ": cluster ", cluster, " instead of ", expected[static_cast<size_t>(i)])); return; }
        c.count("clusters of huge outputs");
    }
    c.count("scores of huge outputs");
    c.nontrivial(vh::hashVec(s.y[0]));
    c.sample(what);
}

// C10: rows and means of batches of very large data
static void batch(vh::Ctx& c)
{
    struct Rows : Script
    {
        vector<vector<float>> in, err;
        vector<float> answer;
        vector<float> output(const vector<float>& x, bool, bool t) override { if (t) in.push_back(x); return answer; }
        void train(const vector<float>& e) override { err.push_back(e); }
    } s;
    auto& r = c.rng;
    const bool first = r.chance(0.5); // not both: the network would have billions of weights
    const int nIn = first ? wide(r) : r.range(1, 40), nOut = first ? r.range(1, 40) : wide(r), n = r.range(1, 5), b = r.range(1, n);
    vector<vector<float>> in, out;
    auto row = [&](int size) { vector<float> v(static_cast<size_t>(size)); for (auto& f : v) f = static_cast<float>(r.range(-64, 64)); return v; };
    for (int i = 0; i < n; ++i)
    {
        in.push_back(row(nIn));
        out.push_back(row(nOut));
        in.back()[0] = out.back()[0] = static_cast<float>(std::pow(7, i)); // the mean tells which ones
    }
    s.answer.assign(static_cast<size_t>(nOut), 0.0f);
    auto in2 = in, out2 = out;
    Data data(problem::regression, in2, out2);
    const Registered reg(s);
    auto net = spy::network(reg, nIn, nOut);
    net->train(data, epochs(1), b, 0);
    const auto what = vh::str(n, " data of ", nIn, " inputs and ", nOut, " outputs, batches of ", b);
    if (static_cast<int>(s.in.size()) != n / b || s.in.size() != s.err.size()) { c.fail("huge-batch", vh::str(what, ": ", s.in.size(), " steps")); return; }
    for (size_t k = 0; k < s.in.size(); ++k)
    {
        vector<int> members; // digits of the sum in base 7
        auto sum = std::llround(static_cast<double>(s.in[k][0]) * b);
        for (int i = 0; i < n; ++i, sum /= 7)
            for (auto d = sum % 7; d > 0; --d) members.push_back(i);
        if (static_cast<int>(members.size()) != b) { c.fail("huge-batch", vh::str(what, ": step ", k, " presents the mean ", s.in[k][0])); return; }
        auto check = [&](const vector<vector<float>>& rows, const vector<float>& got, double factor, const char* name) {
            if (got.size() != rows[0].size()) { c.fail("huge-batch", vh::str(what, ": ", name, " of size ", got.size())); return; }
            for (size_t j = 0; j < got.size(); ++j)
            {
                double mean = 0;
                for (int m : members) mean += rows[static_cast<size_t>(m)][j];
                mean = mean / b * factor;
                if (std::abs(got[j] - mean) > 1e-5 * (64 + std::abs(mean))) { c.fail("huge-batch", vh::str(what, ": step ", k, " ", name, " ", j, " is ", got[j], " instead of ", mean)); return; }
            }
        };
        check(in, s.in[k], 1, "input");
        check(out, s.err[k], 2, "error");
        c.count("values of huge batches compared", static_cast<long>(nIn + nOut));
    }
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C18
static void normalizeCase(vh::Ctx& c)
{
    auto& r = c.rng;
    const int nIn = wide(r), n = r.range(1, 4), tests = r.range(1, 2);
    const float lo = static_cast<float>(r.range(-4, 0)), hi = lo + static_cast<float>(r.range(1, 4));
    auto rows = [&](int k) { vector<vector<float>> v(static_cast<size_t>(k), vector<float>(static_cast<size_t>(nIn))); for (auto& x : v) for (auto& f : x) f = static_cast<float>(r.range(-64, 64)) / 8; return v; };
    const auto in = rows(n), inT = rows(tests);
    vector<vector<float>> out(static_cast<size_t>(n), {0.5f}), outT(static_cast<size_t>(tests), {0.5f});
    auto a = in, b = inT;
    Data data(problem::regression, a, out, b, outT);
    data.normalize(lo, hi);
    const auto what = vh::str(n, "+", tests, " data of ", nIn, " features to [", lo, ";", hi, "]");
    for (int j = 0; j < nIn; ++j)
    {
        const auto f = static_cast<size_t>(j);
        double mn = in[0][f], mx = mn;
        for (auto& x : in) { mn = std::min<double>(mn, x[f]); mx = std::max<double>(mx, x[f]); }
        if (mn == mx) continue;
        for (auto* set : {&in, &inT})
            for (size_t i = 0; i < set->size(); ++i)
            {
                const double y = lo + ((*set)[i][f] - mn) / (mx - mn) * (static_cast<double>(hi) - lo);
                const float got = data.sets[set == &in ? snn::training : snn::testing].inputs[i][f];
                if (std::abs(got - y) > 1e-5 * (8 + std::abs(y))) { c.fail("huge-normalize", vh::str(what, ": feature ", j, " of data ", i, " is ", got, " instead of ", y)); return; }
            }
    }
    c.count("features of huge data normalized", nIn);
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

// C15: one special value among very many outputs
static void nanCase(vh::Ctx& c)
{
    struct One : Script
    {
        int k = 0, at = 0;
        long n = 0, when = 0, learned = 0;
        float value = 0;
        vector<float> output(const vector<float>&, bool, bool) override
        {
            vector<float> y(static_cast<size_t>(k), 0.25f);
            if (n++ >= when) y[static_cast<size_t>(at)] = value;
            return y;
        }
        void train(const vector<float>&) override { learned += n > when; }
    } s;
    auto& r = c.rng;
    s.k = wide(r);
    s.at = r.chance(0.2) ? s.k - 1 : r.chance(0.6) ? r.range(65'536, s.k - 1) : r.below(s.k);
    s.when = r.below(6);
    s.value = r.pick(vector<float>{NAN, -NAN, INFINITY, -INFINITY});
    vector<vector<float>> in(3, {1.0f}), out(3, vector<float>(static_cast<size_t>(s.k), 0.0f));
    const auto target = out[0];
    const auto what = vh::str(s.k, " outputs, the output ", s.at, " is special after ", s.when, " outputs");
    Data data(problem::regression, in, out);
    const Registered reg(s);
    auto net = spy::network(reg, 1, s.k);
    if (r.chance(0.5)) net->train(data, epochs(10), 1, 0);
    else
        for (long i = 0; i <= s.when; ++i)
        {
            if (net->hasNan()) { c.fail("huge-nan", vh::str(what, ": reported after ", i)); return; }
            if (r.chance(0.5)) (void)net->computeOutput({1.0f}); else net->trainOnce({1.0f}, target);
        }
    if (!net->hasNan() || s.n <= s.when) c.fail("huge-nan", what + ": not reported");
    if (s.learned) c.fail("huge-nan", what + ": a step was applied");
    c.count("special values of huge outputs");
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"copy", 3, 100, [](vh::Ctx& c) { lives(c, 0); }},
        {"load", 3, 100, [](vh::Ctx& c) { lives(c, 1); }},
        {"equal", 3, 100, [](vh::Ctx& c) { lives(c, 2); }},
        {"outputs", 3, 100, [](vh::Ctx& c) { lives(c, 3); }},
        {"replay", 3, 100, [](vh::Ctx& c) { lives(c, 4); }},
        {"scores", 5, 100, scores},
        {"batch", 5, 100, batch},
        {"normalize", 5, 100, normalizeCase},
        {"nan", 5, 100, nanCase},
    });
}
