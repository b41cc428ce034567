// C01: inference computes the function defined by the architecture and the weights
#define VH_MAIN
#include "ref.hpp"
using namespace ref;

// feeds sequences to the real network, and each layer's real inputs to the specification
static void run(vh::Ctx& c, const GenOptions& go, int longSteps = 0, bool huge = false)
{
    auto& r = c.rng;
    const Arch a = huge ? genHuge(r) : gen(r, go);
    auto net = build(a);
    if (huge) setRandomWeights(r, *net, a);
    if (longSteps && net->getNumberOfParameters() > 60) { c.count("too large"); return; }
    const bool memory = hasMemory(a);
    if (!huge && !memory && r.chance(0.3)) // also after a training
    {
        std::vector<float> d(static_cast<size_t>(net->getNumberOfOutputs()), 0.5f);
        for (int i = r.range(1, 3); i > 0; --i)
            net->trainOnce(genInput(r, prod(a.in)), d, r.chance(0.5));
    }
    SNN manual(*net);
    vector<ref::Layer> clean, buggy;
    vector<int> shape = a.in;
    for (auto& l : a.layers)
    {
        clean.emplace_back(l, shape, Mode{});
        buggy.emplace_back(l, shape, Mode{.k2 = true});
        shape = clean.back().out;
    }
    const int n = prod(a.in);
    const int steps = longSteps ? longSteps : huge ? r.range(1, 3) : memory ? r.sized(2, 7, 80) : r.range(1, 4);
    vector<bool> ok(a.layers.size(), true), okBuggy(a.layers.size(), true);
    // weights other than the initial ones too
    for (size_t l = 0; l < a.layers.size() && !huge; ++l)
    {
        if (a.layers[l].type == snn::gruLayer || a.layers[l].type == snn::maxPooling || !r.chance(0.5))
            continue;
        auto w = layerWeights(*net->layers[l], a.layers[l].type);
        for (auto& v : w)
            for (auto& x : v) x = r.uniform(-1.5f, 1.5f);
        setLayerWeights(*net->layers[l], a.layers[l].type, w);
        setLayerWeights(*manual.layers[l], a.layers[l].type, w);
    }
    long compared = 0;
    for (int s = 0; s < steps; ++s)
    {
        const auto input = genInput(r, n);
        const bool reset = memory ? s == 0 : r.chance(0.5);
        const auto whole = net->computeOutput(input, reset);
        vector<float> x = input;
        for (size_t l = 0; l < a.layers.size(); ++l)
        {
            const auto w = layerWeights(*manual.layers[l], a.layers[l].type);
            if (static_cast<int>(w.size()) != clean[l].numberOfNeurons())
            {
                c.fail("number-of-neurons", vh::str(str(a), " layer ", l, " has ", w.size(), " neurons"));
                return;
            }
            for (auto& v : w)
                if (static_cast<int>(v.size()) != clean[l].weightsPerNeuron())
                {
                    c.fail("number-of-weights", vh::str(str(a), " layer ", l, " has a neuron of ", v.size(), " weights instead of ", clean[l].weightsPerNeuron()));
                    return;
                }
            const auto y = manual.layers[l]->output(x, reset);
            for (auto* m : {&clean[l], &buggy[l]})
            {
                auto& good = m == &clean[l] ? ok : okBuggy;
                if (!good[l] || (m == &buggy[l] && a.layers[l].type != snn::gruLayer))
                    continue;
                auto e = m->forward(x, reset, w);
                if (vague(e)) { c.count("vague"); return; }
                m->afterOutput(e, false, nullptr);
                const int i = mismatch(y, e);
                compared += static_cast<long>(y.size());
                if (i >= 0)
                {
                    good[l] = false;
                    if (a.layers[l].type != snn::gruLayer || m == &buggy[l])
                    {
                        c.fail("layer-output", vh::str(str(a), " step ", s, " layer ", l, ": ", describe(y, e, i), " inputs ", vh::vecStr(x)));
                        return;
                    }
                }
                if (a.layers[l].opts.empty())
                    m->sync(y);
            }
            x = y;
        }
        if (!vh::sameBits(x, whole))
        {
            c.fail("composition", vh::str(str(a), " step ", s, ": computeOutput gives ", vh::vecStr(whole), " and the layers one after the other ", vh::vecStr(x)));
            return;
        }
    }
    for (size_t l = 0; l < a.layers.size(); ++l)
        if (!ok[l])
            c.known("K2", vh::str(str(a), " layer ", l, ": the output of the GRU ignores its previous output"));
    c.count("values compared with the specification", compared);
    c.count("network outputs", steps);
    if (huge) c.count("outputs of huge networks", steps);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", steps, " inputs, ", compared, " layer output values compared"));
}

// inputs and weights of any magnitude, mixed in one input or not
static void scales(vh::Ctx& c, const GenOptions& go)
{
    auto& r = c.rng;
    Arch a = gen(r, go);
    auto net = build(a);
    auto magnitude = [&](int n) { return std::ldexp(r.uniform(1, 2), r.range(-n, n)) * (r.chance(0.5) ? -1.0f : 1.0f); };
    vector<int> shape = a.in;
    const auto text = str(a);
    long compared = 0;
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        auto& layer = *net->layers[l];
        const auto type = a.layers[l].type;
        ref::Layer m(a.layers[l], shape);
        auto w = layerWeights(layer, type);
        if (type != snn::maxPooling)
        {
            const float scale = magnitude(r.pick(vector<int>{0, 10, 40}));
            const bool mixed = r.chance(0.3);
            for (auto& v : w)
                for (auto& q : v) q = mixed ? scale * magnitude(15) : scale * r.uniform(-1, 1);
            setLayerWeights(layer, type, w);
        }
        const int limit = type == snn::maxPooling ? 120 : r.pick(vector<int>{0, 3, 10, 40});
        for (int s = 0; s < 3; ++s)
        {
            vector<float> x;
            const bool mixed = r.chance(0.4), negative = r.chance(0.3);
            const float scale = magnitude(limit);
            for (int i = 0; i < prod(shape); ++i)
            {
                x.push_back(r.chance(0.1) ? 0.0f : mixed ? magnitude(limit) : scale * r.uniform(-1, 1));
                if (negative) x.back() = -std::abs(x.back());
            }
            const auto y = layer.output(x, s == 0);
            const auto e = m.forward(x, s == 0, w);
            bool skip = false;
            for (auto& v : e) skip |= !(std::abs(v.v) < 1e37) || !(v.t < 1e37);
            if (skip) { c.count("vague"); break; }
            const int i = mismatch(y, e);
            compared += static_cast<long>(y.size());
            if (i >= 0) { c.fail("layer-output", vh::str(text, " layer ", l, ": ", describe(y, e, i), " inputs ", vh::vecStr(x))); return; }
            m.sync(y);
        }
        shape = m.out;
    }
    c.count("values of any magnitude compared", compared);
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

// a kernel reads exactly the inputs of its place: one weight at a time, one input at a time
static void probe(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    Arch a;
    const bool twoD = r.chance(0.6);
    a.in = twoD ? vector<int>{r.range(1, 3), r.range(1, 9), r.range(1, 9)} : vector<int>{r.range(1, 3), r.range(1, 12)};
    L l{vector<layerType>{snn::maxPooling, snn::locallyConnected, snn::convolution}[static_cast<size_t>(r.below(3))]};
    l.act = activation::identity;
    l.n = l.type == snn::maxPooling ? 0 : r.range(1, 4);
    l.k = r.range(1, twoD ? std::min(a.in[1], a.in[2]) : a.in[1]);
    a.layers = {l};
    auto net = build(a);
    ref::Layer spec(l, a.in);
    auto& layer = *net->layers[0];
    if (layer.getShapeOfOutput() != spec.out)
    {
        c.fail("shape", str(a));
        return;
    }
    long compared = 0;
    const int n = prod(a.in);
    for (int t = 0; t < 40; ++t)
    {
        vector<float> x(static_cast<size_t>(n), 0.0f);
        if (t < n) x[static_cast<size_t>(t)] = r.chance(0.5) ? 1.0f : -1.0f;
        else for (auto& v : x) v = static_cast<float>(r.range(-3, 3));
        auto w = layerWeights(layer, l.type);
        for (auto& v : w) for (auto& q : v) q = static_cast<float>(r.range(-5, 5));
        setLayerWeights(layer, l.type, w);
        const auto y = net->computeOutput(x, true);
        const auto e = spec.forward(x, true, w);
        const int i = mismatch(y, e);
        compared += static_cast<long>(y.size());
        if (i >= 0)
        {
            c.fail("kernel-placement", vh::str(str(a), ": ", describe(y, e, i), " inputs ", vh::vecStr(x, 60)));
            return;
        }
    }
    c.count("values compared with the specification", compared);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", compared, " values"));
}

int main(int argc, char** argv)
{
    GenOptions all, dense, conv, temporal, opts;
    dense.filters = dense.rec = dense.gru = false;
    dense.maxFc = 40;
    conv.rec = conv.gru = false;
    conv.maxX = 11;
    temporal.filters = temporal.fc = false;
    temporal.maxLayers = 3;
    opts.opts = true;
    GenOptions big;
    big.gru = false;
    big.maxFc = 120;
    big.maxX = 18;
    big.maxFilters = 9;
    big.maxLayers = 3;
    GenOptions tiny;
    tiny.maxX = 3;
    tiny.maxLayers = 2;
    return vh::runAll(argc, argv, {
        {"longer", 1, 20, [=](vh::Ctx& c) { run(c, tiny, c.index % 2 ? 3000 : 67'000); }},
        {"huge", 8, 200, [=](vh::Ctx& c) { run(c, all, 0, true); }},
        {"large", 60, 1000, [=](vh::Ctx& c) { run(c, big); }},
        {"mixed", 8000, 80000, [=](vh::Ctx& c) { run(c, all); }},
        {"dense", 1500, 10000, [=](vh::Ctx& c) { run(c, dense); }},
        {"filters", 6000, 60000, [=](vh::Ctx& c) { run(c, conv); }},
        {"temporal", 3000, 12000, [=](vh::Ctx& c) { run(c, temporal); }},
        {"optimizers", 3000, 12000, [=](vh::Ctx& c) { run(c, opts); }},
        {"scales", 4000, 40000, [=](vh::Ctx& c) { auto o = all; o.gru = false; scales(c, o); }},
        {"probe", 5000, 30000, probe},
    });
}
