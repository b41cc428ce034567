// C02 (and C17): a training step is exact gradient descent with momentum, layer by layer and as a whole
#define VH_MAIN
#include "ref.hpp"
using namespace ref;

namespace
{
    struct Candidate
    {
        ref::Layer model;
        bool alive = true;
        std::string why;
    };

    // the clean specification, and those with the known defects (k1: only looked for in C03)
    vector<vector<Candidate>> candidates(const Arch& a, bool k1)
    {
        vector<vector<Candidate>> all;
        vector<int> shape = a.in;
        for (auto& l : a.layers)
        {
            vector<Candidate> c;
            if (l.type == snn::gruLayer)
                for (int m = 0; m < (k1 ? 8 : 4); ++m)
                    c.push_back({ref::Layer(l, shape, Mode{.k1 = (m & 4) != 0, .k2 = (m & 1) != 0, .k3 = (m & 2) != 0}), true, ""});
            else if (l.type == snn::recurrence)
                for (int m = 0; m < (k1 ? 2 : 1); ++m)
                    c.push_back({ref::Layer(l, shape, Mode{.k1 = m != 0}), true, ""});
            else if (l.type == snn::locallyConnected && filterShape(shape).size() == 2)
                for (int m = 0; m < 2; ++m)
                    c.push_back({ref::Layer(l, shape, Mode{.k4 = m != 0}), true, ""});
            else
                c.push_back({ref::Layer(l, shape), true, ""});
            shape = c.back().model.out;
            all.push_back(std::move(c));
        }
        return all;
    }

    // keeps the candidates that agree; false when none is left
    bool keep(vector<Candidate>& cs, const std::function<std::string(ref::Layer&)>& f)
    {
        bool any = false;
        for (auto& c : cs)
        {
            if (!c.alive)
                continue;
            c.why = f(c.model);
            c.alive = c.why.empty();
            any |= c.alive;
        }
        return any;
    }

    bool vagueAll(const vector<vector<V>>& v)
    {
        for (auto& x : v)
            if (vague(x))
                return true;
        return false;
    }
}

static void run(vh::Ctx& c, const GenOptions& go, bool withOpts, bool sequences = false, bool memoryFindings = true, int longSteps = 0, bool huge = false)
{
    auto& r = c.rng;
    const int kind = huge ? sequences ? r.range(8, 11) : r.below(15) : 0;
    Arch a = huge ? genHuge(r, kind) : gen(r, go);
    if (huge && withOpts)
        for (auto& l : a.layers)
            if (kind != 14 || r.chance(0.02)) l.opts = genOpts(r, kind < 8 || kind > 11);
    if (withOpts)
        for (auto& l : a.layers) // what dropout zeroed must stay visible in the output of its layer
        {
            bool dropout = false, softmax = false;
            for (auto& o : l.opts)
            {
                dropout |= o.type == snn::layerOptimizerType::dropout;
                softmax |= o.type == snn::layerOptimizerType::softmax;
            }
            if (dropout && (l.act == activation::ReLU || softmax))
                l.act = activation::sigmoid;
        }
    if (longSteps) { a.lr *= 0.01f; a.mom *= 0.5f; }
    auto net = build(a);
    if (longSteps && net->getNumberOfParameters() > 60) { c.count("too large"); return; }
    const int nIn = prod(a.in);
    const bool memory = hasMemory(a);
    bool hasDropout = false;
    for (auto& l : a.layers)
        for (auto& o : l.opts)
            hasDropout |= o.type == snn::layerOptimizerType::dropout;
    if (huge) setRandomWeights(r, *net, a);
    else if (r.chance(0.5))
        for (size_t l = 0; l < a.layers.size(); ++l)
        {
            auto w = layerWeights(*net->layers[l], a.layers[l].type);
            for (auto& v : w)
                for (auto& x : v) x = r.uniform(-1.0f, 1.0f);
            setLayerWeights(*net->layers[l], a.layers[l].type, w);
        }
    SNN manual(*net);
    auto specs = candidates(a, sequences);
    const int nOut = specs.back().front().model.nOut;
    const int steps = longSteps ? longSteps : huge ? (sequences ? 4 : 2) : sequences ? r.sized(4, 16, 120) : r.sized(2, 6, 40);
    int resets = 0, trained = 0;
    long weightsCompared = 0, errorsCompared = 0;
    for (int s = 0; s < steps; ++s)
    {
        const bool reset = sequences ? s == 0 || r.chance(0.3) : memory ? s == 0 : hasDropout ? (s == 0 || r.chance(0.4)) : r.chance(0.5);
        const auto input = genInput(r, nIn);
        const auto desired = genInput(r, nOut, 1.0f);
        const auto before = allWeights(manual, a);
        const bool inference = sequences && r.chance(0.35);
        resets += reset;
        trained += !inference;
        if (!longSteps && !huge && r.chance(0.1)) // another learning rate from now on
        {
            a.lr = r.uniform(0.005f, 0.2f);
            a.mom = r.uniform(0.0f, 0.9f);
            for (auto* n : {net.get(), &manual})
            {
                auto& sgd = dynamic_cast<snn::internal::StochasticGradientDescent&>(*n->optimizer);
                sgd.learningRate = a.lr;
                sgd.momentum = a.mom;
            }
            c.count("changes of learning rate");
        }
        // forward, layer after layer
        vector<float> x = input;
        for (size_t l = 0; l < a.layers.size(); ++l)
        {
            const auto y = inference ? manual.layers[l]->output(x, reset) : manual.layers[l]->outputForTraining(x, reset);
            bool isVague = false;
            if (!keep(specs[l], [&](ref::Layer& m) {
                    auto e = m.forward(x, reset, before[l]);
                    if (vague(e)) { isVague = true; return std::string(); }
                    m.afterOutput(e, !inference, &y);
                    const int i = mismatch(y, e);
                    if (a.layers[l].opts.empty())
                        m.sync(y);
                    return i < 0 ? std::string() : describe(y, e, i);
                }))
            {
                c.fail(sequences ? "sequence-output" : "training-output", vh::str(str(a), " step ", s, " layer ", l, ": ", specs[l].back().why));
                return;
            }
            if (isVague) { c.count("vague"); return; }
            x = y;
        }
        if (inference)
        {
            if (!vh::sameBits(net->computeOutput(input, reset), x))
            {
                c.fail("sequence-output", vh::str(str(a), " step ", s, ": the network and its layers one after the other give different outputs"));
                return;
            }
            continue;
        }
        vector<float> errors(x.size());
        for (size_t i = 0; i < x.size(); ++i)
            errors[i] = 2 * (desired[i] - x[i]);
        // backward
        for (size_t l = a.layers.size(); l-- > 0;)
        {
            auto given = errors;
            vector<float> back;
            if (l > 0) back = manual.layers[l]->backOutput(errors);
            else manual.layers[0]->train(errors);
            const auto after = layerWeights(*manual.layers[l], a.layers[l].type);
            bool isVague = false;
            if (!keep(specs[l], [&](ref::Layer& m) -> std::string {
                    vector<V> e;
                    for (float v : given) e.push_back({v, 0});
                    m.beforeBack(e, before[l]);
                    const auto b = m.backward(e, before[l], a.lr, a.mom);
                    if (vagueAll(b.weights) || vague(b.errors)) { isVague = true; return ""; }
                    for (size_t n = 0; n < after.size(); ++n)
                    {
                        const int i = mismatch(after[n], b.weights[n]);
                        weightsCompared += static_cast<long>(after[n].size());
                        if (i >= 0)
                            return vh::str("weights of neuron ", n, ": ", describe(after[n], b.weights[n], i), " from ", before[l][n][static_cast<size_t>(i)]);
                    }
                    if (l > 0)
                    {
                        const int i = mismatch(back, b.errors);
                        errorsCompared += static_cast<long>(back.size());
                        if (i >= 0)
                            return "propagated errors: " + describe(back, b.errors, i);
                    }
                    return "";
                }))
            {
                c.fail("training-step", vh::str(str(a), " step ", s, " layer ", l, ": ", specs[l].back().why));
                return;
            }
            if (isVague) { c.count("vague"); return; }
            if (l > 0) errors = back;
        }
        if (!hasDropout)
        {
            const auto count = net->getNumberOfTraining();
            net->trainOnce(input, desired, reset);
            if (net->getNumberOfTraining() != count + 1)
                c.fail("training-count", vh::str(str(a), ": ", count, " then ", net->getNumberOfTraining()));
            const auto d = diffWeights(allWeights(*net, a), allWeights(manual, a));
            if (!d.empty())
            {
                c.fail("whole-step", vh::str(str(a), " step ", s, ": training the network and training its layers one after the other differ: ", d));
                return;
            }
        }
    }
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        auto allAlive = [&](auto f) {
            for (auto& k : specs[l])
                if (k.alive && !f(k.model.mode))
                    return false;
            return true;
        };
        if (sequences && memoryFindings && isTemporal(a.layers[l].type) && allAlive([](const Mode& m) { return m.k1; }))
            c.known("K1", vh::str(str(a), " layer ", l, ": the first output of a sequence depends on the previous sequence"));
        if (a.layers[l].type == snn::gruLayer && allAlive([](const Mode& m) { return m.k3; }))
            c.known("K3", vh::str(str(a), " layer ", l, ": the update and reset gates are not trained with their gradient"));
        if (a.layers[l].type == snn::locallyConnected && allAlive([](const Mode& m) { return m.k4; }))
            c.known("K4", vh::str(str(a), " layer ", l, ": errors are propagated to the wrong inputs"));
    }
    c.count("weights compared after a step", weightsCompared);
    c.count("propagated errors compared", errorsCompared);
    c.count("training steps", trained);
    if (huge) c.count("training steps of huge networks", trained);
    c.count("sequences", resets);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", steps, " steps, ", weightsCompared, " weights and ", errorsCompared, " errors compared"));
}

// the specification itself against finite differences of the loss, so that it is not merely a copy of the code
static void gradient(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.rec = go.gru = false;
    go.maxX = 5;
    go.maxFc = 5;
    go.maxLayers = 3;
    go.acts = {activation::sigmoid, activation::iSigmoid, activation::tanh, activation::gaussian, activation::identity};
    Arch a = gen(r, go);
    a.mom = 0;
    a.lr = r.uniform(0.01f, 0.2f);
    // layers whose weights are shared between positions are only trained position after position: not one gradient
    for (auto& l : a.layers)
        if (l.type == snn::convolution || (l.type == snn::locallyConnected && l.n > 1))
        {
            l.type = snn::locallyConnected;
            l.n = 1;
        }
    vector<int> shape = a.in;
    for (auto& l : a.layers)
    {
        if (isFilter(l.type))
        {
            const auto s = filterShape(shape);
            for (size_t d = 1; d < s.size(); ++d) l.k = std::min(l.k, s[d]);
        }
        shape = outShape(l, shape);
    }
    auto net = build(a);
    const auto input = genInput(r, prod(a.in)), desired = genInput(r, prod(shape), 1.0f);
    const auto w0 = allWeights(*net, a);
    auto loss = [&](vector<Weights>& w, std::string* branch) {
        vector<float> dummy;
        vector<double> x(input.begin(), input.end());
        vector<int> s = a.in;
        for (size_t l = 0; l < a.layers.size(); ++l)
        {
            ref::Layer m(a.layers[l], s);
            vector<float> xf(x.begin(), x.end());
            const auto o = m.forward(xf, true, w[l]);
            if (a.layers[l].type == snn::maxPooling)
                for (int i : m.argmax) *branch += std::to_string(i) + ",";
            x.clear();
            for (auto& v : o) x.push_back(v.v);
            s = m.out;
        }
        double e = 0;
        for (size_t i = 0; i < x.size(); ++i) e += (desired[i] - x[i]) * (desired[i] - x[i]);
        return e;
    };
    net->trainOnce(input, desired, true);
    const auto w1 = allWeights(*net, a);
    long n = 0;
    for (int t = 0; t < 30; ++t)
    {
        const auto l = static_cast<size_t>(r.below(static_cast<int>(a.layers.size())));
        if (w0[l].empty()) continue;
        const auto k = static_cast<size_t>(r.below(static_cast<int>(w0[l].size())));
        const auto i = static_cast<size_t>(r.below(static_cast<int>(w0[l][k].size())));
        auto w = w0;
        const float h = 2e-3f;
        std::string b1, b2;
        w[l][k][i] = w0[l][k][i] + h;
        const float up = w[l][k][i];
        const double f1 = loss(w, &b1);
        w[l][k][i] = w0[l][k][i] - h;
        const double f2 = loss(w, &b2);
        if (b1 != b2) continue;
        const double g = (f1 - f2) / (static_cast<double>(up) - w[l][k][i]);
        const double moved = static_cast<double>(w1[l][k][i]) - w0[l][k][i];
        const double expected = -static_cast<double>(a.lr) * g;
        ++n;
        if (!(std::abs(moved - expected) <= a.lr * (2e-3 + 0.02 * std::abs(g)) + 1e-6))
        {
            c.fail("gradient", vh::str(str(a), " layer ", l, " neuron ", k, " weight ", i, " moved by ", moved, " instead of ", expected));
            return;
        }
    }
    c.count("weight changes compared with a numeric gradient", n);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", n, " weights"));
}

// one layer whose inputs, errors, weights and learning rate have any magnitude
static void scales(vh::Ctx& c, const GenOptions& all)
{
    auto& r = c.rng;
    Arch a;
    L l{r.pick(vector<layerType>{snn::fullyConnected, snn::recurrence, snn::convolution, snn::locallyConnected})};
    l.act = r.pick(all.acts);
    a.in = {r.range(1, 6)};
    if (isFilter(l.type)) { l.n = l.type == snn::convolution ? r.range(1, 3) : 1; l.k = r.range(1, a.in[0]); }
    else l.n = r.range(1, 5);
    a.layers = {l};
    auto power = [&](int n) { return std::ldexp(r.uniform(1, 2), r.range(-n, n)); };
    a.lr = r.chance(0.2) ? std::nextafter(1.0f, 0.0f) : std::ldexp(r.uniform(0.5f, 1), -r.range(0, 45));
    a.mom = r.chance(0.4) ? static_cast<float>(r.below(2)) : r.chance(0.5) ? r.uniform(0, 1) : std::ldexp(r.uniform(0.5f, 1), -r.range(0, 20));
    const float in = power(12), error = power(12);
    float weight = a.lr * in * error * power(3); // what a step changes is seen
    while (weight * in > 2) weight /= 2;
    auto net = build(a);
    auto& layer = *net->layers[0];
    auto w = layerWeights(layer, l.type);
    for (auto& v : w)
        for (auto& x : v) x = weight * r.uniform(-1, 1);
    setLayerWeights(layer, l.type, w);
    ref::Layer m(l, a.in);
    const auto text = vh::str(str(a), ", inputs of ", in, ", errors of ", error, ", weights of ", weight);
    long compared = 0;
    for (int s = 0; s < 4; ++s)
    {
        const auto before = layerWeights(layer, l.type);
        vector<float> x;
        for (int i = 0; i < a.in[0]; ++i) x.push_back(r.chance(0.1) ? 0 : in * r.uniform(-1, 1));
        const auto y = layer.outputForTraining(x, s == 0);
        const auto o = m.forward(x, s == 0, before);
        if (vague(o)) { c.count("vague"); return; }
        if (const int i = mismatch(y, o); i >= 0) { c.fail("scales-output", vh::str(text, ", step ", s, ": ", describe(y, o, i))); return; }
        m.sync(y);
        vector<float> e;
        vector<V> ev;
        for (size_t i = 0; i < y.size(); ++i)
        {
            e.push_back(r.chance(0.1) ? 0 : error * r.uniform(-1, 1));
            ev.push_back({e.back(), 0});
        }
        vector<float> back;
        const bool inner = r.chance(0.5) && l.type != snn::convolution; // the errors of shared weights depend on those already changed
        if (inner) back = layer.backOutput(e);
        else layer.train(e);
        const auto b = m.backward(ev, before, a.lr, a.mom);
        const auto after = layerWeights(layer, l.type);
        if (vagueAll(b.weights) || vague(b.errors)) { c.count("vague"); return; }
        for (size_t n = 0; n < after.size(); ++n)
            if (const int i = mismatch(after[n], b.weights[n]); i >= 0)
            {
                c.fail("scales-step", vh::str(text, ", step ", s, ", neuron ", n, ": ", describe(after[n], b.weights[n], i), " from ", before[n][static_cast<size_t>(i)]));
                return;
            }
            else compared += static_cast<long>(after[n].size());
        if (inner)
            if (const int i = mismatch(back, b.errors); i >= 0) { c.fail("scales-errors", vh::str(text, ", step ", s, ": ", describe(back, b.errors, i))); return; }
    }
    c.count("weights of any magnitude compared", compared);
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

// enough weights for the vectorised loops, several steps of momentum
static void large(vh::Ctx& c, bool filters)
{
    GenOptions go;
    go.gru = false;
    go.filters = filters;
    go.maxFc = 90;
    go.maxX = 14;
    go.maxFilters = 9;
    go.maxLayers = 3;
    run(c, go, false);
}

// networks without memory: whatever was computed before, and whatever the reset, outputs and training are the same
static void memoryless(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.rec = go.gru = false;
    go.opts = r.chance(0.5);
    const Arch a = gen(r, go);
    auto first = build(a);
    const int n = prod(a.in), nOut = first->getNumberOfOutputs();
    for (int i = r.below(4); i > 0; --i) // weights and momentum of a trained network
        first->trainOnce(genInput(r, n), genInput(r, nOut), r.chance(0.5));
    SNN second(*first);
    long compared = 0;
    for (int s = 0; s < 8; ++s)
    {
        for (int i = r.below(4); i > 0; --i)
            first->computeOutput(genInput(r, n), r.chance(0.5));
        const auto x = genInput(r, n), d = genInput(r, nOut);
        if (r.chance(0.5))
        {
            const auto y1 = first->computeOutput(x, r.chance(0.5)), y2 = second.computeOutput(x, r.chance(0.5));
            if (!vh::sameBits(y1, y2))
            {
                c.fail("memoryless-output", vh::str(str(a), ": ", vh::vecStr(y1), " and ", vh::vecStr(y2), " for the same input"));
                return;
            }
            compared += static_cast<long>(y1.size());
        }
        else
        {
            first->trainOnce(x, d, r.chance(0.5));
            second.trainOnce(x, d, r.chance(0.5));
            const auto w1 = allWeights(*first, a), w2 = allWeights(second, a);
            for (auto& l : w1)
                for (auto& k : l)
                    for (float f : k)
                        if (!(std::abs(f) < 1e6f)) { c.count("vague"); return; } // diverged
            const auto diff = diffWeights(w1, w2);
            if (!diff.empty())
            {
                c.fail("memoryless-training", vh::str(str(a), ": ", diff));
                return;
            }
            ++compared;
        }
    }
    c.count("comparisons of networks without memory", compared);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ", ", compared, " comparisons"));
}

// the outputs of a sequence depend on its previous data, and on the data before only through the known defect
static void dependence(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.filters = false;
    go.fc = r.chance(0.5);
    go.gru = r.chance(0.5);
    go.acts = {activation::sigmoid, activation::tanh, activation::identity, activation::gaussian};
    Arch a = gen(r, go);
    a.layers.insert(a.layers.begin(), {snn::recurrence, r.range(2, 6), 0, activation::tanh});
    auto net = build(a);
    SNN other(*net);
    const int n = prod(a.in);
    const auto x1 = genInput(r, n), x2 = genInput(r, n), y = genInput(r, n);
    net->computeOutput(x1, true);
    other.computeOutput(x2, true);
    const auto o1 = net->computeOutput(y, false), o2 = other.computeOutput(y, false);
    if (!vh::sameBits(x1, x2))
        // saturated outputs can hide it: only count
        c.count(vh::sameBits(o1, o2) ? "hidden dependences" : "visible dependences");
    c.nontrivial(vh::hashStr(str(a)));
}

int main(int argc, char** argv)
{
    GenOptions all, dense, conv, temporal, opts, drop;
    dense.filters = dense.rec = dense.gru = false;
    conv.rec = conv.gru = conv.fc = false;
    temporal.filters = temporal.fc = false;
    temporal.maxLayers = 3;
    opts.opts = true;
    drop.opts = drop.dropout = true;
    drop.rec = drop.gru = false;
    GenOptions tiny;
    tiny.maxX = 3;
    tiny.maxLayers = 2;
    return vh::runAll(argc, argv, {
        {"mixed", 6000, 60000, [=](vh::Ctx& c) { run(c, all, false); }},
        {"dense", 2000, 12000, [=](vh::Ctx& c) { run(c, dense, false); }},
        {"filters", 5000, 50000, [=](vh::Ctx& c) { run(c, conv, false); }},
        {"temporal", 4000, 24000, [=](vh::Ctx& c) { run(c, temporal, false); }},
        {"large", 120, 1500, [=](vh::Ctx& c) { large(c, c.index % 2 == 1); }},
        {"gradient", 1500, 15000, gradient},
        {"scales", 4000, 40000, [=](vh::Ctx& c) { scales(c, all); }},
        {"sequences", 5000, 50000, [=](vh::Ctx& c) { run(c, c.index % 2 ? temporal : all, false, true); }},
        {"resets", 2500, 25000, [=](vh::Ctx& c) { run(c, c.index % 3 ? temporal : all, false, true, false); }}, // K1 is a finding of C03
        {"longer", 1, 20, [=](vh::Ctx& c) { run(c, tiny, false, false, true, c.index % 2 ? 3000 : 67'000); }},
        {"huge", 6, 200, [=](vh::Ctx& c) { run(c, all, false, false, true, 0, true); }},
        {"hugeSequences", 2, 60, [=](vh::Ctx& c) { run(c, all, false, true, false, 0, true); }},
        {"hugeOptimizers", 4, 150, [=](vh::Ctx& c) { run(c, all, true, false, true, 0, true); }},
        {"memoryless", 3000, 30000, memoryless},
        {"dependence", 500, 5000, dependence},
        {"optimizers", 5000, 50000, [=](vh::Ctx& c) { run(c, opts, true); }},
        {"dropout", 5000, 50000, [=](vh::Ctx& c) { run(c, drop, true); }},
    });
}
