// C17: layer optimizers do exactly what they define, and only in training
#define VH_MAIN
#include "gen.hpp"
using namespace ref;

namespace
{
    using LO = snn::layerOptimizerType;

    bool has(const L& l, LO t)
    {
        for (auto& o : l.opts)
            if (o.type == t) return true;
        return false;
    }

    vector<snn::LayerOptimizerModel> anyOrder(Rng& r, int maxN, bool dropout)
    {
        auto v = genOpts(r, false, maxN);
        if (dropout)
            v.insert(v.begin() + r.below(static_cast<int>(v.size()) + 1), snn::Dropout(r.uniform(0.1f, 0.8f)));
        return v;
    }

    // the optimizers of one layer on its outputs, for a given mask
    vector<V> apply(ref::Layer& m, vector<V> o, const vector<double>& mask)
    {
        ref::Layer one = m;
        for (auto& op : m.spec.opts)
        {
            if (op.type == LO::dropout)
            {
                for (size_t i = 0; i < o.size(); ++i) if (mask[i] == 0) o[i] = {};
                continue;
            }
            one.spec.opts = {op};
            one.afterOutput(o, true, nullptr);
        }
        return o;
    }
}

// one layer, all the optimizers in any order: the mask is the one that explains the outputs
static void order(vh::Ctx& c)
{
    auto& r = c.rng;
    Arch a;
    a.lr = r.uniform(0.01f, 0.5f);
    a.mom = r.chance(0.5) ? 0.0f : r.uniform(0.0f, 1.0f);
    L l{r.pick(vector<layerType>{snn::fullyConnected, snn::fullyConnected, snn::convolution, snn::locallyConnected, snn::recurrence})};
    l.act = r.pick(vector<activation>{activation::sigmoid, activation::tanh, activation::identity, activation::iSigmoid, activation::gaussian});
    a.in = {r.range(3, 6)};
    if (isFilter(l.type)) { l.n = r.range(1, 2); l.k = r.range(2, 3); if (l.type == snn::convolution) a.in = {l.k + r.range(0, 2)}; }
    else l.n = r.range(2, 7);
    if (l.type == snn::locallyConnected) l.n = 1; // known finding K4 of C02
    l.opts = anyOrder(r, 3, r.chance(0.85));
    a.layers = {l};
    auto net = build(a);
    auto& layer = *net->layers[0];
    auto w = layerWeights(layer, l.type);
    for (auto& n : w)
        for (auto& x : n) x = r.uniform(-1.2f, 1.2f);
    setLayerWeights(layer, l.type, w);
    ref::Layer m(l, a.in);
    m.mode.k1 = true; // one sequence only
    const int nOut = m.nOut;
    const bool dropout = has(l, LO::dropout);
    vector<double> mask(static_cast<size_t>(nOut), 1);
    long steps = 0;
    for (int s = 0; s < 5; ++s)
    {
        // several optimizers of a recurrence would need its memory: the reset is only at the first step
        const bool reset = s == 0 || (l.type != snn::recurrence && r.chance(0.5));
        const auto in = genInput(r, prod(a.in));
        const auto before = layerWeights(layer, l.type);
        const auto raw = m.forward(in, reset, before);
        const auto y = layer.outputForTraining(in, reset);
        if (vague(raw)) { c.count("vague"); return; }
        vector<vector<double>> found;
        const int masks = dropout ? 1 << nOut : 1;
        for (int k = 0; k < masks; ++k)
        {
            vector<double> t(static_cast<size_t>(nOut), 1);
            if (dropout)
                for (int i = 0; i < nOut; ++i) t[static_cast<size_t>(i)] = (k >> i) & 1;
            if (mismatch(y, apply(m, raw, t)) < 0)
                found.push_back(t);
        }
        if (found.empty())
        {
            c.fail("optimizers-output", vh::str(str(a), " step ", s, ": no mask explains the outputs ", vh::vecStr(y)));
            return;
        }
        if (found.size() > 1) { c.count("ambiguous masks"); return; }
        if (!reset && dropout && found[0] != mask)
        {
            c.fail("mask-within-sequence", vh::str(str(a), " step ", s, ": the mask changed within a sequence"));
            return;
        }
        mask = found[0];
        vector<float> e = genInput(r, nOut, 1.0f), given = e;
        vector<V> ev;
        for (float x : given) ev.push_back({x, 0});
        m.mask = mask;
        m.beforeBack(ev, before);
        const auto b = m.backward(ev, before, a.lr, a.mom);
        if (r.chance(0.5) || l.type == snn::recurrence)
        {
            const auto back = layer.backOutput(e);
            const int i = mismatch(back, b.errors);
            if (i >= 0) { c.fail("optimizers-errors", vh::str(str(a), " step ", s, ": ", describe(back, b.errors, i))); return; }
        }
        else
            layer.train(e);
        const auto after = layerWeights(layer, l.type);
        for (size_t n = 0; n < after.size(); ++n)
        {
            if (vague(b.weights[n])) { c.count("vague"); return; }
            const int i = mismatch(after[n], b.weights[n]);
            if (i >= 0)
            {
                c.fail("optimizers-training", vh::str(str(a), " step ", s, " neuron ", n, ": ", describe(after[n], b.weights[n], i)));
                return;
            }
        }
        ++steps;
    }
    c.count("steps explained by one mask", steps);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(str(a));
}

// rate, independence and renewal of the mask
static void rate(vh::Ctx& c)
{
    auto& r = c.rng;
    const bool conv = r.chance(0.3);
    const float p = r.chance(0.1) ? 0.0f : r.uniform(0.03f, 0.95f);
    const int n = r.range(20, 60);
    Arch a;
    L l{conv ? snn::convolution : snn::fullyConnected};
    l.act = activation::identity;
    if (conv) { a.in = {n}; l.n = 1; l.k = 1; }
    else { a.in = {3}; l.n = n; }
    l.opts = {snn::Dropout(p)};
    a.layers = {l};
    auto net = build(a);
    auto& layer = *net->layers[0];
    vector<float> in(static_cast<size_t>(prod(a.in)));
    for (auto& x : in) x = r.uniform(0.5f, 1.5f);
    Arch b = a;
    b.layers[0].opts.clear();
    auto plain = build(b);
    setLayerWeights(*plain->layers[0], l.type, layerWeights(layer, l.type));
    const auto raw = plain->layers[0]->output(in, true);
    for (float x : raw)
        if (x == 0) return;
    const int draws = c.thorough ? 8000 : 2000;
    vector<long> zeros(static_cast<size_t>(n), 0), neighbour(static_cast<size_t>(n), 0), next(static_cast<size_t>(n), 0);
    long total = 0, pairs = 0, successive = 0, same = 0, kept = 0;
    vector<bool> last;
    auto maskOf = [&](const vector<float>& y, vector<bool>& m) {
        m.assign(static_cast<size_t>(n), false);
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (y[i] == 0.0f) m[i] = true;
            else if (y[i] != raw[i]) { c.fail("dropout-output", vh::str(str(a), ": output ", i, " is ", y[i], ", neither 0 nor ", raw[i])); return false; }
        }
        return true;
    };
    for (int d = 0; d < draws; ++d)
    {
        vector<bool> m, m2;
        if (!maskOf(layer.outputForTraining(in, true), m)) return;
        if (d % 16 == 0)
            for (int k = 0; k < 3; ++k)
            {
                layer.output(in, r.chance(0.5)); // an inference in between
                if (!maskOf(layer.outputForTraining(in, false), m2)) return;
                if (m2 != m) { c.fail("mask-within-sequence", vh::str(str(a), ": the mask changed without a reset")); return; }
                ++kept;
            }
        for (size_t i = 0; i < m.size(); ++i)
        {
            zeros[i] += m[i]; total += m[i];
            const size_t j = (i + 1) % m.size();
            neighbour[i] += m[i] && m[j]; pairs += m[i] && m[j];
            if (!last.empty()) { next[i] += m[i] && last[i]; successive += m[i] && last[i]; }
        }
        same += m == last;
        last = m;
    }
    auto far = [](double observed, double N, double q) { return std::abs(observed - N * q) > 6.5 * std::sqrt(N * q * (1 - q)) + 1; };
    const double N = static_cast<double>(draws) * n;
    const double q = static_cast<double>(p);
    if (far(static_cast<double>(total), N, q))
        c.fail("dropout-rate", vh::str(str(a), ": ", total, " of ", N, " outputs zeroed"));
    // overlapping pairs are correlated: a wider bound for their total, one by one for each output
    if (std::abs(static_cast<double>(pairs) - N * q * q) > 12 * std::sqrt(N * q * q * (1 - q * q)) + 2)
        c.fail("dropout-independence", vh::str(str(a), ": ", pairs, " pairs of neighbours zeroed instead of ", N * q * q));
    if (std::abs(static_cast<double>(successive) - (N - n) * q * q) > 12 * std::sqrt(N * q * q * (1 - q * q)) + 2)
        c.fail("dropout-renewal", vh::str(str(a), ": ", successive, " outputs zeroed twice in a row instead of ", N * q * q));
    for (size_t i = 0; i < zeros.size(); ++i)
    {
        if (far(static_cast<double>(zeros[i]), draws, q)) c.fail("dropout-rate", vh::str(str(a), ": output ", i, " zeroed ", zeros[i], " of ", draws));
        if (far(static_cast<double>(neighbour[i]), draws, q * q)) c.fail("dropout-independence", vh::str(str(a), ": outputs ", i, " and next zeroed together ", neighbour[i], " of ", draws));
        if (std::abs(static_cast<double>(next[i]) - draws * q * q) > 12 * std::sqrt(draws * q * q * (1 - q * q)) + 2) c.fail("dropout-renewal", vh::str(str(a), ": output ", i, " zeroed twice in a row ", next[i], " of ", draws));
    }
    const double again = std::pow(q * q + (1 - q) * (1 - q), n);
    if (static_cast<double>(same) > draws * again + 7 * std::sqrt(draws * again) + 3)
        c.fail("dropout-renewal", vh::str(str(a), ": ", same, " of ", draws, " masks equal to the previous one"));
    // outside of training: the kept fraction of every output
    const auto y = layer.output(in, r.chance(0.5));
    for (size_t i = 0; i < y.size(); ++i)
        if (std::abs(y[i] - raw[i] * (1.0 - q)) > 1e-6 * std::abs(raw[i]))
            c.fail("dropout-scale", vh::str(str(a), ": output ", i, " is ", y[i], " out of training for ", raw[i]));
    c.count("masks observed", draws);
    c.count("masks kept within a sequence", kept);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(vh::str(str(a), ": ", static_cast<double>(total) / N, " zeroed"));
}

// probabilities, whatever the size of what enters the softmax
static void softmax(vh::Ctx& c)
{
    auto& r = c.rng;
    const int n = r.sized(1, 40, 500);
    auto net = std::make_unique<SNN>(vector<snn::LayerModel>{snn::Input(2), snn::FullyConnected(n, activation::identity, snn::Softmax())});
    auto plain = std::make_unique<SNN>(vector<snn::LayerModel>{snn::Input(2), snn::FullyConnected(n, activation::identity)});
    const int kind = r.below(6);
    const float amp = kind == 0 ? 1e30f : kind == 1 ? 200.0f : kind == 2 ? 1e-30f : kind == 3 ? 1e4f : 3.0f;
    Weights w(static_cast<size_t>(n), vector<float>(3));
    for (auto& v : w)
        for (auto& x : v) x = r.chance(0.1) ? 0.0f : kind == 5 && r.chance(0.5) ? w[0][0] : r.uniform(-amp, amp);
    setLayerWeights(*net->layers[0], snn::fullyConnected, w);
    setLayerWeights(*plain->layers[0], snn::fullyConnected, w);
    for (int s = 0; s < 20; ++s)
    {
        const auto in = genInput(r, 2);
        const auto raw = plain->layers[0]->output(in, true);
        for (float x : raw)
            if (!vh::finiteBits(x)) return;
        for (int t = 0; t < 2; ++t)
        {
            const auto y = t ? net->layers[0]->outputForTraining(in, r.chance(0.5)) : net->layers[0]->output(in, r.chance(0.5));
            double sum = 0, mx = raw[0], z = 0;
            for (float x : raw) mx = std::max<double>(mx, x);
            for (float x : raw) z += std::exp(x - mx);
            for (size_t i = 0; i < y.size(); ++i)
            {
                const double e = std::exp(raw[i] - mx) / z;
                if (!vh::finiteBits(y[i]) || y[i] < 0 || y[i] > 1.000001f)
                    c.fail("softmax-range", vh::str("probability ", y[i], " for ", vh::vecStr(raw)));
                if (std::abs(y[i] - e) > 1e-5 * e + 1e-4 * e * std::min(1.0, std::abs(raw[i] - mx) * 1e-2) + 1e-37)
                    c.fail("softmax-value", vh::str("probability ", i, " is ", y[i], " instead of ", e, " for ", vh::vecStr(raw)));
                sum += y[i];
                for (size_t j = 0; j < i; ++j)
                    if ((raw[i] > raw[j] && y[i] < y[j]) || (raw[i] < raw[j] && y[i] > y[j]))
                        c.fail("softmax-order", vh::str("outputs ", i, " and ", j, " changed order: ", vh::vecStr(raw), " gives ", vh::vecStr(y)));
            }
            if (std::abs(sum - 1) > 2e-6 * n + 1e-6)
                c.fail("softmax-sum", vh::str("the probabilities sum to ", sum, " for ", vh::vecStr(raw)));
            c.count("probability vectors");
        }
        c.nontrivial(vh::hashVec(raw));
    }
}

// values and errors of any magnitude: the errors of the layer become what the optimizers define
static void values(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    Arch a = ref::gen(r, go);
    for (auto& l : a.layers)
        if (l.type != snn::maxPooling)
        {
            l.opts = wildOpts(r, 3, 40);
            std::erase_if(l.opts, [](const auto& o) { return o.type == LO::dropout; });
        }
    auto net = build(a);
    auto x = genInput(r, prod(a.in));
    for (size_t n = 0; n < a.layers.size(); ++n)
    {
        auto& layer = *net->layers[n];
        x = layer.output(x, true);
        if (a.layers[n].type == snn::maxPooling) continue;
        ref::Layer spec(a.layers[n], net->layers[n]->getShapeOfInput());
        const auto w = layerWeights(layer, a.layers[n].type);
        Weights dw;
        for (auto& v : w) dw.emplace_back(v.begin(), v.end());
        const float scale = wild(r, 20);
        vector<V> e;
        vector<float> errors;
        for (size_t i = 0; i < x.size(); ++i)
        {
            errors.push_back(scale * r.uniform(-1, 1));
            e.push_back({errors.back(), 0});
        }
        const auto before = errors;
        spec.beforeBack(e, dw);
        const bool back = r.chance(0.6);
        if (back) (void)layer.backOutput(errors);
        else layer.train(errors);
        for (size_t i = 0; i < errors.size(); ++i)
        {
            const double tol = 4 * e[i].t + 4e-7 * std::abs(e[i].v) + 1e-37;
            if (!(std::abs(errors[i] - e[i].v) <= tol))
            {
                c.fail("optimizers-value", vh::str(str(a), ": the error ", before[i], " of output ", i, " of layer ", n, " becomes ", errors[i], " instead of ", e[i].v));
                return;
            }
        }
        c.count("errors changed by values of any magnitude", static_cast<long>(errors.size()));
    }
    c.nontrivial(vh::hashStr(str(a)));
}

// L1, L2 and error multiplier never change an output; inference has no random part
static void unchanged(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.gru = false;
    Arch a = ref::gen(r, go);
    auto plain = build(a);
    for (auto& l : a.layers)
        if (l.type != snn::maxPooling)
            for (int i = r.range(0, 3); i > 0; --i)
                l.opts.push_back(r.chance(0.34) ? snn::L1Regularization(r.uniform(-1, 1)) : r.chance(0.5) ? snn::L2Regularization(r.uniform(-1, 1)) : snn::ErrorMultiplier(r.uniform(-2, 2)));
    auto net = build(a);
    for (size_t l = 0; l < a.layers.size(); ++l)
        setLayerWeights(*net->layers[l], a.layers[l].type, layerWeights(*plain->layers[l], a.layers[l].type));
    for (int s = 0; s < 6; ++s)
    {
        auto x = genInput(r, prod(a.in)), y = x;
        const bool reset = r.chance(0.5), training = r.chance(0.5);
        if (r.chance(0.3))
        {
            if (!vh::sameBits(net->computeOutput(x, reset), plain->computeOutput(x, reset)))
            { c.fail("optimizers-output", vh::str(str(a), ": regularization changed an output")); return; }
        }
        else
            for (size_t l = 0; l < a.layers.size(); ++l)
            {
                x = training ? net->layers[l]->outputForTraining(x, reset) : net->layers[l]->output(x, reset);
                y = training ? plain->layers[l]->outputForTraining(y, reset) : plain->layers[l]->output(y, reset);
                if (!vh::sameBits(x, y)) { c.fail("optimizers-output", vh::str(str(a), ": regularization changed the outputs of layer ", l)); return; }
            }
        c.count("outputs not changed", static_cast<long>(x.size()));
    }
    c.nontrivial(vh::hashStr(str(a)));
}

// training the whole network with dropout equals training its layers one after the other with the same random numbers
static void whole(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    Arch a = ref::gen(r, go);
    for (auto& l : a.layers)
        if (l.type != snn::maxPooling)
            l.opts = anyOrder(r, 2, r.chance(0.6));
    auto net = build(a);
    SNN manual(*net);
    for (int s = 0; s < 4; ++s)
    {
        const bool reset = s == 0 || r.chance(0.5);
        const auto in = genInput(r, prod(a.in)), desired = genInput(r, net->getNumberOfOutputs(), 1.0f);
        const auto seed = r.next();
        vh::runThread(seed, [&] { net->trainOnce(in, desired, reset); });
        vh::runThread(seed, [&] {
            auto x = in;
            for (auto& l : manual.layers) x = l->outputForTraining(x, reset);
            vector<float> e(x.size());
            for (size_t i = 0; i < e.size(); ++i) e[i] = 2 * (desired[i] - x[i]);
            for (size_t l = manual.layers.size() - 1; l > 0; --l) e = manual.layers[l]->backOutput(e);
            manual.layers[0]->train(e);
        });
        const auto wa = allWeights(*net, a), wb = allWeights(manual, a);
        for (auto& l : wa)
            for (auto& n : l)
                for (float f : n)
                    if (!(std::abs(f) < 1e6f)) { c.count("vague"); return; }
        const auto d = diffWeights(wa, wb);
        if (!d.empty())
        {
            c.fail("optimizers-whole-step", vh::str(str(a), " step ", s, ": ", d));
            return;
        }
        // an inference has no random part
        const auto x = genInput(r, prod(a.in));
        vector<float> y1, y2;
        vh::runThread(seed + 1, [&] { y1 = net->computeOutput(x, true); });
        vh::runThread(seed + 2, [&] {
            y2 = x;
            for (auto& l : manual.layers) y2 = l->output(y2, true);
        });
        if (!vh::sameBits(y1, y2)) { c.fail("optimizers-inference", vh::str(str(a), ": inference is random or not the one of the layers")); return; }
        c.count("whole steps compared");
    }
    c.nontrivial(vh::hashStr(str(a)));
}

// evaluation is not training
static void evaluation(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.rec = go.gru = false;
    go.maxX = 4;
    go.lastOutputs = r.range(1, 4);
    go.acts = {activation::sigmoid, activation::tanh, activation::iSigmoid};
    Arch a = ref::gen(r, go);
    for (auto& l : a.layers)
        if (l.type != snn::maxPooling)
            l.opts = anyOrder(r, 2, r.chance(0.7));
    auto net = build(a);
    const int nOut = net->getNumberOfOutputs(), n = r.range(1, 12);
    vector<vector<float>> in, target;
    for (int i = 0; i < n; ++i) { in.push_back(genInput(r, prod(a.in))); target.push_back(genInput(r, nOut, 1.0f)); }
    snn::Data data(snn::problem::regression, in, target, in, target);
    const bool train = r.chance(0.5);
    if (train) net->train(data, ref::epochs(r.range(1, 2)));
    net->evaluate(data);
    spy::Definition d{snn::problem::regression};
    for (int i = 0; i < n; ++i) d.add(net->computeOutput(in[static_cast<size_t>(i)], true), target[static_cast<size_t>(i)]);
    if (d.near || net->hasNan()) { c.count("vague"); return; }
    const auto why = d.compare(spy::Scores::of(*net));
    if (!why.empty()) c.fail("optimizers-evaluation", vh::str(str(a), train ? " trained" : "", ": ", why));
    c.count("evaluations with optimizers");
    c.nontrivial(vh::hashStr(str(a)));
}

// dropout in a whole training: every data presented by a training epoch is masked (also the first ones of a window), one mask for each sequence;
// no data of an evaluation is
static void trainings(vh::Ctx& c)
{
    struct Recorder : spy::Script
    {
        struct Seen { vector<float> in; bool reset, training; };
        vector<Seen> log;
        vector<float> output(const vector<float>& in, bool reset, bool training) override { log.push_back({in, reset, training}); return {0.25f}; }
    } rec;
    auto& r = c.rng;
    const spy::Registered reg(rec);
    const float q = r.uniform(0.2f, 0.8f);
    const int n = r.range(16, 40);
    auto net = std::make_unique<SNN>(vector<snn::LayerModel>{snn::Input(1), snn::FullyConnected(n, activation::identity, snn::Dropout(q)), snn::FullyConnected(1, activation::identity)},
                                     snn::StochasticGradientDescent(1e-20f, 0.0f));
    Weights w;
    vector<float> raw;
    for (int i = 0; i < n; ++i) { raw.push_back(r.uniform(0.5f, 1.5f)); w.push_back({0.0f, raw.back()}); }
    setLayerWeights(*net->layers[0], snn::fullyConnected, w);
    auto last = spy::network(reg, n, 1);
    net->layers[1] = std::move(last->layers[0]);
    const auto kind = r.pick(vector<int>{0, 1, 2});
    const auto spec = gen::data(r, 1, 1, 10, kind);
    const auto data = spec.make();
    const int batch = kind == 0 && r.chance(0.3) ? r.range(1, static_cast<int>(spec.in.size())) : 1, freq = r.range(0, 1), runs = r.range(1, 4);
    const auto what = vh::str("Dropout(", q, ") of ", n, " outputs, ", spec.str(), ", batch ", batch, ", ", runs, " epochs");
    net->train(*data, ref::epochs(runs), batch, freq);
    const auto weights = layerWeights(*net->layers[0], snn::fullyConnected);
    for (size_t i = 0; i < weights.size(); ++i) raw[i] = weights[i][1];
    long masked = 0, values = 0, evaluated = 0;
    vector<bool> mask;
    for (auto& s : rec.log)
    {
        vector<bool> m;
        bool full = true;
        for (size_t i = 0; i < s.in.size(); ++i)
        {
            const double x = static_cast<double>(s.in[i]), y = static_cast<double>(raw[i]);
            m.push_back(s.in[i] == 0.0f);
            full &= std::abs(x - y * (1 - static_cast<double>(q))) < 1e-5;
            if (s.training && !m.back() && std::abs(x - y) > 1e-5)
            { c.fail("dropout-in-training", vh::str(what, ": a training presents ", x, " for the output ", y)); return; }
        }
        if (!s.training)
        {
            ++evaluated;
            if (!full) { c.fail("dropout-in-evaluation", vh::str(what, ": an evaluation gives ", vh::vecStr(s.in), " for ", vh::vecStr(raw))); return; }
            continue;
        }
        if (!s.reset && !mask.empty() && m != mask) { c.fail("mask-within-sequence", vh::str(what, ": the mask changes within a sequence of a training")); return; }
        if (s.reset) for (bool b : m) { masked += b; ++values; }
        mask = m;
    }
    const auto tests = static_cast<long>(spec.inT.size());
    const auto presented = static_cast<long>(rec.log.size()) - evaluated;
    // every presentation of the epochs, with or without learning, is one of the training
    if (presented != static_cast<long>(spec.in.size()) / batch * runs) { c.fail("dropout-in-training", vh::str(what, ": ", presented, " presentations of ", static_cast<long>(spec.in.size()) / batch * runs, " are those of a training")); return; }
    if (evaluated != (freq ? tests * (runs + 1) : 0)) { c.fail("dropout-in-evaluation", vh::str(what, ": ", evaluated, " presentations out of training")); return; }
    if (values && std::abs(static_cast<double>(masked) - static_cast<double>(values) * q) > 6.5 * std::sqrt(static_cast<double>(values) * q * (1 - q)) + 1)
    { c.fail("dropout-rate", vh::str(what, ": ", masked, " of ", values, " outputs zeroed in a training")); return; }
    c.count("presentations of trainings with dropout", presented);
    c.count("presentations of evaluations with dropout", evaluated);
    c.nontrivial(vh::hashStr(what));
    c.sample(what);
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"order", 6000, 60000, order},
        {"rate", 60, 400, rate},
        {"softmax", 1500, 15000, softmax},
        {"values", 1500, 15000, values},
        {"unchanged", 1500, 15000, unchanged},
        {"whole", 2500, 25000, whole},
        {"evaluation", 2500, 25000, evaluation},
        {"trainings", 1500, 15000, trainings},
    });
}
