// Executable specification of the layers, in double precision, with error bounds for the float code.
#pragma once
#include <memory>
#include <optional>
#include "vh.hpp"
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include "LayerFactory.hpp"
#include "LayerOptimizerFactory.hpp"
#include "NeuralNetworkOptimizerFactory.hpp"
#include "FullyConnected.hpp"
#include "Recurrence.hpp"
#include "GruLayer.hpp"
#include "SimpleNeuron.hpp"
#include "RecurrentNeuron.hpp"
#include "GatedRecurrentUnit.hpp"

namespace ref
{
    using SNN = snn::StraightforwardNeuralNetwork;
    using snn::activation;
    using snn::layerType;
    using std::vector;
    using vh::Rng;

    // ---------------------------------------------------------------- architectures
    struct L
    {
        layerType type;
        int n = 0; // neurons or filters
        int k = 0; // kernel size
        activation act = activation::identity;
        vector<snn::LayerOptimizerModel> opts{};
    };

    struct Arch
    {
        vector<int> in;
        vector<L> layers;
        float lr = 0.05f, mom = 0.0f;
    };

    inline bool isFilter(layerType t) { return t == snn::maxPooling || t == snn::locallyConnected || t == snn::convolution; }
    inline bool isTemporal(layerType t) { return t == snn::recurrence || t == snn::gruLayer; }
    inline bool hasMemory(const Arch& a) { for (auto& l : a.layers) if (isTemporal(l.type)) return true; return false; }
    inline bool hasType(const Arch& a, layerType t) { for (auto& l : a.layers) if (l.type == t) return true; return false; }

    inline std::string actName(activation a)
    {
        static const char* n[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};
        return n[static_cast<int>(a)];
    }

    inline std::string str(const Arch& a)
    {
        std::ostringstream ss;
        ss << "Input(";
        for (size_t i = 0; i < a.in.size(); ++i) ss << (i ? "," : "") << a.in[i];
        ss << ")";
        for (auto& l : a.layers)
        {
            switch (l.type)
            {
            case snn::fullyConnected: ss << " FC(" << l.n << "," << actName(l.act); break;
            case snn::recurrence: ss << " Rec(" << l.n << "," << actName(l.act); break;
            case snn::gruLayer: ss << " GRU(" << l.n; break;
            case snn::maxPooling: ss << " Pool(" << l.k; break;
            case snn::locallyConnected: ss << " LC(" << l.n << "," << l.k << "," << actName(l.act); break;
            case snn::convolution: ss << " Conv(" << l.n << "," << l.k << "," << actName(l.act); break;
            default: ss << " ?(";
            }
            for (auto& o : l.opts)
            {
                static const char* n[] = {"dropout", "L1", "L2", "errorMultiplier", "softmax"};
                ss << "," << n[static_cast<int>(o.type)] << " " << o.value;
            }
            ss << ")";
        }
        ss << " lr=" << a.lr << " m=" << a.mom;
        return ss.str();
    }

    inline snn::LayerModel model(const L& l)
    {
        snn::LayerModel m;
        switch (l.type)
        {
        case snn::fullyConnected: m = snn::FullyConnected(l.n, l.act); break;
        case snn::recurrence: m = snn::Recurrence(l.n, l.act); break;
        case snn::gruLayer: m = snn::GruLayer(l.n); break;
        case snn::maxPooling: m = snn::MaxPooling(l.k); break;
        case snn::locallyConnected: m = snn::LocallyConnected(l.n, l.k, l.act); break;
        default: m = snn::Convolution(l.n, l.k, l.act); break;
        }
        m.optimizers = l.opts;
        return m;
    }

    inline snn::LayerModel inputModel(const vector<int>& shape)
    {
        auto m = snn::Input(1);
        m.shapeOfInput = shape;
        return m;
    }

    inline vector<snn::LayerModel> models(const Arch& a)
    {
        vector<snn::LayerModel> v{inputModel(a.in)};
        for (auto& l : a.layers)
            v.push_back(model(l));
        return v;
    }

    inline std::unique_ptr<SNN> build(const Arch& a)
    {
        return std::make_unique<SNN>(models(a), snn::StochasticGradientDescent(a.lr, a.mom));
    }

    inline int prod(const vector<int>& s) { int p = 1; for (int x : s) p *= x; return p; }

    inline vector<int> filterShape(const vector<int>& in) { return in.size() == 1 ? vector<int>{1, in[0]} : in; }

    inline vector<int> outShape(const L& l, const vector<int>& in0)
    {
        if (!isFilter(l.type))
            return {l.n};
        const auto in = filterShape(in0);
        vector<int> out{l.type == snn::maxPooling ? in[0] : l.n};
        for (size_t d = 1; d < in.size(); ++d)
            out.push_back(l.type == snn::convolution ? in[d] - l.k + 1 : (in[d] + l.k - 1) / l.k);
        return out;
    }

    struct GenOptions
    {
        bool fc = true, rec = true, gru = true, filters = true, opts = false;
        int maxLayers = 4, maxFc = 7, maxX = 7, maxFilters = 3;
        vector<activation> acts = {activation::sigmoid, activation::iSigmoid, activation::tanh, activation::ReLU,
                                   activation::GELU, activation::gaussian, activation::identity};
        int lastOutputs = 0; // ends with a fully connected layer of this size when > 0
        bool dropout = false;
        double large = 0.03; // probability of an architecture that is large in one way
    };

    inline vector<snn::LayerOptimizerModel> genOpts(Rng& r, bool dropout, int maxN = 3)
    {
        vector<snn::LayerOptimizerModel> v;
        const int n = r.below(maxN + 1);
        bool hasDropout = false;
        for (int i = 0; i < n; ++i)
        {
            switch (r.below(5))
            {
            case 0: if (dropout) hasDropout = true; break;
            case 1: v.push_back(snn::L1Regularization(r.uniform(-0.05f, 0.05f))); break;
            case 2: v.push_back(snn::L2Regularization(r.uniform(-0.05f, 0.05f))); break;
            case 3: v.push_back(snn::ErrorMultiplier(r.uniform(-1.5f, 2.0f))); break;
            default: v.push_back(snn::Softmax()); break;
            }
        }
        if (hasDropout)
            v.push_back(snn::Dropout(r.uniform(0.1f, 0.7f)));
        return v;
    }

    // a number of any magnitude between 2^-limit and 2^limit
    inline float wild(Rng& r, int limit)
    {
        return std::ldexp(1.0f + static_cast<float>(r.unit()), r.range(-limit, limit - 1)) * (r.chance(0.3) ? -1.0f : 1.0f);
    }

    // layer optimizers whose values have any magnitude
    inline vector<snn::LayerOptimizerModel> wildOpts(Rng& r, int maxN, int limit)
    {
        vector<snn::LayerOptimizerModel> v;
        for (int i = r.range(1, maxN); i > 0; --i)
            switch (r.below(5))
            {
            case 0: v.push_back(snn::Dropout(r.chance(0.2) ? static_cast<float>(r.below(2)) : r.chance(0.3) ? std::ldexp(1.0f, -r.range(1, 20)) : r.uniform(0.0f, 1.0f))); break;
            case 1: v.push_back(snn::L1Regularization(wild(r, limit))); break;
            case 2: v.push_back(snn::L2Regularization(wild(r, limit))); break;
            case 3: v.push_back(snn::ErrorMultiplier(wild(r, limit))); break;
            default: v.push_back(snn::Softmax());
            }
        return v;
    }

    inline Arch gen(Rng& r, const GenOptions& options)
    {
        Arch a;
        GenOptions o = options;
        const int way = r.chance(o.large) ? r.below(o.filters ? 6 : 3) : -1;
        int maxIn = 10, maxChannels = 3, maxKernel = 4;
        if (way >= 0) o.maxLayers = std::min(o.maxLayers, 2);
        switch (way)
        {
        case 0: o.maxFc = 150; break;                 // neurons
        case 1: maxIn = 300; break;                   // inputs
        case 2: o.maxLayers = 15; break;              // layers
        case 3: o.maxFilters = 20; break;             // filters
        case 4: maxChannels = 12; break;              // channels
        case 5: o.maxX = 20; maxKernel = 12; break;   // sides and kernels
        default: break;
        }
        const int dims = o.filters ? r.range(1, 3) : r.range(1, 2);
        if (dims == 1) a.in = {r.range(1, maxIn)};
        else if (dims == 2) a.in = {r.range(1, maxChannels), r.range(1, o.maxX)};
        else a.in = {r.range(1, maxChannels), r.range(1, o.maxX), r.range(1, o.maxX)};
        const int n = r.range(1, o.maxLayers);
        vector<int> shape = a.in;
        for (int i = 0; i < n; ++i)
        {
            vector<layerType> c;
            if (o.fc) c.push_back(snn::fullyConnected);
            if (o.rec) c.push_back(snn::recurrence);
            if (o.gru) c.push_back(snn::gruLayer);
            if (o.filters)
                for (int w = 0; w < (shape.size() > 1 ? 2 : 1); ++w)
                    for (auto t : {snn::maxPooling, snn::locallyConnected, snn::convolution})
                        c.push_back(t);
            L l{r.pick(c)};
            l.act = r.pick(o.acts);
            if (isFilter(l.type))
            {
                const auto s = filterShape(shape);
                int m = s[1];
                for (size_t d = 1; d < s.size(); ++d) m = std::min(m, s[d]);
                l.k = r.range(1, std::min(m, maxKernel));
                l.n = l.type == snn::maxPooling ? 0 : r.range(1, o.maxFilters);
            }
            else
                l.n = r.range(1, o.maxFc);
            if (o.opts && l.type != snn::maxPooling)
                l.opts = genOpts(r, o.dropout);
            shape = outShape(l, shape);
            a.layers.push_back(l);
        }
        if (o.lastOutputs > 0)
            a.layers.push_back({snn::fullyConnected, o.lastOutputs, 0, r.pick(o.acts)});
        a.lr = r.chance(0.5) ? r.uniform(0.01f, 0.3f) : r.uniform(0.001f, 0.9f);
        a.mom = r.chance(0.4) ? 0.0f : r.uniform(0.0f, 1.0f);
        return a;
    }

    // more than 65536 of something: inputs, neurons, kernels, weights; or hundreds of layers. Its inputs and large neurons are mostly null.
    inline Arch genHuge(Rng& r, int only = -1)
    {
        Arch a;
        const auto N = [&] { return r.range(65'600, 90'000); };
        const auto act = [&] { return r.pick(vector<activation>{activation::identity, activation::tanh, activation::sigmoid, activation::ReLU}); };
        const auto end = [&] { a.layers.push_back({snn::fullyConnected, r.range(1, 2), 0, act()}); };
        const int side = r.range(258, 290);
        const int kind = only >= 0 ? only : r.below(15);
        switch (kind)
        {
        case 0: a.in = {r.range(1, 3)}; a.layers = {{snn::fullyConnected, N(), 0, act()}}; if (r.chance(0.7)) end(); break;
        case 1: a.in = {N()}; a.layers = {{snn::fullyConnected, r.range(1, 3), 0, act()}}; if (r.chance(0.5)) end(); break;
        case 2: a.in = {1, N()}; a.layers = {{snn::convolution, r.range(1, 2), r.range(1, 3), act()}}; end(); break;
        case 3: a.in = {1, side, r.range(260, 280)}; a.layers = {{snn::convolution, 1, r.range(1, 3), act()}}; end(); break;
        case 4: a.in = {r.range(1, 2), 2 * N()}; a.layers = {{snn::maxPooling, 0, 2}}; end(); break;
        case 5: a.in = {1, 2 * side, 270}; a.layers = {{snn::maxPooling, 0, r.range(1, 2)}}; end(); break;
        case 6: a.in = {1, N()}; a.layers = {{snn::locallyConnected, 1, 1, act()}}; end(); break;
        case 7: a.in = {1, side, r.range(260, 280)}; a.layers = {{snn::locallyConnected, r.range(1, 2), r.range(1, 2), act()}}; end(); break;
        case 8: a.in = {r.range(1, 2)}; a.layers = {{snn::recurrence, N(), 0, act()}}; end(); break;
        case 9: a.in = {N()}; a.layers = {{snn::recurrence, r.range(1, 2), 0, act()}}; break;
        case 10: a.in = {N()}; a.layers = {{snn::gruLayer, 1, 0}}; break;
        case 11: a.in = {1}; a.layers = {{snn::gruLayer, N(), 0}}; end(); break;
        case 12: a.in = {N(), r.range(1, 2)}; a.layers = {{r.chance(0.5) ? snn::convolution : snn::maxPooling, 1, 1, act()}}; if (a.layers[0].type == snn::maxPooling) a.layers[0].n = 0; end(); break;
        case 13: a.in = {side}; a.layers = {{snn::fullyConnected, side, 0, act()}}; end(); break;
        default: a.in = {r.range(1, 2)}; for (int i = r.range(257, 400); i > 0; --i) a.layers.push_back({snn::fullyConnected, r.range(1, 2), 0, r.chance(0.8) ? activation::identity : activation::tanh}); break;
        }
        a.lr = r.chance(0.7) ? r.uniform(1e-6f, 1e-5f) : r.uniform(0.01f, 0.2f); // small enough for the sums of rounding errors to stay small
        a.mom = r.chance(0.3) ? 0.0f : r.uniform(0.1f, 0.9f);
        return a;
    }

    inline vector<float> genInput(Rng& r, int n, float amp = 1.5f)
    {
        if (n > 10'000)
        {
            vector<float> v(static_cast<size_t>(n), 0.0f);
            for (int i = 0; i < 60; ++i) v[static_cast<size_t>(i % 3 == 0 ? r.range(n - 500, n - 1) : r.below(n))] = r.uniform(-amp, amp);
            v[65535 % v.size()] = v[65536 % v.size()] = v.back() = amp * 0.5f;
            return v;
        }
        vector<float> v(static_cast<size_t>(n));
        const int kind = r.below(10);
        for (auto& x : v)
        {
            if (kind == 0) x = static_cast<float>(r.range(-2, 2)); // ties, zeros
            else if (kind == 1) x = r.chance(0.6) ? 0.0f : r.uniform(-amp, amp);
            else x = r.uniform(-amp, amp);
        }
        return v;
    }

    // ---------------------------------------------------------------- access to the weights
    inline vector<float> neuronWeights(snn::internal::BaseLayer& layer, layerType t, int n)
    {
        void* p = layer.getNeuron(n);
        switch (t)
        {
        case snn::recurrence: return static_cast<snn::internal::RecurrentNeuron*>(p)->getWeights();
        case snn::gruLayer: return static_cast<snn::internal::GatedRecurrentUnit*>(p)->getWeights();
        default: return static_cast<snn::internal::SimpleNeuron*>(p)->getWeights();
        }
    }

    using Weights = vector<vector<float>>; // one per neuron

    inline Weights layerWeights(snn::internal::BaseLayer& layer, layerType t)
    {
        Weights w;
        if (t == snn::maxPooling)
            return w;
        for (int n = 0; n < layer.getNumberOfNeurons(); ++n)
            w.push_back(neuronWeights(layer, t, n));
        return w;
    }

    inline vector<Weights> allWeights(const SNN& net, const Arch& a)
    {
        vector<Weights> v;
        for (size_t l = 0; l < a.layers.size(); ++l)
            v.push_back(layerWeights(*net.layers[l], a.layers[l].type));
        return v;
    }

    // not for GRU layers, whose weights cannot be set
    inline void setLayerWeights(snn::internal::BaseLayer& layer, layerType t, const Weights& w)
    {
        if (t == snn::maxPooling || t == snn::gruLayer)
            return;
        for (int n = 0; n < static_cast<int>(w.size()); ++n)
        {
            if (t == snn::recurrence)
                static_cast<snn::internal::RecurrentNeuron*>(layer.getNeuron(n))->setWeights(w[static_cast<size_t>(n)]);
            else
                static_cast<snn::internal::SimpleNeuron*>(layer.getNeuron(n))->setWeights(w[static_cast<size_t>(n)]);
        }
    }

    // random weights, mostly null in neurons that have very many
    inline void setRandomWeights(Rng& r, SNN& net, const Arch& a, float amp = 1.0f)
    {
        for (size_t l = 0; l < a.layers.size(); ++l)
        {
            auto w = layerWeights(*net.layers[l], a.layers[l].type);
            for (auto& v : w)
            {
                if (v.size() > 10'000) v = genInput(r, static_cast<int>(v.size()), 0.2f * amp);
                else for (auto& x : v) x = r.uniform(-amp, amp);
            }
            setLayerWeights(*net.layers[l], a.layers[l].type, w);
        }
    }

    inline vh::u64 hashWeights(const vector<Weights>& w)
    {
        vh::u64 h = 99;
        for (auto& l : w)
            for (auto& n : l)
                h = vh::mix(h ^ vh::hashVec(n));
        return h;
    }

    // empty when equal bit for bit, else what differs
    inline std::string diffWeights(const vector<Weights>& a, const vector<Weights>& b)
    {
        if (a.size() != b.size())
            return "number of layers";
        for (size_t l = 0; l < a.size(); ++l)
        {
            if (a[l].size() != b[l].size())
                return vh::str("number of neurons of layer ", l);
            for (size_t n = 0; n < a[l].size(); ++n)
            {
                if (a[l][n].size() != b[l][n].size())
                    return vh::str("number of weights of layer ", l, " neuron ", n);
                for (size_t i = 0; i < a[l][n].size(); ++i)
                    if (!vh::sameValue(a[l][n][i], b[l][n][i]))
                        return vh::str("layer ", l, " neuron ", n, " weight ", i, ": ", a[l][n][i], " and ", b[l][n][i]);
            }
        }
        return "";
    }

    // ---------------------------------------------------------------- activation functions
    inline double sig(double x) { return 1.0 / (1.0 + std::exp(-x)); }

    inline double f(activation a, double x)
    {
        switch (a)
        {
        case activation::sigmoid: return sig(x);
        case activation::iSigmoid: return sig(x) + 0.05 * x;
        case activation::tanh: return std::tanh(x);
        case activation::ReLU: return x > 0 ? x : 0;
        case activation::GELU: return x * (std::tanh(1.702 * x / 2) + 1) / 2;
        case activation::gaussian: return std::exp(-x * x);
        default: return x;
        }
    }

    inline double df(activation a, double x)
    {
        switch (a)
        {
        case activation::sigmoid: { const double t = std::tanh(x / 2); return (1 - t * t) / 4; }
        case activation::iSigmoid: { const double t = std::tanh(x / 2); return (1 - t * t) / 4 + 0.05; }
        case activation::tanh: { const double t = std::tanh(x); return 1 - t * t; }
        case activation::ReLU: return x > 0 ? 1 : 0;
        case activation::GELU: { const double t = std::tanh(1.702 * x / 2); return 1.702 * x * (1 - t * t) / 4 + (t + 1) / 2; }
        case activation::gaussian: return -2 * x * std::exp(-x * x);
        default: return 1;
        }
    }

    constexpr double EPS = 1.2e-7; // of float

    // value with a bound of the difference that the float computation may have
    struct V { double v = 0, t = 0; };

    inline V fV(activation a, V s)
    {
        const double y = f(a, s.v);
        return {y, std::abs(f(a, s.v + s.t) - f(a, s.v - s.t)) + s.t * 0.2 + 4 * EPS * (1 + std::abs(y) + (a == activation::GELU ? std::abs(s.v) : 0))};
    }

    inline V dfV(activation a, V s)
    {
        const double y = df(a, s.v);
        const double edge = a == activation::ReLU && std::abs(s.v) <= 2 * s.t ? 1 : 0;
        return {y, std::abs(df(a, s.v + s.t) - df(a, s.v - s.t)) + s.t + 6 * EPS * (1 + std::abs(y) + std::abs(s.v) * (a == activation::GELU || a == activation::gaussian ? 1 : 0)) + edge};
    }

    inline V mul(V a, V b) { const double v = a.v * b.v; return {v, std::abs(a.v) * b.t + std::abs(b.v) * a.t + a.t * b.t + EPS * std::abs(v)}; }
    inline V add(V a, V b) { const double v = a.v + b.v; return {v, a.t + b.t + EPS * (std::abs(a.v) + std::abs(b.v))}; }

    // which documented defects (known findings) the model reproduces
    struct Mode
    {
        bool k1 = false; // the reset keeps the previous output
        bool k2 = false; // GRU: the previous output of the blend is always 0
        bool k3 = false; // GRU: errors of the gates
        bool k4 = false; // LocallyConnected1D: position of the propagated errors
    };

    // ---------------------------------------------------------------- one layer
    class Layer
    {
        struct Rec // recurrent neuron or gate
        {
            V h, prevOut, sum, prevSum, recErr;
            vector<V> prevDelta;
            V forward(const vector<V>& in, const vector<float>& w, size_t w0, bool reset, activation a, double bias, const Mode& m)
            {
                if (reset)
                {
                    recErr = {};
                    if (!m.k1) { h = {}; sum = {}; }
                }
                prevSum = sum;
                prevOut = h;
                sum = dot(in, w, w0);
                sum = add(sum, mul(prevOut, {w[w0 + in.size()], 0}));
                sum = add(sum, {bias * w[w0 + in.size() + 1], EPS});
                h = fV(a, sum);
                return h;
            }
            // returns the error multiplied by the derivative; delta of each weight in d
            V learn(V error, const vector<V>& in, const vector<float>& w, size_t w0, activation a, double bias, double lr, double m, vector<V>& d)
            {
                const V e = mul(error, dfV(a, sum));
                d.assign(in.size() + 2, V{});
                if (prevDelta.empty()) prevDelta.resize(d.size());
                for (size_t i = 0; i < in.size(); ++i)
                    d[i] = add(mul({lr, lr * EPS}, mul(e, in[i])), mul({m, 0}, prevDelta[i]));
                recErr = add(e, mul(mul(recErr, dfV(a, prevSum)), {w[w0 + in.size()], 0}));
                size_t i = in.size();
                d[i] = add(mul({lr, lr * EPS}, mul(recErr, prevOut)), mul({m, 0}, prevDelta[i]));
                ++i;
                d[i] = add(mul({lr, lr * EPS}, mul(e, {bias, 0})), mul({m, 0}, prevDelta[i]));
                prevDelta = d;
                return e;
            }
        };

        static V dot(const vector<V>& in, const vector<float>& w, size_t w0)
        {
            V s;
            double mag = 0;
            size_t terms = 0; // null ones round nothing
            for (size_t i = 0; i < in.size(); ++i)
            {
                const double x = in[i].v * w[w0 + i];
                s.v += x;
                mag += std::abs(x);
                terms += x != 0 || in[i].t != 0;
                s.t += in[i].t * std::abs(w[w0 + i]);
            }
            s.t += EPS * mag * (2 + 0.5 * static_cast<double>(terms));
            return s;
        }

    public:
        L spec;
        Mode mode;
        vector<int> in, out;
        int nIn, nOut, positions = 1, filters = 0;
        double bias = 1;
        vector<vector<int>> idx; // positions (pooling: outputs) x kernel -> input, -1 outside

        // learning state
        vector<vector<V>> prevDelta; // simple: neuron (x position) -> weights
        vector<vector<V>> sums;      // neuron -> positions
        vector<Rec> rec;
        struct Gru { Rec r, z, o; V prev, zOut, oOut; };
        vector<Gru> gru;
        vector<V> lastIn;
        vector<int> argmax;
        vector<double> mask;

        Layer(const L& l, const vector<int>& inShape, Mode m = {}) : spec(l), mode(m)
        {
            in = isFilter(l.type) ? filterShape(inShape) : inShape;
            out = outShape(l, inShape);
            nIn = prod(in);
            nOut = prod(out);
            if (isFilter(l.type))
            {
                bias = 0.001;
                filters = out[0];
                const bool twoD = in.size() == 3;
                const int C = in[0], X = in[1], Y = twoD ? in[2] : 1;
                const int oX = out[1], oY = twoD ? out[2] : 1;
                positions = oX * oY;
                const int kY = twoD ? l.k : 1;
                const int stride = l.type == snn::convolution ? 1 : l.k;
                for (int p = 0; p < positions; ++p)
                {
                    const int x0 = (p % oX) * stride, y0 = (p / oX) * stride;
                    if (l.type == snn::maxPooling)
                    {
                        for (int c = 0; c < C; ++c)
                        {
                            vector<int> k;
                            for (int y = 0; y < kY; ++y)
                                for (int x = 0; x < l.k; ++x)
                                    if (x0 + x < X && y0 + y < Y)
                                        k.push_back(((y0 + y) * X + x0 + x) * C + c);
                            idx.push_back(k);
                        }
                        continue;
                    }
                    vector<int> k;
                    for (int y = 0; y < kY; ++y)
                        for (int x = 0; x < l.k; ++x)
                            for (int c = 0; c < C; ++c)
                                k.push_back(x0 + x < X && y0 + y < Y ? ((y0 + y) * X + x0 + x) * C + c : -1);
                    idx.push_back(k);
                }
            }
            else
                filters = l.n;
            if (l.type == snn::recurrence) rec.resize(static_cast<size_t>(l.n));
            if (l.type == snn::gruLayer) gru.resize(static_cast<size_t>(l.n));
        }

        int numberOfNeurons() const
        {
            switch (spec.type)
            {
            case snn::maxPooling: return 0;
            case snn::locallyConnected: return positions * spec.n;
            default: return spec.n;
            }
        }
        int weightsPerNeuron() const
        {
            switch (spec.type)
            {
            case snn::maxPooling: return 0;
            case snn::fullyConnected: return nIn + 1;
            case snn::recurrence: return nIn + 2;
            case snn::gruLayer: return 3 * (nIn + 2);
            default: return static_cast<int>(idx[0].size()) + 1;
            }
        }

        // outputs before the layer optimizers
        vector<V> forward(const vector<float>& input, bool reset, const Weights& w)
        {
            vector<V> x;
            for (float v : input) x.push_back({v, 0});
            lastIn = x;
            vector<V> o(static_cast<size_t>(nOut));
            switch (spec.type)
            {
            case snn::fullyConnected:
                sums.assign(static_cast<size_t>(spec.n), {});
                for (size_t n = 0; n < w.size(); ++n)
                {
                    const V s = add(dot(x, w[n], 0), {w[n][x.size()], 0});
                    sums[n] = {s};
                    o[n] = fV(spec.act, s);
                }
                break;
            case snn::recurrence:
                for (size_t n = 0; n < w.size(); ++n)
                    o[n] = rec[n].forward(x, w[n], 0, reset, spec.act, 1.0, mode);
                break;
            case snn::gruLayer:
                for (size_t n = 0; n < w.size(); ++n)
                {
                    auto& g = gru[n];
                    const size_t s = x.size() + 2;
                    if (reset) { g.zOut = {}; if (!mode.k1) g.prev = {}; }
                    const V h = reset && !mode.k1 ? V{} : g.r.h;
                    const V r = g.r.forward(x, w[n], 0, reset, activation::sigmoid, 1.0, mode);
                    g.zOut = g.z.forward(x, w[n], s, reset, activation::sigmoid, 1.0, mode);
                    g.o.h = mul(g.o.h, r);
                    g.oOut = g.o.forward(x, w[n], 2 * s, reset, activation::tanh, 1.0, mode);
                    g.prev = mode.k2 ? V{} : h;
                    const V y = add(mul({1 - g.zOut.v, g.zOut.t + EPS}, g.prev), mul(g.zOut, g.oOut));
                    g.r.h = g.z.h = g.o.h = y;
                    o[n] = y;
                }
                break;
            case snn::maxPooling:
                argmax.assign(static_cast<size_t>(nOut), -1);
                for (size_t k = 0; k < idx.size(); ++k)
                {
                    int best = -1;
                    for (int i : idx[k])
                        if (best < 0 || input[static_cast<size_t>(i)] >= input[static_cast<size_t>(best)])
                            best = i;
                    argmax[k] = best;
                    o[k] = {input[static_cast<size_t>(best)], 0};
                }
                break;
            default:
                sums.assign(w.size(), vector<V>(spec.type == snn::convolution ? static_cast<size_t>(positions) : 1));
                for (int p = 0; p < positions; ++p)
                {
                    const auto kin = kernelInput(p);
                    for (int fi = 0; fi < filters; ++fi)
                    {
                        const auto on = static_cast<size_t>(p * filters + fi);
                        const size_t n = spec.type == snn::convolution ? static_cast<size_t>(fi) : on;
                        const V s = add(dot(kin, w[n], 0), {bias * w[n][kin.size()], EPS * bias});
                        sums[n][spec.type == snn::convolution ? static_cast<size_t>(p) : 0] = s;
                        o[on] = fV(spec.act, s);
                    }
                }
            }
            return o;
        }

        // makes the memory of the recurrent layer the float value really produced
        void sync(const vector<float>& actual)
        {
            for (size_t n = 0; n < rec.size(); ++n) rec[n].h = {actual[n], 0};
            for (size_t n = 0; n < gru.size(); ++n) gru[n].r.h = gru[n].z.h = gru[n].o.h = {actual[n], 0};
        }

        // layer optimizers on the outputs; false when a mask cannot be known
        bool afterOutput(vector<V>& o, bool trainingMode, const vector<float>* actual)
        {
            for (size_t i = 0; i < spec.opts.size(); ++i)
            {
                const auto& op = spec.opts[i];
                if (op.type == snn::layerOptimizerType::dropout)
                {
                    if (!trainingMode)
                    {
                        for (auto& v : o) v = mul(v, {1.0 - op.value, EPS});
                        continue;
                    }
                    // the mask is what is observed: kept or null
                    mask.assign(o.size(), 1);
                    for (size_t j = 0; j < o.size(); ++j)
                        if ((*actual)[j] == 0.0f) { mask[j] = 0; o[j] = {}; }
                }
                else if (op.type == snn::layerOptimizerType::softmax)
                {
                    double mx = o[0].v, sum = 0, t = 0;
                    for (auto& v : o) { mx = std::max(mx, v.v); t = std::max(t, v.t); }
                    for (auto& v : o) sum += std::exp(v.v - mx);
                    for (auto& v : o)
                    {
                        const double y = std::exp(v.v - mx) / sum;
                        v = {y, y * (3 * t + EPS * (4 + std::abs(v.v - mx) + static_cast<double>(o.size()))) + 1.2e-38};
                    }
                }
            }
            return true;
        }

        void beforeBack(vector<V>& e, const Weights& w) const
        {
            for (auto& op : spec.opts)
            {
                switch (op.type)
                {
                case snn::layerOptimizerType::dropout:
                    for (size_t i = 0; i < e.size(); ++i) if (mask[i] == 0) e[i] = {};
                    break;
                case snn::layerOptimizerType::errorMultiplier:
                    for (auto& v : e) v = mul(v, {op.value, 0});
                    break;
                case snn::layerOptimizerType::l1Regularization:
                case snn::layerOptimizerType::l2Regularization:
                {
                    double s = 0;
                    long c = 0;
                    for (auto& n : w)
                        for (double x : n) { s += op.type == snn::layerOptimizerType::l1Regularization ? std::abs(x) : x * x; ++c; }
                    s = s / static_cast<double>(w.size()) * op.value;
                    for (auto& v : e) v = add(v, {s, std::abs(s) * EPS * static_cast<double>(4 + c)});
                    break;
                }
                default: break;
                }
            }
        }

        struct Back
        {
            vector<V> errors;                 // of the inputs
            vector<vector<V>> weights;        // after the update
        };

        Back backward(const vector<V>& error, const Weights& w, double lr, double m)
        {
            Back b;
            b.errors.resize(static_cast<size_t>(nIn));
            b.weights.resize(w.size());
            for (size_t n = 0; n < w.size(); ++n)
                for (float x : w[n]) b.weights[n].push_back({x, 0});
            auto apply = [](V& weight, V delta) { if (delta.v != 0 || delta.t != 0) weight = {weight.v + delta.v, weight.t + delta.t + 0.6 * EPS * (std::abs(weight.v) + std::abs(delta.v))}; };
            switch (spec.type)
            {
            case snn::maxPooling:
                for (size_t k = 0; k < idx.size(); ++k)
                    b.errors[static_cast<size_t>(argmax[k])] = error[k];
                break;
            case snn::recurrence:
                for (size_t n = 0; n < w.size(); ++n)
                {
                    vector<V> d;
                    const V e = rec[n].learn(error[n], lastIn, w[n], 0, spec.act, 1.0, lr, m, d);
                    for (size_t i = 0; i < lastIn.size(); ++i) b.errors[i] = add(b.errors[i], mul(e, {w[n][i], 0}));
                    for (size_t i = 0; i < d.size(); ++i) apply(b.weights[n][i], d[i]);
                }
                break;
            case snn::gruLayer:
                for (size_t n = 0; n < w.size(); ++n)
                {
                    auto& g = gru[n];
                    const size_t s = lastIn.size() + 2;
                    const V e = error[n];
                    vector<V> d;
                    const V dO = mul(e, g.zOut);
                    const V dZ = mode.k3 ? add(mul(e, g.oOut), dO) : mul(e, add(g.oOut, {-g.prev.v, g.prev.t}));
                    const V eO = g.o.learn(dO, lastIn, w[n], 2 * s, activation::tanh, 1.0, lr, m, d);
                    for (size_t i = 0; i < s; ++i) apply(b.weights[n][2 * s + i], d[i]);
                    const V eZ = g.z.learn(dZ, lastIn, w[n], s, activation::sigmoid, 1.0, lr, m, d);
                    for (size_t i = 0; i < s; ++i) apply(b.weights[n][s + i], d[i]);
                    const V dR = mode.k3 ? V{} : mul(mul(eO, {w[n][2 * s + lastIn.size()], 0}), g.prev);
                    const V eR = g.r.learn(dR, lastIn, w[n], 0, activation::sigmoid, 1.0, lr, m, d);
                    for (size_t i = 0; i < s; ++i) apply(b.weights[n][i], d[i]);
                    for (size_t i = 0; i < lastIn.size(); ++i)
                    {
                        b.errors[i] = add(b.errors[i], mul(eO, {w[n][2 * s + i], 0}));
                        b.errors[i] = add(b.errors[i], mul(eZ, {w[n][s + i], 0}));
                        b.errors[i] = add(b.errors[i], mul(eR, {w[n][i], 0}));
                    }
                }
                break;
            case snn::fullyConnected:
                prevDelta.resize(w.size());
                for (size_t n = 0; n < w.size(); ++n)
                {
                    const V e = mul(error[n], dfV(spec.act, sums[n][0]));
                    for (size_t i = 0; i < lastIn.size(); ++i) b.errors[i] = add(b.errors[i], mul(e, {w[n][i], 0}));
                    learnSimple(prevDelta[n], e, lastIn, b.weights[n], lr, m, apply);
                }
                break;
            default:
                const bool conv = spec.type == snn::convolution;
                prevDelta.resize(static_cast<size_t>(positions * filters));
                for (int p = 0; p < positions; ++p)
                {
                    const auto kin = kernelInput(p);
                    for (int fi = 0; fi < filters; ++fi)
                    {
                        const auto on = static_cast<size_t>(p * filters + fi);
                        const size_t n = conv ? static_cast<size_t>(fi) : on;
                        const V e = mul(error[on], dfV(spec.act, sums[n][conv ? static_cast<size_t>(p) : 0]));
                        // the position the propagated errors go to
                        const bool shifted = mode.k4 && spec.type == snn::locallyConnected && in.size() == 2;
                        const auto& kidx = idx[shifted ? on % static_cast<size_t>(positions) : static_cast<size_t>(p)];
                        for (size_t i = 0; i < kidx.size(); ++i)
                            if (kidx[i] >= 0)
                            {
                                auto& t = b.errors[static_cast<size_t>(kidx[i])];
                                t = add(t, mul(e, b.weights[n][i]));
                            }
                        learnSimple(prevDelta[on], e, kin, b.weights[n], conv ? lr / positions : lr, m, apply);
                    }
                }
            }
            return b;
        }

    private:
        vector<V> kernelInput(int p) const
        {
            vector<V> k;
            for (int i : idx[static_cast<size_t>(p)])
                k.push_back(i >= 0 ? lastIn[static_cast<size_t>(i)] : V{});
            return k;
        }
        template <class F>
        void learnSimple(vector<V>& prev, V e, const vector<V>& x, vector<V>& w, double lr, double m, F apply) const
        {
            if (prev.empty()) prev.resize(w.size());
            for (size_t i = 0; i < w.size(); ++i)
            {
                const V xi = i < x.size() ? x[i] : V{bias, bias * EPS};
                prev[i] = add(mul({lr, 3 * lr * EPS}, mul(e, xi)), mul({m, 0}, prev[i]));
                apply(w[i], prev[i]);
            }
        }
    };

    // first index where the float value is outside of the bound, -1 when none
    inline int mismatch(const vector<float>& actual, const vector<V>& expected, double factor = 4)
    {
        if (actual.size() != expected.size())
            return 1 << 30;
        for (size_t i = 0; i < actual.size(); ++i)
        {
            const double d = std::abs(static_cast<double>(actual[i]) - expected[i].v);
            if (!(d <= factor * expected[i].t + 1e-30) || !vh::finiteBits(actual[i]))
                return static_cast<int>(i);
        }
        return -1;
    }

    inline std::string describe(const vector<float>& actual, const vector<V>& expected, int i)
    {
        if (i == 1 << 30)
            return vh::str("size ", actual.size(), " instead of ", expected.size());
        return vh::str("value ", i, " is ", actual[static_cast<size_t>(i)], " instead of ", expected[static_cast<size_t>(i)].v, " (+-", 4 * expected[static_cast<size_t>(i)].t, ")");
    }

    // bounds so wide that the comparison says nothing
    inline bool vague(const vector<V>& v)
    {
        for (auto& x : v)
            if (!(x.t < 1e-2 * (1 + std::abs(x.v))) || !(std::abs(x.v) < 1e6))
                return true;
        return false;
    }
}

namespace ref
{
    inline snn::Wait epochs(int n)
    {
        snn::Wait w;
        w.epochs = n;
        return w;
    }
}
