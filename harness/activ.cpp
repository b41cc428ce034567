// C22: activation functions and derivatives are accurate on all floats
#define VH_MAIN
#include "gen.hpp"
using namespace gen;
using snn::internal::ActivationFunction;

namespace
{
    constexpr double eps = 1.1920929e-7, largest = 3.4028234e38;

    float fromBits(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }

    // the largest difference that float arithmetic explains
    double boundF(activation a, double x, double y)
    {
        switch (a)
        {
        case activation::identity: case activation::ReLU: return std::abs(x) < 1.2e-38 ? 1.2e-38 : 0; // exact, but denormal numbers can be flushed
        case activation::tanh: return 3 * eps * std::abs(y) + 1.2e-38;
        case activation::GELU: return 4 * eps * std::abs(x) + 1.2e-38;
        case activation::iSigmoid: return 4 * eps * (1 + std::abs(0.05 * x));
        case activation::gaussian: return 4 * eps * (y + y * x * x) + 1.2e-38; // the square is rounded before the exponential
        default: return 3 * eps;
        }
    }
    double boundDf(activation a, double x, double y)
    {
        switch (a)
        {
        case activation::identity: case activation::ReLU: return 0;
        case activation::gaussian: return 6 * eps * (std::abs(y) + std::abs(y) * x * x) + 1.2e-38 * (1 + 2 * std::min(std::abs(x), 1e10));
        case activation::GELU: return 8 * eps * (1 + std::min(std::abs(x), 100.0));
        default: return 6 * eps;
        }
    }
    double value(activation a, double x) { return a == activation::gaussian && std::abs(x) > 1e10 ? 0 : f(a, x); }
    double slope(activation a, double x) { return a == activation::gaussian && std::abs(x) > 1e10 ? 0 : df(a, x); }

    void check(vh::Ctx& c, const ActivationFunction& fn, activation a, float x)
    {
        const double y = value(a, x), s = slope(a, x);
        const float v = fn.function(x), d = fn.derivative(x);
        if (std::abs(y) < largest * (1 - eps) && !vh::finiteBits(v)) { c.fail("activation-finite", vh::str(actName(a), "(", x, ") is not finite instead of ", y)); return; }
        if (vh::finiteBits(v) && !(std::abs(v - y) <= boundF(a, x, y))) { c.fail("activation-value", vh::str(actName(a), "(", x, ") is ", v, " instead of ", y)); return; }
        if (!vh::finiteBits(d)) { c.fail("derivative-finite", vh::str("the derivative of ", actName(a), " at ", x, " is not finite instead of ", s)); return; }
        const bool corner = a == activation::ReLU && std::abs(static_cast<double>(x)) < 1.2e-38;
        if (!corner && !(std::abs(d - s) <= boundDf(a, x, s))) { c.fail("derivative-value", vh::str("the derivative of ", actName(a), " at ", x, " is ", d, " instead of ", s)); return; }
        if (v < fn.min || v > fn.max) { c.fail("activation-bounds", vh::str(actName(a), "(", x, ") is ", v, " out of [", fn.min, "; ", fn.max, "]")); return; }
    }
}

// one sign and exponent by case, random mantissas: with the thorough scale, every float of some exponents
static void values(vh::Ctx& c)
{
    auto& r = c.rng;
    const auto high = static_cast<uint32_t>(c.index % 510);
    const uint32_t exponent = high % 255, sign = high / 255;
    const bool useful = exponent >= 96 && exponent <= 140; // 5e-10 to 16000, where the functions bend
    const int n = useful ? 8000 : 400;
    for (int k = 0; k < 7; ++k)
    {
        const auto a = static_cast<activation>(k);
        const auto fn = ActivationFunction::get(a);
        if (fn->getType() != a) { c.fail("activation-type", actName(a)); return; }
        for (int i = 0; i < n; ++i)
        {
            const uint32_t mantissa = i == 0 ? 0 : i == 1 ? 0x7FFFFF : i == 2 ? 1 : i == 3 ? 0x400000 : static_cast<uint32_t>(r.next() & 0x7FFFFF);
            check(c, *fn, a, fromBits(sign << 31 | exponent << 23 | mantissa));
        }
        if (c.failed()) return;
        c.count("values of a function compared", n);
    }
    c.nontrivial(vh::mix(high * 1000003ull + static_cast<vh::u64>(c.index)));
    c.sample(vh::str("sign ", sign, " exponent ", exponent, ": ", n, " mantissas for each function"));
}

// derivatives are those of the functions: compared with differences of the library's own values
static void slopes(vh::Ctx& c)
{
    auto& r = c.rng;
    for (int k = 0; k < 7; ++k)
    {
        const auto a = static_cast<activation>(k);
        const auto fn = ActivationFunction::get(a);
        for (int i = 0; i < 200; ++i)
        {
            const float x = r.uniform(-8, 8), h = 0.02f;
            if (a == activation::ReLU && std::abs(x) < 2 * h) continue;
            const float x1 = x - h, x2 = x + h;
            const double numeric = (static_cast<double>(fn->function(x2)) - fn->function(x1)) / (static_cast<double>(x2) - x1);
            if (std::abs(numeric - fn->derivative(x)) > 3e-4 + 1e-4 + 2e-6 * 8 / h * 0.02)
            { c.fail("derivative-numeric", vh::str("the derivative of ", actName(a), " at ", x, " is ", fn->derivative(x), ", its values change by ", numeric)); return; }
            c.count("slopes compared");
        }
    }
    c.nontrivial(vh::mix(static_cast<vh::u64>(c.index)));
}

// the neurons use the function they were given, also after copy, save and load
static void neurons(vh::Ctx& c)
{
    auto& r = c.rng;
    Arch a;
    const auto type = r.pick(vector<layerType>{snn::fullyConnected, snn::recurrence, snn::locallyConnected, snn::convolution});
    a.in = isFilter(type) ? (r.chance(0.5) ? vector<int>{1} : vector<int>{1, 1, 1}) : vector<int>{1};
    L l{type};
    l.n = r.range(1, 3);
    l.k = 1;
    l.act = static_cast<activation>(r.below(7));
    a.layers = {l};
    a.lr = 0.25f;
    auto net = build(a);
    const bool rec = type == snn::recurrence;
    const float bias = rec || type == snn::fullyConnected ? 1.0f : 0.001f;
    Weights w;
    for (int i = 0; i < l.n; ++i) w.push_back(rec ? vector<float>{1.0f, 0.0f, 0.0f} : vector<float>{1.0f, 0.0f});
    setLayerWeights(*net->layers[0], type, w);
    SNN copy(*net);
    const auto path = c.scratch() + "/n.snn";
    net->saveAs(path);
    const std::unique_ptr<SNN> loaded(&SNN::loadFrom(path));
    SNN* nets[] = {net.get(), &copy, loaded.get()};
    const char* names[] = {"network", "copy", "loaded network"};
    const auto text = str(a);
    c.sample(text);
    for (int i = 0; i < 60; ++i)
    {
        float x = r.chance(0.5) ? r.uniform(-6, 6) : r.uniform(-100, 100);
        if (r.chance(0.1)) x = fromBits(static_cast<uint32_t>(r.next()));
        if (!vh::finiteBits(x) || std::abs(x) > 1e37f) x = 0.5f;
        const double y = value(l.act, x);
        for (int k = 0; k < 3; ++k)
        {
            const auto v = nets[k]->computeOutput({x}, true);
            for (float o : v)
                if (!(std::abs(o - y) <= 2 * boundF(l.act, x, y))) { c.fail("neuron-function", vh::str(text, " ", names[k], ": ", x, " gives ", o, " instead of ", y)); return; }
            c.count("neuron outputs compared", static_cast<long>(v.size()));
        }
    }
    // one step, which uses the derivative
    const float x = r.uniform(-3, 3);
    const vector<float> t = genInput(r, l.n, 1.0f);
    for (int k = 0; k < 3; ++k)
    {
        nets[k]->trainOnce({x}, t, true);
        const auto after = layerWeights(*nets[k]->layers[0], type);
        for (size_t i = 0; i < static_cast<size_t>(l.n); ++i)
        {
            const double y = value(l.act, x), g = 0.25 * 2 * (t[i] - y) * slope(l.act, x);
            const double wx = 1 + g * x, wb = g * bias;
            if (std::abs(after[i][0] - wx) > 1e-5 * (1 + std::abs(g * x)) || std::abs(after[i].back() - wb) > 1e-5 * (1 + std::abs(g)))
            { c.fail("neuron-derivative", vh::str(text, " ", names[k], ": a step at ", x, " to ", t[i], " gives the weights ", vh::vecStr(after[i]), " instead of ", wx, " and ", wb)); return; }
            c.count("neuron steps compared");
        }
    }
    c.nontrivial(vh::mix(vh::hashStr(text) ^ static_cast<vh::u64>(c.index)));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"values", 510 * 4, 510 * 100, values},
        {"slopes", 500, 5000, slopes},
        {"neurons", 4000, 40000, neurons},
    });
}
