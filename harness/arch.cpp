// C16: every architecture is either rejected or built with consistent shapes
#define VH_MAIN
#include "gen.hpp"
using namespace gen;
using snn::LayerModel;

namespace
{
    struct Built { vector<int> in, out; long neurons = 0, parameters = 0; };

    // the definition of what is accepted; empty reason when it is, then what each layer must be
    std::string specification(const vector<LayerModel>& m, float lr, float mom, vector<Built>& layers)
    {
        auto size = [](const vector<int>& s) {
            double p = 1;
            for (int x : s) { if (x <= 0) return -1.0; p *= x; }
            return p;
        };
        if (m.size() > 1000) return "too many layers";
        if (m.empty() || m[0].type != snn::layerType::input) return "no input";
        if (m.size() < 2) return "no layer";
        vector<int> shape = m[0].shapeOfInput;
        if (shape.empty()) return "no dimension";
        if (size(shape) < 0) return "empty input";
        if (size(shape) > 2073600) return "input too large";
        for (size_t i = 1; i < m.size(); ++i)
        {
            const auto& l = m[i];
            if (size(shape) > 1000000) return "layer input too large";
            if (l.type == snn::layerType::input) return "input in the middle";
            const long inputs = static_cast<long>(size(shape));
            Built b;
            const bool dense = l.type == snn::fullyConnected || l.type == snn::recurrence || l.type == snn::gruLayer;
            if (dense)
            {
                if (l.numberOfNeurons <= 0) return "no neuron";
                if (l.numberOfNeurons > 1000000) return "too many neurons";
                const long w = inputs + (l.type == snn::fullyConnected ? 1 : 2);
                if (w > 1000000) return "too many weights";
                b.in = {static_cast<int>(inputs)};
                b.out = {l.numberOfNeurons};
                b.neurons = l.numberOfNeurons;
                b.parameters = b.neurons * w * (l.type == snn::gruLayer ? 3 : 1);
            }
            else if (isFilter(l.type))
            {
                if (l.type != snn::maxPooling && l.numberOfFilters <= 0) return "no filter";
                if (l.type != snn::maxPooling && static_cast<double>(l.numberOfFilters) * static_cast<double>(inputs) > 1e8) return "too many filters";
                if (l.kernelSize <= 0) return "empty kernel";
                if (shape.size() > 3) return "too many dimensions";
                const auto s = filterShape(shape);
                long kernel = s[0], positions = 1;
                b.out = {l.type == snn::maxPooling ? s[0] : l.numberOfFilters};
                for (size_t d = 1; d < s.size(); ++d)
                {
                    if (l.kernelSize > s[d]) return "kernel too large";
                    kernel *= l.kernelSize;
                    b.out.push_back(l.type == snn::convolution ? s[d] - l.kernelSize + 1 : (s[d] + l.kernelSize - 1) / l.kernelSize);
                    positions *= b.out.back();
                }
                b.in = s;
                b.neurons = l.type == snn::maxPooling ? 0 : l.type == snn::convolution ? l.numberOfFilters : l.numberOfFilters * positions;
                b.parameters = b.neurons * (kernel + 1);
            }
            else
                return "unknown type";
            shape = b.out;
            layers.push_back(b);
        }
        if (lr <= 0 || lr >= 1) return "learning rate";
        if (mom < 0 || mom > 1) return "momentum";
        return "";
    }

    std::string text(const vector<LayerModel>& m, float lr, float mom)
    {
        std::ostringstream s;
        for (size_t i = 0; i < m.size() && i < 12; ++i)
        {
            static const char* n[] = {"FC", "Rec", "GRU", "Pool", "LC", "Conv", "Input"};
            const auto& l = m[i];
            if (l.type == snn::layerType::input) { s << "Input("; for (int x : l.shapeOfInput) s << x << ","; s << ") "; continue; }
            const char* name = l.type == snn::fullyConnected ? n[0] : l.type == snn::recurrence ? n[1] : l.type == snn::gruLayer ? n[2] : l.type == snn::maxPooling ? n[3] : l.type == snn::locallyConnected ? n[4] : l.type == snn::convolution ? n[5] : "?";
            s << name << "(";
            if (isFilter(l.type)) s << l.numberOfFilters << "x" << l.kernelSize; else s << l.numberOfNeurons;
            s << ") ";
        }
        if (m.size() > 12) s << "... " << m.size();
        s << " lr " << lr << " m " << mom;
        return s.str();
    }

    std::string shapeStr(const vector<int>& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }

    void judge(vh::Ctx& c, const vector<LayerModel>& m, float lr, float mom, bool use = true)
    {
        auto& r = c.rng;
        vector<Built> layers;
        const auto why = specification(m, lr, mom, layers);
        const auto t = text(m, lr, mom);
        std::unique_ptr<SNN> net;
        std::string what;
        const bool thrown = vh::throws([&] { net = std::make_unique<SNN>(m, snn::StochasticGradientDescent(lr, mom)); }, &what);
        c.nontrivial(vh::hashStr(t));
        c.sample(t + (why.empty() ? " is built" : " is rejected: " + why));
        if (!why.empty())
        {
            if (!thrown) c.fail("accepted", vh::str(t, " is built although: ", why));
            c.count("architectures rejected");
            c.count("rejected: " + why);
            return;
        }
        if (thrown) { c.fail("rejected", vh::str(t, " is rejected: ", what)); return; }
        long neurons = 0, parameters = 0;
        if (net->getNumberOfLayers() != static_cast<int>(layers.size()) || net->layers.size() != layers.size()) { c.fail("layers", vh::str(t, ": ", net->getNumberOfLayers(), " layers")); return; }
        for (size_t i = 0; i < layers.size(); ++i)
        {
            const auto& b = layers[i];
            auto& l = *net->layers[i];
            neurons += b.neurons;
            parameters += b.parameters;
            if (l.getShapeOfInput() != b.in) c.fail("input-shape", vh::str(t, ": layer ", i, " takes ", shapeStr(l.getShapeOfInput()), " instead of ", shapeStr(b.in)));
            if (l.getShapeOfOutput() != b.out) c.fail("output-shape", vh::str(t, ": layer ", i, " gives ", shapeStr(l.getShapeOfOutput()), " instead of ", shapeStr(b.out)));
            if (l.getNumberOfInputs() != prod(b.in)) c.fail("inputs", vh::str(t, ": layer ", i, " has ", l.getNumberOfInputs(), " inputs"));
            if (l.getNumberOfNeurons() != b.neurons) c.fail("neurons", vh::str(t, ": layer ", i, " has ", l.getNumberOfNeurons(), " neurons instead of ", b.neurons));
            if (l.getNumberOfParameters() != b.parameters) c.fail("parameters", vh::str(t, ": layer ", i, " has ", l.getNumberOfParameters(), " parameters instead of ", b.parameters));
            long real = 0;
            for (auto& n : layerWeights(l, m[i + 1].type)) real += static_cast<long>(n.size());
            if (real != b.parameters) c.fail("parameters", vh::str(t, ": layer ", i, " has ", real, " weights instead of ", b.parameters));
        }
        if (net->getNumberOfInputs() != prod(layers[0].in)) c.fail("inputs", vh::str(t, ": ", net->getNumberOfInputs(), " inputs"));
        if (net->getNumberOfOutputs() != prod(layers.back().out)) c.fail("outputs", vh::str(t, ": ", net->getNumberOfOutputs(), " outputs"));
        if (net->getNumberOfNeurons() != neurons) c.fail("neurons", vh::str(t, ": ", net->getNumberOfNeurons(), " neurons instead of ", neurons));
        if (net->getNumberOfParameters() != parameters) c.fail("parameters", vh::str(t, ": ", net->getNumberOfParameters(), " parameters instead of ", parameters));
        if (net->isValid() != 0) c.fail("valid", vh::str(t, ": isValid gives ", net->isValid()));
        c.count("architectures built");
        c.count("layers compared", static_cast<long>(layers.size()));
        if (!use || c.failed()) return;
        const int nIn = prod(layers[0].in), nOut = prod(layers.back().out);
        for (int k = 0; k < 2; ++k)
        {
            const auto y = net->computeOutput(genInput(r, nIn), true);
            if (static_cast<int>(y.size()) != nOut) { c.fail("outputs", vh::str(t, ": computes ", y.size(), " outputs instead of ", nOut)); return; }
            net->trainOnce(genInput(r, nIn), genInput(r, nOut, 1.0f), r.chance(0.5));
        }
        if (net->getNumberOfTraining() != 2) c.fail("training", t);
        // each layer gives what the next one takes
        auto x = genInput(r, nIn);
        for (size_t i = 0; i < layers.size(); ++i)
        {
            x = net->layers[i]->output(x, true);
            if (static_cast<int>(x.size()) != prod(layers[i].out)) { c.fail("outputs", vh::str(t, ": layer ", i, " computes ", x.size(), " outputs instead of ", prod(layers[i].out))); return; }
        }
        c.count("networks used");
    }

    activation act(Rng& r) { return static_cast<activation>(r.below(7)); }

    // small and edge values
    int edge(Rng& r, int usual)
    {
        if (r.chance(0.93)) return r.range(1, usual);
        return r.pick(vector<int>{0, -1, -5, std::numeric_limits<int>::min(), 0});
    }

    LayerModel randomLayer(Rng& r, int maxK)
    {
        LayerModel m;
        switch (r.below(9))
        {
        case 0: case 1: m = snn::FullyConnected(edge(r, 9), act(r)); break;
        case 2: m = snn::Recurrence(edge(r, 6), act(r)); break;
        case 3: m = snn::GruLayer(edge(r, 4)); break;
        case 4: m = snn::MaxPooling(edge(r, maxK)); break;
        case 5: case 6: m = snn::LocallyConnected(edge(r, 4), edge(r, maxK), act(r)); break;
        default: m = snn::Convolution(edge(r, 4), edge(r, maxK), act(r)); break;
        }
        return m;
    }
}

// random models with random numbers: the definition says whether each is valid
static void randomCase(vh::Ctx& c)
{
    auto& r = c.rng;
    vector<LayerModel> m;
    vector<int> shape;
    const int dims = r.pick(vector<int>{1, 1, 2, 2, 2, 3, 3, 3, 4, 0});
    for (int d = 0; d < dims; ++d) shape.push_back(edge(r, d == 0 && dims > 1 ? 3 : 9));
    m.push_back(inputModel(shape));
    for (int i = r.range(1, 6); i > 0; --i) m.push_back(randomLayer(r, 4));
    float lr = r.uniform(0.0001f, 0.9999f), mom = r.uniform(0, 1);
    if (r.chance(0.05)) lr = r.pick(vector<float>{0.0f, 1.0f, -0.1f, 1.5f, -0.0f, std::nextafter(1.0f, 0.0f), 1e-30f});
    if (r.chance(0.05)) mom = r.pick(vector<float>{0.0f, 1.0f, -0.1f, 1.0001f, 2.0f, -1e-30f});
    judge(c, m, lr, mom);
}

// valid architectures with exactly one thing wrong
static void oneWrong(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxX = 6;
    const Arch a = ref::gen(r, go);
    auto m = models(a);
    float lr = a.lr, mom = a.mom;
    const auto at = [&] { return static_cast<size_t>(r.range(1, static_cast<int>(m.size()) - 1)); };
    const int big = r.pick(vector<int>{1000001, 2000000000, std::numeric_limits<int>::max()});
    switch (r.below(15))
    {
    case 0: m.erase(m.begin()); break;
    case 1: m.resize(1); break;
    case 2: m.clear(); break;
    case 3: m.insert(m.begin() + static_cast<long>(at()), inputModel({r.range(1, 4)})); break;
    case 4: m[0].shapeOfInput[static_cast<size_t>(r.below(static_cast<int>(a.in.size())))] = r.range(-3, 0); break;
    case 5: m[0].shapeOfInput = r.pick(vector<vector<int>>{{2073601}, {1441, 1440}, {65536, 65536}, {46341, 46341}, {2147483647, 2147483647, 2147483647}, {1, 3, 2000, 2000}, {1000001}, {2073600}, {65536, 65537}, {2, 2147483647}}); break;
    case 6: { auto& l = m[at()]; l.numberOfNeurons = big; l.type = r.pick(vector<layerType>{snn::fullyConnected, snn::recurrence, snn::gruLayer}); break; }
    case 7: { auto& l = m[at()]; if (isFilter(l.type) && l.type != snn::maxPooling) l.numberOfFilters = r.pick(vector<int>{0, -1, 2000000000}); else if (l.type != snn::maxPooling) l.numberOfNeurons = r.range(-2, 0); break; }
    case 8: { auto& l = m[at()]; l.kernelSize = r.range(-2, 0); break; }
    case 9:
    {
        // a kernel that fits one dimension but not the other
        vector<Built> b;
        specification(m, lr, mom, b);
        const size_t i = at();
        if (isFilter(m[i].type))
        {
            const auto& s = b[i - 1].in;
            int lo = s[1];
            for (size_t d = 1; d < s.size(); ++d) lo = std::min(lo, s[d]);
            m[i].kernelSize = lo + 1;
        }
        break;
    }
    case 10: m[0].shapeOfInput.insert(m[0].shapeOfInput.begin(), static_cast<size_t>(4), 1); break; // 4 dimensions or more
    case 11: lr = r.pick(vector<float>{0.0f, 1.0f, -0.5f, 2.0f, 1.0f + 1e-6f}); break;
    case 12: mom = r.pick(vector<float>{-0.1f, 1.1f, 1.0f + 2e-7f, -1e-20f}); break;
#ifndef __SANITIZE_ADDRESS__ // such a value is undefined behaviour of the caller
    case 13: m[at()].type = static_cast<layerType>(r.range(50, 60)); break;
#endif
    default:
        m[0].shapeOfInput.clear();
    }
    judge(c, m, lr, mom);
}

// large ones, near the limits
static void large(vh::Ctx& c)
{
    auto& r = c.rng;
    vector<LayerModel> m;
    const float lr = 0.1f, mom = 0.5f;
    switch (c.index % 12)
    {
    case 0: case 1: case 2: case 3:
    {
        const int n = 998 + static_cast<int>(c.index % 12);
        m.push_back(inputModel({2}));
        for (int i = 1; i < n; ++i) m.push_back(snn::FullyConnected(r.range(1, 2)));
        judge(c, m, lr, mom);
        break;
    }
    case 4:
        for (int n : {999998, 999999, 1000000, 1000001})
            for (int t : {0, 1, 2}) { LayerModel l = snn::FullyConnected(1); if (t == 1) l = snn::Recurrence(1); if (t == 2) l = snn::GruLayer(1); judge(c, {inputModel({n}), l}, lr, mom, false); judge(c, {inputModel({n}), snn::MaxPooling(1), l}, lr, mom, false); }
        break;
    case 5: judge(c, {inputModel({1, 1000, 1000}), snn::MaxPooling(100), snn::FullyConnected(2)}, lr, mom); break;
    case 6: judge(c, {inputModel({1, 1440, 1440}), snn::MaxPooling(100), snn::FullyConnected(2)}, lr, mom); break;
    case 7: judge(c, {inputModel({3, 600, 500}), snn::Convolution(2, 7), snn::MaxPooling(3), snn::LocallyConnected(2, 11), snn::FullyConnected(3)}, lr, mom, false); break;
    case 8:
        for (int f : {10000, 10001, 100000}) if (f > 10000 || c.thorough) judge(c, {inputModel({10000}), snn::Convolution(f, 9999)}, lr, mom, false);
        judge(c, {inputModel({1, 50, 200}), snn::LocallyConnected(20000, 50)}, lr, mom, false);
        break;
    case 9: judge(c, {inputModel({1}), snn::FullyConnected(100000), snn::FullyConnected(1)}, lr, mom);
        judge(c, {inputModel({1}), snn::FullyConnected(2), snn::FullyConnected(1000001)}, lr, mom, false);
        judge(c, {inputModel({1}), c.index % 24 < 12 ? snn::FullyConnected(1000000) : snn::Recurrence(1000000)}, lr, mom, false);
        break;
    case 10: judge(c, {inputModel({1, 2, 30000}), snn::MaxPooling(2), snn::FullyConnected(1)}, lr, mom); break;
    default:
        for (int k = 1; k <= 40; ++k)
            for (auto t : {0, 1, 2}) { LayerModel l = snn::MaxPooling(k); if (t == 1) l = snn::LocallyConnected(2, k); if (t == 2) l = snn::Convolution(2, k); judge(c, {inputModel({2, 38, 37}), l}, lr, mom); judge(c, {inputModel({2, 39}), l, snn::FullyConnected(2)}, lr, mom); judge(c, {inputModel({39}), l}, lr, mom); }
    }
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"random", 20000, 200000, randomCase},
        {"oneWrong", 8000, 80000, oneWrong},
        {"large", 24, 120, large},
    });
}
