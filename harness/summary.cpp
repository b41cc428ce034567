// C24: the summary reports the real architecture and counts
#define VH_MAIN
#include "gen.hpp"
using namespace gen;

namespace
{
    std::string trim(const std::string& s)
    {
        const auto a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
        return a == std::string::npos ? "" : s.substr(a, b - a + 1);
    }
    std::string lower(std::string s) { for (auto& c : s) c = static_cast<char>(std::tolower(c)); return s; }

    struct Block { std::string type; std::map<std::string, std::string> values; vector<std::string> optimizers; };

    struct Parsed { std::map<std::string, std::string> head; vector<Block> layers; Block optimizer; };

    // titles are in a frame of '=', layers are separated by '-', values are "key: value"
    Parsed parse(const std::string& text)
    {
        Parsed p;
        std::istringstream in(text);
        std::string raw, part;
        bool newLayer = false, optimizers = false;
        while (std::getline(in, raw))
        {
            const auto line = trim(raw);
            if (line.empty()) continue;
            if (line.find_first_not_of('=') == std::string::npos) { optimizers = false; continue; }
            if (line[0] == '|') { part = lower(line); continue; }
            const bool inLayers = part.find("layers") != std::string::npos, inOptimizer = part.find("optimizer") != std::string::npos;
            if (line.find_first_not_of('-') == std::string::npos) { newLayer = true; optimizers = false; continue; }
            const auto colon = line.find(':');
            const auto key = colon == std::string::npos ? "" : lower(trim(line.substr(0, colon))), value = colon == std::string::npos ? line : trim(line.substr(colon + 1));
            if (inLayers)
            {
                if (newLayer || p.layers.empty()) { p.layers.push_back({line, {}, {}}); newLayer = false; continue; }
                auto& l = p.layers.back();
                if (key == "optimizers") optimizers = true;
                else if (!key.empty()) { optimizers = false; l.values[key] = value; }
                if (optimizers) l.optimizers.push_back(value);
                else if (key.empty()) l.values["unexpected line"] = value;
            }
            else if (inOptimizer)
            {
                if (key.empty()) p.optimizer.type = value; else p.optimizer.values[key] = value;
            }
            else if (!key.empty())
                p.head[key] = value;
        }
        return p;
    }

    std::string shapeStr(const vector<int>& v)
    {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + std::to_string(v[i]);
        return s + "]";
    }

    bool nearText(const std::string& s, double v)
    {
        char* end = nullptr;
        const double d = std::strtod(s.c_str(), &end);
        return end != s.c_str() && *end == 0 && std::abs(d - v) <= 1e-5 * std::abs(v) + 1e-12;
    }

    std::string typeName(const L& l, bool two)
    {
        switch (l.type)
        {
        case snn::fullyConnected: return "FullyConnected";
        case snn::recurrence: return "Recurrence";
        case snn::gruLayer: return "GruLayer";
        case snn::maxPooling: return two ? "MaxPooling2D" : "MaxPooling1D";
        case snn::locallyConnected: return two ? "LocallyConnected2D" : "LocallyConnected1D";
        default: return two ? "Convolution2D" : "Convolution1D";
        }
    }

    std::string judge(const SNN& net, const Arch& a, long steps, long& compared)
    {
        const auto p = parse(net.summary());
        auto head = [&](const char* key) { const auto it = p.head.find(key); return it == p.head.end() ? std::string("(absent)") : it->second; };
        long parameters = 0;
        const auto w = allWeights(net, a);
        for (auto& l : w) for (auto& n : l) parameters += static_cast<long>(n.size());
        if (head("name") != trim(net.autoSaveFilePath)) return "name " + head("name");
        if (head("parameters") != std::to_string(parameters)) return vh::str("parameters ", head("parameters"), " instead of ", parameters);
        if (head("epochs") != std::to_string(net.getCurrentEpoch())) return vh::str("epochs ", head("epochs"), " instead of ", net.getCurrentEpoch());
        std::string trainings = "(absent)";
        for (auto& [k, v] : p.head) if (k.rfind("train", 0) == 0) trainings = v;
        if (trainings != std::to_string(net.getNumberOfTraining())) return vh::str("trainings ", trainings, " instead of ", net.getNumberOfTraining());
        if (steps >= 0 && trainings != std::to_string(steps)) return vh::str("trainings ", trainings, " instead of the ", steps, " done");
        if (p.layers.size() != a.layers.size()) return vh::str(p.layers.size(), " layers instead of ", a.layers.size());
        vector<int> shape = a.in;
        for (size_t i = 0; i < a.layers.size(); ++i)
        {
            const auto& l = a.layers[i];
            const auto& b = p.layers[i];
            std::map<std::string, std::string> want;
            vector<int> in, out;
            bool two = false;
            long weights = 0;
            for (auto& n : w[i]) weights += static_cast<long>(n.size());
            if (isFilter(l.type))
            {
                in = filterShape(shape);
                two = in.size() == 3;
                out = {l.type == snn::maxPooling ? in[0] : l.n};
                for (size_t d = 1; d < in.size(); ++d) out.push_back(l.type == snn::convolution ? in[d] - l.k + 1 : (in[d] + l.k - 1) / l.k);
                want["kernel size"] = two ? vh::str(l.k, "x", l.k) : std::to_string(l.k);
                if (l.type != snn::maxPooling) want["filters"] = std::to_string(l.n);
            }
            else
            {
                in = {prod(shape)};
                out = {l.n};
                want["neurons"] = std::to_string(l.n);
            }
            want["input shape"] = shapeStr(in);
            want["output shape"] = shapeStr(out);
            if (l.type != snn::maxPooling) want["parameters"] = std::to_string(weights);
            if (l.type != snn::maxPooling && l.type != snn::gruLayer) want["activation"] = actName(l.act);
            if (b.type != typeName(l, two)) return vh::str("layer ", i, " is a ", b.type, " instead of ", typeName(l, two));
            for (auto& [k, v] : want)
            {
                const auto it = b.values.find(k);
                if (it == b.values.end()) return vh::str("layer ", i, " (", b.type, ") has no ", k);
                if (it->second != v) return vh::str("layer ", i, " (", b.type, "): ", k, " ", it->second, " instead of ", v);
                ++compared;
            }
            for (auto& [k, v] : b.values)
                if (k == "unexpected line" || ((k == "filters" || k == "neurons" || k == "activation" || k == "kernel size") && !want.count(k) && l.type != snn::gruLayer)) return vh::str("layer ", i, " (", b.type, "): ", k, " ", v);
            if (b.optimizers.size() != l.opts.size()) return vh::str("layer ", i, " (", b.type, "): ", b.optimizers.size(), " optimizers instead of ", l.opts.size());
            for (size_t o = 0; o < l.opts.size(); ++o)
            {
                static const char* names[] = {"Dropout", "L1Regularization", "L2Regularization", "ErrorMultiplier", "Softmax"};
                const auto kind = static_cast<int>(l.opts[o].type);
                const auto& t = b.optimizers[o];
                const auto open = t.find('(');
                if (trim(t.substr(0, open)) != names[kind]) return vh::str("layer ", i, ": optimizer ", t, " instead of ", names[kind]);
                if (kind != 4 && (open == std::string::npos || t.back() != ')' || !nearText(t.substr(open + 1, t.size() - open - 2), l.opts[o].value))) return vh::str("layer ", i, ": optimizer ", t, " instead of ", l.opts[o].value);
                ++compared;
            }
            shape = out;
        }
        if (p.optimizer.type != "StochasticGradientDescent") return "optimizer " + p.optimizer.type;
        const auto lr = p.optimizer.values.find("learning rate"), mo = p.optimizer.values.find("momentum");
        if (lr == p.optimizer.values.end() || !nearText(lr->second, a.lr)) return vh::str("learning rate ", lr == p.optimizer.values.end() ? "(absent)" : lr->second, " instead of ", a.lr);
        if (mo == p.optimizer.values.end() || !nearText(mo->second, a.mom)) return vh::str("momentum ", mo == p.optimizer.values.end() ? "(absent)" : mo->second, " instead of ", a.mom);
        compared += 7;
        return "";
    }
}

static void summaries(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.7);
    go.dropout = true;
    go.maxLayers = 6;
    go.maxX = 9;
    Arch a = ref::gen(r, go);
    auto net = build(a);
    const int nIn = net->getNumberOfInputs(), nOut = net->getNumberOfOutputs();
    const vector<DataSpec> sets{gen::data(r, nIn, nOut, 6), gen::data(r, nIn, nOut, 6)};
    const auto text = str(a);
    c.sample(text);
    long steps = 0, compared = 0;
    if (r.chance(0.1))
    {
        const auto n = gen::manyTrainings(r);
        if (auto longer = gen::afterTrainings(*net, n, c.scratch()))
        {
            net = std::move(longer);
            steps = static_cast<long>(n);
            c.count("long trainings");
        }
    }
    for (int k = r.range(0, 5); k >= 0; --k)
    {
        const auto why = judge(*net, a, steps, compared);
        if (!why.empty()) { c.fail("summary", vh::str(text, ": ", why)); return; }
        c.count("summaries compared");
        if (k == 0) break;
        auto s = step(r, nIn, nOut, sets);
        if (s.kind == 3 && net->hasNan()) break;
        if (s.kind == 3 && s.data->n == nature::timeSeries) steps = -1; // windows decide how many steps
        apply(*net, s);
        if (s.kind == 5) { a.lr = s.rate; a.mom = s.momentum; }
        if (net->hasNan()) steps = -1;
        if (steps >= 0 && s.kind == 2) ++steps;
        if (steps >= 0 && s.kind == 3) steps += s.epochs * (static_cast<int>(s.data->in.size()) / s.batch);
        if (r.chance(0.2)) { auto n = std::make_unique<SNN>(*net); net = std::move(n); }
        if (r.chance(0.2))
        {
            net->saveAs(c.scratch() + (r.chance(0.5) ? "/a.snn" : "/another name.snn"));
            net.reset(&SNN::loadFrom(net->autoSaveFilePath));
        }
    }
    c.count("values compared", compared);
    c.nontrivial(vh::hashStr(text));
}

// the summary of a network trained for many epochs
static void longLives(vh::Ctx& c)
{
    auto& r = c.rng;
    Arch a;
    a.in = {1};
    ref::L l;
    l.type = snn::fullyConnected;
    l.n = 1;
    l.act = activation::tanh;
    a.layers = {l};
    a.lr = 0.001f;
    auto net = build(a);
    long steps = 0, compared = 0;
    std::string epochsSeen;
    for (int k = r.range(2, 4); k > 0; --k)
    {
        const int n = r.range(1, 2);
        vector<vector<float>> in, out;
        for (int i = 0; i < n; ++i) in.push_back({r.uniform(-1, 1)}), out.push_back({r.uniform(-0.5f, 0.5f)});
        Data d(problem::regression, in, out);
        const int e = static_cast<int>(std::exp(r.uniform(0.0f, 14.0f)));
        net->train(d, snn::operator""_ep(static_cast<unsigned long long>(e)), 1, 0);
        steps += static_cast<long>(e) * n;
        epochsSeen += vh::str(" ", e);
        const auto why = judge(*net, a, steps, compared);
        if (!why.empty()) { c.fail("summary", vh::str("after", epochsSeen, " epochs: ", why)); return; }
        c.count("summaries after long trainings");
        c.count("epochs of summarized trainings", e);
    }
    c.nontrivial(vh::hashStr(epochsSeen));
    c.sample(epochsSeen);
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"summaries", 12000, 120000, summaries},
        {"longLives", 40, 300, longLives},
    });
}
