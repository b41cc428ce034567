// C27: new networks start with independent random weights in bounds
#define VH_MAIN
#include "gen.hpp"
using namespace gen;

namespace
{
    // the weights of each neuron, a gated recurrent unit counting as three
    struct Neuron { vector<float> w; double limit; };

    vector<Neuron> neuronsOf(const SNN& net, const Arch& a)
    {
        vector<Neuron> v;
        const auto all = allWeights(net, a);
        for (size_t l = 0; l < all.size(); ++l)
            for (auto& n : all[l])
            {
                const size_t parts = a.layers[l].type == snn::gruLayer ? 3 : 1, size = n.size() / parts;
                for (size_t p = 0; p < parts; ++p)
                    v.push_back({{n.begin() + static_cast<long>(p * size), n.begin() + static_cast<long>((p + 1) * size)}, 2.4 / std::sqrt(static_cast<double>(size))});
            }
        return v;
    }

    // largest distance between the distribution of these numbers and the uniform one of [0; 1], and its limit
    std::string uniform(vector<double> u, const char* what)
    {
        const double n = static_cast<double>(u.size());
        if (n < 200) return "";
        std::sort(u.begin(), u.end());
        double d = 0;
        for (size_t i = 0; i < u.size(); ++i) d = std::max({d, std::abs(u[i] - static_cast<double>(i) / n), std::abs(u[i] - static_cast<double>(i + 1) / n)});
        if (d * std::sqrt(n) > 3.6) return vh::str(what, ": ", n, " weights are not spread over the range (distance ", d, ", from ", u.front(), " to ", u.back(), ")"); // probability 1e-11
        return "";
    }

    // correlation of pairs, in standard deviations
    double correlation(const vector<std::pair<double, double>>& p)
    {
        double s = 0;
        for (auto& [x, y] : p) s += x * y;
        return s / std::sqrt(static_cast<double>(p.size())) * 3; // variance of a product of two uniforms of [-1; 1]: 1/9
    }

    std::string judge(const vector<Neuron>& ns, vh::Ctx& c)
    {
        vector<double> plain, bias;
        vector<std::pair<double, double>> next, inside;
        std::set<vector<float>> seen;
        for (size_t i = 0; i < ns.size(); ++i)
        {
            const auto& n = ns[i];
            for (size_t k = 0; k < n.w.size(); ++k)
            {
                if (!(std::abs(n.w[k]) <= n.limit * 1.000001)) return vh::str("neuron ", i, " weight ", k, " is ", n.w[k], " out of ", n.limit);
                const double u = n.w[k] / n.limit;
                if (k + 1 == n.w.size()) { if (n.w[k] < 0) return vh::str("neuron ", i, " has the bias weight ", n.w[k]); bias.push_back(u); }
                else
                {
                    plain.push_back((u + 1) / 2);
                    if (i && k + 1 < ns[i - 1].w.size()) next.emplace_back(u, ns[i - 1].w[k] / ns[i - 1].limit);
                    if (k) inside.emplace_back(u, n.w[k - 1] / n.limit);
                }
            }
            if (n.w.size() >= 2 && !seen.insert(n.w).second) return vh::str("neuron ", i, " has the weights of another one: ", vh::vecStr(n.w));
        }
        c.count("initial weights", static_cast<long>(plain.size() + bias.size()));
        c.count("neurons", static_cast<long>(ns.size()));
        auto why = uniform(plain, "weights");
        if (why.empty()) why = uniform(bias, "bias weights");
        if (why.empty() && next.size() > 200 && std::abs(correlation(next)) > 7) why = vh::str("neighbour neurons are correlated: ", correlation(next), " standard deviations");
        if (why.empty() && inside.size() > 200 && std::abs(correlation(inside)) > 7) why = vh::str("neighbour weights are correlated: ", correlation(inside), " standard deviations");
        if (plain.size() > 40)
        {
            const auto positive = std::ranges::count_if(plain, [](double u) { return u > 0.5; });
            if (positive == 0 || positive == static_cast<long>(plain.size())) why = "all the weights have the same sign";
        }
        // values that are the same: 24 bits are enough for nearly none
        vector<double> sorted = plain;
        std::sort(sorted.begin(), sorted.end());
        long same = 0;
        for (size_t i = 1; i < sorted.size(); ++i) same += sorted[i] == sorted[i - 1];
        const double n = static_cast<double>(plain.size());
        if (static_cast<double>(same) > 3 + n * n / 2 / 4e6 * 4) why = vh::str(same, " of ", n, " weights have the value of another");
        return why;
    }

    bool share(const vector<Neuron>& a, const vector<Neuron>& b, std::string& what)
    {
        std::set<vector<float>> s;
        for (auto& n : a) if (n.w.size() >= 2) s.insert(n.w);
        for (auto& n : b)
            if (n.w.size() >= 2 && s.count(n.w)) { what = vh::vecStr(n.w); return true; }
        return false;
    }

    Arch architecture(Rng& r, bool big)
    {
        GenOptions go;
        go.opts = r.chance(0.2);
        go.dropout = true;
        if (big) { go.maxFc = 60; go.maxX = 12; go.maxFilters = 6; }
        return ref::gen(r, go);
    }
}

static void bounds(vh::Ctx& c)
{
    auto& r = c.rng;
    const Arch a = architecture(r, c.index % 4 == 0);
    const auto text = str(a);
    const auto net = build(a);
    const auto ns = neuronsOf(*net, a);
    auto why = judge(ns, c);
    if (!why.empty()) { c.fail("initial-weights", vh::str(text, ": ", why)); return; }
    // as many sets of weights as the layer has filters, or filters and positions, or neurons
    vector<int> shape = a.in;
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        const auto& L = a.layers[l];
        const auto out = net->layers[l]->getShapeOfOutput();
        const auto w = layerWeights(*net->layers[l], L.type);
        const size_t want = L.type == snn::maxPooling ? 0 : L.type == snn::locallyConnected ? static_cast<size_t>(prod(out)) : static_cast<size_t>(L.n);
        if (w.size() != want) { c.fail("sets-of-weights", vh::str(text, ": layer ", l, " has ", w.size(), " sets of weights instead of ", want)); return; }
        size_t size = 0;
        if (isFilter(L.type))
        {
            const auto s = filterShape(shape);
            size = static_cast<size_t>(s[0]);
            for (size_t d = 1; d < s.size(); ++d) size *= static_cast<size_t>(L.k);
            size += 1;
        }
        else
            size = static_cast<size_t>(prod(shape) + (L.type == snn::fullyConnected ? 1 : 2)) * (L.type == snn::gruLayer ? 3 : 1);
        for (auto& n : w) if (n.size() != size) { c.fail("sets-of-weights", vh::str(text, ": layer ", l, " has neurons of ", n.size(), " weights instead of ", size)); return; }
        shape = out;
    }
    // another one of the same architecture, in the same thread
    const auto other = build(a);
    std::string what;
    if (share(ns, neuronsOf(*other, a), what)) { c.fail("shared-weights", vh::str(text, ": two networks have the weights ", what)); return; }
    // a copy has the same ones
    SNN copy(*net);
    if (!diffWeights(allWeights(*net, a), allWeights(copy, a)).empty()) { c.fail("copy-weights", text); return; }
    c.count("networks", 2);
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

// many networks created in many threads with the real random numbers of the system
static void threads(vh::Ctx& c)
{
    auto& r = c.rng;
    const Arch a = architecture(r, false);
    const auto text = str(a);
    const int n = r.range(2, 12), each = r.range(1, 3);
    vector<vector<Neuron>> all(static_cast<size_t>(n * each));
    vh::realRandom = true;
    {
        vector<std::thread> t;
        std::atomic<int> ready{0};
        const bool together = r.chance(0.7);
        for (int i = 0; i < n; ++i)
        {
            t.emplace_back([&, i] {
                ++ready;
                while (together && ready < n) std::this_thread::yield();
                for (int k = 0; k < each; ++k) { const auto net = build(a); all[static_cast<size_t>(i * each + k)] = neuronsOf(*net, a); }
            });
            if (!together) t.back().join();
        }
        if (together) for (auto& x : t) x.join();
    }
    vh::realRandom = false;
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            std::string what;
            if (share(all[i], all[j], what)) { c.fail("shared-weights", vh::str(text, ": networks of threads ", j / static_cast<size_t>(each), " and ", i / static_cast<size_t>(each), " have the weights ", what)); return; }
        }
    // and they are not related: same weight of two networks
    vector<std::pair<double, double>> pairs;
    for (size_t i = 1; i < all.size(); ++i)
        for (size_t k = 0; k < all[i].size(); ++k)
            for (size_t w = 0; w + 1 < all[i][k].w.size(); ++w) pairs.emplace_back(all[i][k].w[w] / all[i][k].limit, all[i - 1][k].w[w] / all[i][k].limit);
    if (pairs.size() > 200 && std::abs(correlation(pairs)) > 7) c.fail("related-weights", vh::str(text, ": networks of different threads are correlated: ", correlation(pairs), " standard deviations"));
    c.count("networks of threads", static_cast<long>(all.size()));
    c.nontrivial(vh::mix(vh::hashStr(text) ^ static_cast<vh::u64>(n)));
}

// two executions of a program
static void processes(vh::Ctx& c)
{
    std::set<std::string> seen;
    const int n = 4;
    for (int i = 0; i < n; ++i)
    {
        FILE* p = popen((std::filesystem::read_symlink("/proc/self/exe").string() + " --weights 1").c_str(), "r");
        char line[256] = {};
        if (!p || !std::fgets(line, sizeof line, p)) { c.fail("process", "the program does not run"); if (p) pclose(p); return; }
        pclose(p);
        if (!seen.insert(line).second) { c.fail("shared-weights", vh::str("two executions of a program give the weights ", line)); return; }
    }
    c.count("executions", n);
    c.nontrivial(vh::mix(static_cast<vh::u64>(c.index)));
}

int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "--weights")
    {
        vh::realRandom = true;
        Arch a;
        a.in = {6};
        a.layers = {L{snn::fullyConnected, 2, 0, activation::sigmoid}};
        const auto net = build(a);
        std::printf("%s\n", vh::vecStr(layerWeights(*net->layers[0], snn::fullyConnected)[0]).c_str());
        return 0;
    }
    return vh::runAll(argc, argv, {
        {"bounds", 12000, 120000, bounds},
        {"threads", 1000, 10000, threads},
        {"processes", 8, 40, processes},
    });
}
