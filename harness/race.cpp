// C14: observing a training, and several networks in several threads, without data races (run under ThreadSanitizer)
#define VH_MAIN
#include "gen.hpp"
using namespace gen;

static Arch arch(Rng& r)
{
    GenOptions go;
    go.opts = r.chance(0.5);
    go.dropout = r.chance(0.4);
    go.maxX = 4;
    go.maxLayers = 3;
    go.lastOutputs = r.range(1, 3);
    return ref::gen(r, go);
}

// readers of everything that can be observed during a training
static void observers(vh::Ctx& c)
{
    auto& r = c.rng;
    const Arch a = arch(r);
    auto net = build(a);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
    std::string text = str(a);
    net->autoSaveFilePath = c.scratch() + "/auto.snn";
    net->autoSaveWhenBetter = r.chance(0.5);
    for (int round = r.range(1, 2); round > 0; --round)
    {
        auto spec = gen::data(r, nIn, nOut, 10);
        auto data = spec.make();
        const int freq = r.range(0, 2), batch = spec.n == nature::nonTemporal && r.chance(0.3) ? r.range(1, static_cast<int>(spec.in.size())) : 1;
        text += vh::str(" on ", spec.str(), ", frequency ", freq, ", batch ", batch);
        std::atomic<bool> over{false};
        std::atomic<long> observations{0};
        const SNN& n = *net;
        vector<std::thread> readers;
        const int k = r.range(1, 3);
        vector<vh::u64> seeds;
        for (int i = 0; i < k; ++i) seeds.push_back(r.next());
        const bool sync = r.chance(0.3);
        for (int i = 0; i < k; ++i)
            readers.emplace_back([&, i] {
                vh::seedThread(seeds[static_cast<size_t>(i)]);
                Rng q(seeds[static_cast<size_t>(i)]);
                while (!over)
                {
                    switch (q.below(9))
                    {
                    case 0: (void)n.isTraining(); break;
                    case 1: if (n.getCurrentIndex() < 0 || n.getCurrentEpoch() < 0) c.fail("progress", text + ": negative progress"); break;
                    case 2: if (n.getNumberOfTraining() < 0) c.fail("progress", text + ": negative number of trainings"); break;
                    case 3: (void)spy::Scores::of(n); break;
                    case 4: (void)spy::Scores::best(n); break;
                    case 5: (void)n.hasNan(); break;
                    case 6: (void)n.getNumberOfTrainingsBetweenTwoEvaluations(); break;
                    case 7: if (n.getNumberOfLayers() != static_cast<int>(a.layers.size()) || n.getNumberOfInputs() != nIn || n.getNumberOfOutputs() != nOut || n.getNumberOfParameters() < 0 || n.getNumberOfNeurons() < 0) c.fail("structure", text + ": the structure changes while training"); break;
                    default: n.waitFor(q.chance(0.5) ? snn::operator""_ms(static_cast<unsigned long long>(q.range(0, 2))) : n.isTraining() || !sync ? snn::operator""_ms(1) : snn::operator""_ms(2));
                    }
                    observations.fetch_add(1, std::memory_order_relaxed);
                }
            });
        if (sync)
            net->train(*data, epochs(r.range(1, 6)), batch, freq);
        else
        {
            net->startTrainingAsync(*data, batch, freq);
            if (r.chance(0.7))
                net->waitFor(r.chance(0.5) ? epochs(r.range(1, 3)) : snn::operator""_ms(static_cast<unsigned long long>(r.range(0, 4))));
            // what is rejected reads nothing of the training
            if (net->isTraining())
            {
                if (r.chance(0.5)) vh::throws([&] { const SNN copy(*net); });
                if (r.chance(0.5)) vh::throws([&] { net->saveAs(c.scratch() + "/no.snn"); });
                if (r.chance(0.5)) vh::throws([&] { net->saveFeatureMapsAsBitmap(c.scratch() + "/no"); });
                if (r.chance(0.5)) vh::throws([&] { net->train(*data, epochs(1)); });
            }
            if (r.chance(0.3))
                net->startTrainingAsync(*data, batch, freq);
            net->stopTrainingAsync();
        }
        over = true;
        for (auto& t : readers) t.join();
        c.count("observations", observations);
        c.count(sync ? "synchronous trainings observed" : "asynchronous trainings observed");
        // the main thread uses the network after the stop
        (void)net->computeOutput(genInput(r, nIn), true);
        if (r.chance(0.5)) { const SNN copy(*net); (void)(copy == *net); }
        if (r.chance(0.5)) net->saveAs(c.scratch() + "/net.snn");
        (void)net->summary();
    }
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

static int anyBatch(Rng& r, const DataSpec& s)
{
    return s.n == nature::nonTemporal && r.chance(0.4) ? r.range(1, static_cast<int>(s.in.size())) : 1;
}

// the life of a network: a function of its seed only
static vh::u64 life(vh::u64 seed, const std::string& dir, std::atomic<long>& operations)
{
    vh::u64 h = 1;
    auto add = [&](const vector<float>& v) { h = vh::hashVec(v, h); };
    vh::runThread(seed, [&] {
        Rng r(seed);
        const Arch a = arch(r);
        auto net = build(a);
        const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
        vector<DataSpec> sets;
        for (int i = 0; i < 2; ++i) sets.push_back(gen::data(r, nIn, nOut, 8));
        for (int i = r.range(3, 8); i > 0; --i)
        {
            operations.fetch_add(1, std::memory_order_relaxed); // must not order the threads
            switch (r.below(9))
            {
            case 7:
            {
                auto d = r.pick(sets).make();
                d->normalize(-1.0f, 1.0f);
                for (int k = 0; k < d->sets[snn::training].size; ++k) add(d->getTrainingData(k));
                break;
            }
            case 8:
            {
                const auto d = r.pick(sets).make();
                const auto prefix = dir + "/" + std::to_string(seed) + "-";
                net->saveData2DAsBitmap(prefix + "d.bmp", *d, 0);
                net->saveFilterLayersAsBitmap(prefix + "f.bmp", *d, 0);
                break;
            }
            case 0: add(net->computeOutput(genInput(r, nIn), r.chance(0.5))); break;
            case 1: net->trainOnce(genInput(r, nIn), genInput(r, nOut, 1.0f), r.chance(0.5)); break;
            case 2:
            {
                const auto& s = r.pick(sets);
                const auto d = s.make();
                net->train(*d, epochs(r.range(1, 3)), anyBatch(r, s), r.below(3));
                break;
            }
            case 3:
            {
                const auto d = r.pick(sets).make();
                net->evaluate(*d);
                const auto v = spy::Scores::of(*net).v;
                add({v.begin(), v.end()});
                break;
            }
            case 4:
            {
                auto copy = std::make_unique<SNN>(*net);
                h = vh::mix(h + (*copy == *net));
                if (r.chance(0.5)) std::swap(copy, net);
                break;
            }
            case 5:
            {
                const auto f = dir + "/" + std::to_string(seed) + ".snn";
                net->saveAs(f);
                std::unique_ptr<SNN> l(&SNN::loadFrom(f));
                h = vh::mix(h + (*l == *net));
                if (r.chance(0.5)) net = std::move(l);
                break;
            }
            default:
            {
                SNN copy(*net);
                const auto& s = r.pick(sets);
                const auto d = s.make();
                copy.startTrainingAsync(*d, anyBatch(r, s), 1);
                copy.waitFor(snn::operator""_ms(1));
                copy.stopTrainingAsync();
                if (r.chance(0.5)) h = vh::hashStr(net->summary());
            }
            }
        }
        for (auto& l : allWeights(*net, a)) for (auto& n : l) add(n);
        h = vh::mix(h + static_cast<vh::u64>(net->getNumberOfTraining()));
    });
    return h;
}

static void several(vh::Ctx& c)
{
    auto& r = c.rng;
    const int k = r.range(2, 5);
    vector<vh::u64> seeds, alone, together(static_cast<size_t>(k));
    std::atomic<long> operations{0};
    const auto dir = c.scratch();
    for (int i = 0; i < k; ++i) seeds.push_back(i > 0 && r.chance(0.2) ? seeds[0] + 0 : r.next());
    for (size_t i = 1; i < seeds.size(); ++i) if (seeds[i] == seeds[0]) seeds[i] = r.next();
    // most often together first: what the library sets up at its first use is then used first by several threads
    const bool aloneFirst = r.chance(0.2);
    auto one = [&] { for (auto s : seeds) alone.push_back(life(s, dir, operations)); };
    if (aloneFirst) one();
    vector<std::thread> t;
    std::atomic<int> ready{0};
    for (size_t i = 0; i < seeds.size(); ++i)
        t.emplace_back([&, i] {
            ++ready;
            while (ready < k) {} // all at once
            try { together[i] = life(seeds[i], dir, operations); }
            catch (std::exception& e) { c.fail("unexpected-exception", e.what()); }
        });
    for (auto& x : t) x.join();
    if (!aloneFirst) one();
    for (size_t i = 0; i < seeds.size(); ++i)
        if (alone[i] != together[i]) c.fail("influence", vh::str("the network of seed ", seeds[i], " does not give the same results when ", k - 1, " others live at the same time"));
    c.count("networks living at the same time", k);
    c.count("operations", operations);
    c.nontrivial(vh::mix(seeds[0]));
    c.sample(vh::str(k, " networks at the same time, ", operations.load(), " operations"));
}

// copies of one network, in different threads
static void copies(vh::Ctx& c)
{
    auto& r = c.rng;
    const Arch a = arch(r);
    auto net = build(a);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs(), k = r.range(2, 4);
    const auto spec = gen::data(r, nIn, nOut, 8);
    vector<std::unique_ptr<SNN>> nets;
    for (int i = 0; i < k; ++i) nets.push_back(std::make_unique<SNN>(*net));
    const auto seed = r.next();
    const int batch = anyBatch(r, spec), frequency = r.below(3);
    auto use = [&](SNN& n) {
        vh::runThread(seed, [&] {
            const auto d = spec.make();
            n.train(*d, epochs(2), batch, frequency);
        });
    };
    use(*net);
    vector<std::thread> t;
    for (int i = 0; i < k; ++i) t.emplace_back([&, i] { use(*nets[static_cast<size_t>(i)]); });
    for (auto& x : t) x.join();
    for (auto& n : nets)
    {
        const auto why = diffWeights(allWeights(*n, a), allWeights(*net, a));
        if (!why.empty()) { c.fail("influence", vh::str(str(a), ": copies trained at the same time are not those trained alone: ", why)); break; }
    }
    c.count("copies trained at the same time", k);
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(str(a));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"several", 200, 2000, several}, // first in the process
        {"observers", 250, 2500, observers},
        {"copies", 200, 2000, copies},
    });
}
