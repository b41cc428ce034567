// C21: a training is the training steps on the data it presents
#define VH_MAIN
#include "tap.hpp"
using namespace gen;

static void replay(vh::Ctx& c, bool async)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.5);
    go.maxX = 4;
    go.maxLayers = 3;
    go.rec = r.chance(0.5);
    go.gru = r.chance(0.5);
    const Arch a = ref::gen(r, go);
    auto net = build(a);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
    auto spec = gen::data(r, nIn, nOut, 10);
    // each training input says which data it is
    std::map<vector<float>, size_t> which;
    bool unique = true;
    for (size_t i = 0; i < spec.in.size(); ++i)
    {
        for (auto& x : spec.in[i]) x = r.uniform(-1.5f, 1.5f);
        unique &= which.emplace(spec.in[i], i).second;
    }
    for (int i = r.below(3); i > 0; --i) net->trainOnce(genInput(r, nIn), genInput(r, nOut), r.chance(0.5));
    SNN mirror(*net);
    const bool memory = hasMemory(a);
    long learned = 0, compared = 0, total = 0;
    std::string text = vh::str(str(a), " on ", spec.str());
    const int runs = r.range(1, 3);
    tap::Log log;
    tap::install(*net, log);
    auto data = spec.make();
    for (int run = 0; run < runs; ++run)
    {
        // anything else between the trainings
        const vector<DataSpec> sets{gen::data(r, nIn, nOut, 6)};
        for (int i = r.below(3); i > 0; --i)
        {
            const auto st = step(r, nIn, nOut, sets);
            if (st.kind == 3) continue;
            text += "; " + st.str();
            apply(*net, st);
            apply(mirror, st);
        }
        const auto before = net->getNumberOfTraining();
        learned = 0;
        log.events.clear();
        log.presented = 0;
        const int batch = spec.n == nature::nonTemporal && r.chance(0.4) ? r.range(1, static_cast<int>(spec.in.size())) : 1;
        const int freq = r.pick(vector<int>{0, 1, 1, 2});
        const bool as = async && r.chance(0.8);
        text += vh::str("; ", as ? "async" : "sync", " batch ", batch, " frequency ", freq);
        if (as)
        {
            const long until = r.below(30);
            std::atomic<bool> done{false};
            std::thread observer;
            net->startTrainingAsync(*data, batch, freq);
            if (r.chance(0.5))
                observer = std::thread([&] {
                    while (!done)
                    {
                        (void)net->getCurrentEpoch(); (void)net->getCurrentIndex(); (void)net->getGlobalClusteringRate(); (void)net->getMeanAbsoluteError(); (void)net->isTraining(); (void)net->hasNan();
                        usleep(50);
                    }
                });
            for (int t = 0; log.presented < until && t < 2000 && net->isTraining(); ++t) usleep(20);
            net->stopTrainingAsync();
            done = true;
            if (observer.joinable()) observer.join();
        }
        else
            net->train(*data, epochs(r.range(1, 3)), batch, freq);
        // the same steps, one by one
        for (auto& e : log.events)
        {
            if (!e.training)
            {
                if (memory) mirror.computeOutput(e.in, e.reset); // an evaluation is seen by the memory only
                continue;
            }
            if (!e.learned)
            {
                mirror.computeOutput(e.in, e.reset);
                continue;
            }
            ++learned;
            if (batch == 1 && unique)
            {
                const auto it = which.find(e.in);
                if (it == which.end()) { c.fail("replay-input", text + ": an input that is no data was learned: " + vh::vecStr(e.in)); return; }
                mirror.trainOnce(e.in, spec.out[it->second], e.reset);
            }
            else
            {
                vector<float> y = e.in;
                for (auto& l : mirror.layers) y = l->outputForTraining(y, e.reset);
                auto errors = e.errors;
                for (size_t l = mirror.layers.size() - 1; l > 0; --l) errors = mirror.layers[l]->backOutput(errors);
                mirror.layers[0]->train(errors);
            }
        }
        if (!sane(mirror, a)) { c.count("vague"); tap::remove(*net); return; }
        const auto d = diffWeights(allWeights(*net, a), allWeights(mirror, a));
        if (!d.empty()) { c.fail("replay-weights", vh::str(text, ": ", log.events.size(), " presentations: ", d)); tap::remove(*net); return; }
        if (net->getNumberOfTraining() != before + learned)
        { c.fail("replay-count", vh::str(text, ": ", net->getNumberOfTraining() - before, " trainings reported for ", learned, " steps")); tap::remove(*net); return; }
        compared += static_cast<long>(log.events.size());
        total += learned;
    }
    tap::remove(*net);
    // and the future is the same
    for (int i = 0; i < 3; ++i)
    {
        const auto x = genInput(r, nIn), t = genInput(r, nOut);
        const bool reset = r.chance(0.5);
        const auto y1 = net->computeOutput(x, reset), y2 = mirror.computeOutput(x, reset);
        if (!vh::sameBits(y1, y2)) { c.fail("replay-output", vh::str(text, ": outputs ", vh::vecStr(y1), " and ", vh::vecStr(y2))); return; }
        net->trainOnce(x, t, reset);
        mirror.trainOnce(x, t, reset);
        if (!sane(mirror, a)) { c.count("vague"); return; }
        const auto d = diffWeights(allWeights(*net, a), allWeights(mirror, a));
        if (!d.empty()) { c.fail("replay-momentum", text + ": later training: " + d); return; }
    }
    c.count("presentations replayed", compared);
    c.count("steps replayed", total);
    c.count(async ? "asynchronous trainings replayed" : "synchronous trainings replayed", runs);
    c.nontrivial(vh::hashStr(text));
    c.sample(vh::str(text, ": ", compared, " presentations, ", total, " steps"));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"sync", 4000, 40000, [](vh::Ctx& c) { replay(c, false); }},
        {"async", 600, 6000, [](vh::Ctx& c) { replay(c, true); }},
    });
}
