// C07: auto save keeps the best network evaluated so far
#define VH_MAIN
#include "tap.hpp"
using namespace gen;
namespace fs = std::filesystem;

static const char* SENTINEL = "untouched";

static void sentinel(const std::string& p)
{
    std::ofstream f(p, std::ios::binary);
    f << SENTINEL;
}
static bool touched(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str() != SENTINEL;
}

namespace
{
    // gives the accuracy the script wants at each evaluation and checks the file as soon as something else happens
    struct Player : spy::Script
    {
        vh::Ctx* c = nullptr;
        SNN* net = nullptr;
        const DataSpec* spec = nullptr;
        std::string path, text;
        vector<int> plan;       // number of right answers of each evaluation
        size_t next = 0;
        int tested = -1;        // data of the evaluation in progress, -1 none
        bool on = true;
        float best = -1;
        long writes = 0, evaluations = 0, memory = 0;
        bool pending = false;   // an evaluation ended and its effect was not checked
        bool improved = false;
        float accuracy = 0;
        int memoryAt = 0;

        spy::SpyLayer* layer() const { return dynamic_cast<spy::SpyLayer*>(net->layers[0].get()); }

        void check(const char* when)
        {
            if (!pending) return;
            pending = false;
            const bool t = touched(path);
            const bool expected = on && improved;
            if (t != expected)
            {
                c->fail(expected ? "autosave-missing" : "autosave-unwanted", vh::str(text, " evaluation ", evaluations, " with accuracy ", accuracy, " (best before: ", best, "): the file was ", t ? "" : "not ", "written", when));
                return;
            }
            if (!t) return;
            ++writes;
            SNN* loaded = nullptr;
            std::string what;
            if (vh::throws([&] { loaded = &SNN::loadFrom(path); }, &what))
            {
                c->fail("autosave-load", vh::str(text, ": the file cannot be loaded: ", what));
                return;
            }
            std::unique_ptr<SNN> own(loaded);
            if (own->isTraining()) c->fail("autosave-idle", text + ": the loaded network is training");
            if (own->getGlobalClusteringRate() != accuracy || own->getGlobalClusteringRateMax() != accuracy)
                c->fail("autosave-accuracy", vh::str(text, ": the loaded network has accuracy ", own->getGlobalClusteringRate(), " and best ", own->getGlobalClusteringRateMax(), " instead of ", accuracy));
            auto* l = dynamic_cast<spy::SpyLayer*>(own->layers[0].get());
            if (!l || l->memory != memoryAt)
                c->fail("autosave-content", vh::str(text, ": the file holds the network of another moment"));
            if (own->autoSaveFilePath != path) c->fail("autosave-path", text + ": path " + own->autoSaveFilePath);
            if (!own->autoSaveWhenBetter) c->fail("autosave-content", text + ": the auto save setting is lost");
            sentinel(path);
        }

        vector<float> output(const vector<float>&, bool, bool training) override
        {
            vector<float> y(static_cast<size_t>(spec->nOut), 0.0f);
            if (training)
            {
                check(" (seen during the training)");
                ++layer()->memory;
                return y;
            }
            if (tested < 0)
            {
                check(" (seen at the next evaluation)");
                tested = 0;
                ++evaluations;
                improved = false;
            }
            // data number tested of the evaluation
            const int right = plan[next % plan.size()];
            const auto& t = spec->outT[static_cast<size_t>(tested)];
            if (tested < right) y = t;
            else for (size_t i = 0; i < y.size(); ++i) y[i] = t[i] + 5.0f;
            if (spec->p == problem::classification && tested >= right)
                for (size_t i = 0; i < y.size(); ++i) y[i] = t[i] == 1 ? -1.0f : 1.0f;
            if (spec->p == problem::multipleClassification && tested >= right)
                for (size_t i = 0; i < y.size(); ++i) y[i] = 1 - t[i];
            if (++tested == static_cast<int>(spec->outT.size()))
            {
                tested = -1;
                ++next;
                accuracy = static_cast<float>(right) / static_cast<float>(spec->outT.size());
                improved = accuracy > best;
                if (improved) best = accuracy;
                memoryAt = layer()->memory;
                pending = true;
            }
            return y;
        }
    };
}

static void scripted(vh::Ctx& c)
{
    auto& r = c.rng;
    DataSpec spec;
    spec = gen::data(r, r.range(1, 3), r.range(1, 3), 8, 0);
    spec.separator = 0.5f;
    Player p;
    p.c = &c;
    p.spec = &spec;
    p.path = c.scratch() + "/auto.snn";
    const int nTests = static_cast<int>(spec.outT.size());
    const int style = r.below(4);
    int level = r.range(0, nTests);
    for (int i = 0; i < 12; ++i)
    {
        p.plan.push_back(level);
        if (style == 0) level = r.range(0, nTests);
        else if (style == 1) level = std::min(nTests, level + r.below(2));
        else if (style == 2) level = std::max(0, std::min(nTests, level + r.range(-1, 1)));
        else level = r.chance(0.5) ? level : r.range(0, nTests);
    }
    const spy::Registered reg(p);
    auto net = spy::network(reg, spec.nIn, spec.nOut);
    net->autoSaveFilePath = p.path;
    auto data = spec.make();
    std::string plan;
    for (int x : p.plan) plan += " " + std::to_string(x);
    p.text = vh::str(spec.str(), " right answers", plan, " of ", nTests);
    const auto other = c.scratch() + "/other.snn";
    sentinel(p.path);
    sentinel(other);
    for (int i = r.range(1, 4); i > 0; --i)
    {
        net->autoSaveWhenBetter = p.on = r.chance(0.75);
        if (r.chance(0.2))
        {
            // the network goes on as a copy or as a loaded save
            if (r.chance(0.5)) net = std::make_unique<SNN>(*net);
            else
            {
                const auto f = c.scratch() + "/saved.snn";
                const auto keep = net->autoSaveFilePath;
                net->saveAs(f);
                net.reset(&SNN::loadFrom(f));
                net->autoSaveFilePath = keep;
            }
            p.text += "; copied or loaded";
        }
        p.net = net.get();
        const int kind = r.below(3), freq = r.pick(vector<int>{0, 1, 1, 2});
        if (kind == 0)
        {
            p.text += "; evaluate";
            net->evaluate(*data);
        }
        else if (kind == 1)
        {
            const int n = r.range(1, 4);
            p.text += vh::str("; train ", n, " frequency ", freq, p.on ? "" : " off");
            net->train(*data, epochs(n), 1, freq);
        }
        else
        {
            p.text += vh::str("; async, frequency ", freq, p.on ? "" : " off");
            const auto until = p.evaluations + r.range(0, 3);
            net->startTrainingAsync(*data, 1, freq);
            net->waitFor(epochs(r.range(1, 3)));
            (void)until;
            net->stopTrainingAsync();
        }
        if (p.tested != -1) { c.fail("evaluation-incomplete", p.text + ": an evaluation was not completed"); return; }
        p.check(" (seen at the end)");
        if (touched(other)) c.fail("autosave-unwanted", p.text + ": another file was written");
        if (c.failed()) return;
    }
    c.count("evaluations observed", p.evaluations);
    c.count("auto saves loaded", p.writes);
    c.nontrivial(vh::hashStr(p.text));
    c.sample(p.text);
}

// real networks: the file gives the outputs that the network had at that evaluation
static void real(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.5);
    go.dropout = r.chance(0.5);
    go.maxX = 4;
    go.maxLayers = 2;
    go.lastOutputs = r.range(2, 3);
    const Arch a = ref::gen(r, go);
    auto net = build(a);
    const int nIn = prod(a.in);
    auto spec = gen::data(r, nIn, go.lastOutputs, 8);
    auto data = spec.make();
    const auto path = c.scratch() + "/auto.snn";
    net->autoSaveFilePath = path;
    net->autoSaveWhenBetter = true;
    const bool async = r.chance(0.3);
    long loads = 0;
    float best = -1;
    vector<Weights> saved;
    std::string text = vh::str(str(a), " on ", spec.str(), async ? " async" : "");
    // epoch by epoch: the accuracy after an epoch decides whether the file holds the weights of that moment
    sentinel(path);
    const int rounds = r.range(2, 5);
    for (int i = 0; i < rounds; ++i)
    {
        if (i > 0)
            for (int k = r.range(1, 5); k > 0; --k)
                net->trainOnce(spec.in[static_cast<size_t>(k) % spec.in.size()], spec.out[static_cast<size_t>(k) % spec.in.size()], true);
        if (!sane(*net, a)) { c.count("vague"); return; }
        net->evaluate(*data);
        if (net->hasNan()) return;
        const float acc = net->getGlobalClusteringRate();
        const bool improved = acc > best;
        if (improved) best = acc;
        if (touched(path) != improved) { c.fail(improved ? "autosave-missing" : "autosave-unwanted", vh::str(text, ": accuracy ", acc, " best ", best)); return; }
        if (!improved) continue;
        std::unique_ptr<SNN> l(&SNN::loadFrom(path));
        ++loads;
        const auto why = diffWeights(allWeights(*l, a), allWeights(*net, a));
        if (!why.empty() || l->isTraining() || l->getGlobalClusteringRate() != acc) { c.fail("autosave-content", vh::str(text, ": ", why, " accuracy ", l->getGlobalClusteringRate(), " instead of ", acc)); return; }
        SNN copy(*net);
        for (int k = 0; k < 3; ++k)
        {
            const auto x = genInput(r, nIn);
            const bool reset = r.chance(0.5);
            if (!vh::sameBits(l->computeOutput(x, reset), copy.computeOutput(x, reset))) { c.fail("autosave-outputs", text + ": other outputs than at the evaluation"); return; }
        }
        sentinel(path);
    }
    // a whole training: what is in the file at the end has the best accuracy of all, and it can be evaluated and trained again
    if (async)
    {
        net->startTrainingAsync(*data);
        net->waitFor(epochs(r.range(1, 4)));
        net->stopTrainingAsync();
    }
    else
        net->train(*data, epochs(r.range(1, 5)));
    if (net->hasNan()) return;
    if (touched(path))
    {
        std::unique_ptr<SNN> l(&SNN::loadFrom(path));
        ++loads;
        const float acc = l->getGlobalClusteringRate();
        if (!(acc > best) || acc != net->getGlobalClusteringRateMax() || l->getGlobalClusteringRateMax() != acc || l->isTraining())
            c.fail("autosave-accuracy", vh::str(text, ": the file has accuracy ", acc, ", the best of the training is ", net->getGlobalClusteringRateMax(), " (before: ", best, ")"));
        if (!hasMemory(a))
        {
            l->autoSaveWhenBetter = false;
            l->evaluate(*data);
            if (l->getGlobalClusteringRate() != acc) c.fail("autosave-content", vh::str(text, ": accuracy ", l->getGlobalClusteringRate(), " when evaluated again instead of ", acc));
        }
        l->autoSaveWhenBetter = false;
        l->train(*data, epochs(1));
    }
    else if (net->getGlobalClusteringRateMax() > best)
        c.fail("autosave-missing", vh::str(text, ": best ", net->getGlobalClusteringRateMax(), " after ", best, " and no file"));
    c.count("real auto saves loaded", loads);
    c.nontrivial(vh::hashStr(text));
    c.sample(vh::str(text, ": ", loads, " loads"));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"scripted", 2500, 25000, scripted},
        {"real", 1500, 15000, real},
    });
}
