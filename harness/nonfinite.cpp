// C15: a non finite output is always detected and stops the training. Values are judged by their bits: this harness is built with the flags of the project.
#define VH_MAIN
#include "gen.hpp"
using namespace gen;

static float special(Rng& r)
{
    static const uint32_t b[] = {0x7F800000u, 0xFF800000u, 0x7FC00000u, 0xFFC00000u, 0x7F800001u, 0x7FFFFFFFu, 0xFFFFFFFFu};
    uint32_t u = b[r.below(7)];
    if (r.chance(0.3)) u = 0x7F800000u | (static_cast<uint32_t>(r.next()) & 0x807FFFFFu);
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}
// any finite float
static float finite(Rng& r)
{
    uint32_t u;
    do u = static_cast<uint32_t>(r.next()); while ((u & 0x7F800000u) == 0x7F800000u);
    if (r.chance(0.2)) { static const uint32_t b[] = {0, 0x80000000u, 1, 0x80000001u, 0x7F7FFFFFu, 0xFF7FFFFFu, 0x00800000u, 0x3F800000u, 0x7F000000u}; u = b[r.below(9)]; }
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}

namespace
{
    struct Player : spy::Script
    {
        vh::Ctx* c = nullptr;
        Rng rng{1};
        int nOut = 1;
        long countdown = -1;     // outputs before the special one
        bool seen = false, extreme = false;
        long outputs = 0, after = 0, learned = 0;
        std::string what;
        vector<float> output(const vector<float>&, bool, bool) override
        {
            ++outputs;
            if (seen) ++after;
            vector<float> y;
            for (int i = 0; i < nOut; ++i) y.push_back(extreme ? finite(rng) : rng.uniform(-1, 1));
            if (countdown >= 0 && countdown-- == 0)
            {
                const int k = rng.chance(0.7) ? 1 : rng.range(1, nOut);
                for (int i = 0; i < k; ++i) y[static_cast<size_t>(rng.below(nOut))] = special(rng);
                seen = true;
            }
            return y;
        }
        void train(const vector<float>&) override
        {
            ++learned;
            if (seen) c->fail("step-applied", what + ": a step was applied after a non finite output");
        }
    };
}

static bool scoresAreNan(const SNN& n)
{
    for (float f : spy::Scores::of(n).v)
        if (!vh::nanBits(f)) return false;
    return true;
}

static void scripted(vh::Ctx& c)
{
    auto& r = c.rng;
    Player p;
    p.c = &c;
    p.rng = Rng(r.next());
    const int nIn = r.range(1, 3);
    p.nOut = r.sized(1, r.chance(0.2) ? 20 : 4, 300, 0.03);
    p.extreme = r.chance(0.4);
    const spy::Registered reg(p);
    auto net = spy::network(reg, nIn, p.nOut);
    vector<DataSpec> sets;
    for (int i = 0; i < 2; ++i) sets.push_back(gen::data(r, nIn, p.nOut, r.chance(0.03) ? 80 : 8));
    const bool never = r.chance(0.3);
    p.countdown = never ? -1 : r.below(r.chance(0.5) ? 8 : 60);
    p.what = vh::str(p.nOut, " outputs, special output at ", p.countdown, p.extreme ? ", extreme values" : "");
    for (int i = r.range(2, 8); i > 0 && !c.failed(); --i)
    {
        const bool before = p.seen;
        const long after = p.after, learned = p.learned;
        const auto spec = r.pick(sets);
        const auto data = spec.make();
        const int tests = static_cast<int>(spec.outT.size());
        switch (r.below(6))
        {
        case 0:
            p.what += "; computeOutput";
            (void)net->computeOutput(genInput(r, nIn), r.chance(0.5));
            break;
        case 1:
            p.what += "; computeCluster";
            (void)net->computeCluster(genInput(r, nIn), r.chance(0.5));
            break;
        case 2:
            p.what += "; trainOnce";
            net->trainOnce(genInput(r, nIn), genInput(r, p.nOut, 1.0f), r.chance(0.5));
            break;
        case 3:
        {
            p.what += "; evaluate " + spec.str();
            net->evaluate(*data);
            if (before && !scoresAreNan(*net)) c.fail("scores", p.what + ": the scores after a non finite output are " + spy::Scores::of(*net).str());
            if (before) c.count("evaluations after a special output");
            break;
        }
        case 4:
        {
            const int freq = r.below(3);
            // with a special output coming, the training has no other end
            const bool coming = p.countdown >= 0 || p.seen;
            const int n = coming ? 1000000 : r.range(1, 4), b = spec.n == nature::nonTemporal && r.chance(0.4) ? r.range(1, static_cast<int>(spec.in.size())) : 1;
            p.what += vh::str("; train ", n, " frequency ", freq, " batch ", b, " on ", spec.str());
            net->train(*data, epochs(n), b, freq);
            if (coming)
            {
                if (!p.seen) c.fail("training-ended", p.what + ": the training ended although no output was special");
                c.count("trainings ended by a special output");
                if (p.after - after > 2 * tests + 4) c.fail("training-goes-on", vh::str(p.what, ": ", p.after - after, " outputs computed after the special one"));
            }
            else c.count("trainings with finite outputs");
            if (before && p.learned != learned) c.fail("step-applied", p.what);
            if (net->isTraining()) c.fail("state", p.what + ": still training");
            break;
        }
        default:
            if (r.chance(0.7))
            {
                p.what += "; copy";
                net = std::make_unique<SNN>(*net);
            }
            else
            {
                p.what += "; save and load";
                net->saveAs(c.scratch() + "/n.snn");
                net.reset(&SNN::loadFrom(c.scratch() + "/n.snn"));
                c.count("networks loaded");
            }
        }
        if (net->hasNan() != p.seen) c.fail(p.seen ? "not-reported" : "reported", vh::str(p.what, p.seen ? ": a special output is not reported" : ": NaN reported although all outputs were finite"));
        c.count("operations");
    }
    if (p.seen)
    {
        // later
        const auto data = sets[0].make();
        net->evaluate(*data);
        if (!scoresAreNan(*net)) c.fail("scores", p.what + ": the scores after a non finite output are " + spy::Scores::of(*net).str());
        net->train(*data, epochs(1000000), 1, r.below(2));
        if (!net->hasNan()) c.fail("not-reported", p.what + ": forgotten");
        if (r.chance(0.1))
        {
            net->startTrainingAsync(*data);
            net->waitFor(epochs(1000000));
            net->stopTrainingAsync();
            c.count("waits after a special output");
        }
        c.count("special outputs");
    }
    else c.count("histories without special output");
    c.nontrivial(vh::hashStr(p.what));
    c.sample(p.what);
}

// real networks pushed to overflow
static void real(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.3);
    go.maxX = 4;
    go.maxLayers = 3;
    const int style = r.below(4);
    if (r.chance(0.5)) go.acts = {activation::identity, activation::ReLU, activation::GELU, activation::iSigmoid};
    Arch a = ref::gen(r, go);
    if (style == 1) { a.lr = 0.95f; a.mom = 1.0f; }
    auto net = build(a);
    const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
    const double e = style == 0 ? r.uniform(-45, 38) : style == 1 ? r.uniform(0, 10) : style == 2 ? r.uniform(30, 38.4f) : 0;
    const auto amp = [&] { return static_cast<float>(std::pow(10.0, std::min(38.4, e + r.uniform(-1, 1)))); };
    std::string text = vh::str(str(a), " with inputs about 1e", e);
    bool expected = false;
    for (int i = r.range(5, 30); i > 0; --i)
    {
        auto x = genInput(r, nIn, 1.0f);
        const float k = amp();
        if (style != 3) for (auto& v : x) { v *= k; if (!vh::finiteBits(v)) v = 3e38f; }
        if (style == 3 && r.chance(0.1)) x[static_cast<size_t>(r.below(nIn))] = special(r);
        const bool reset = r.chance(0.5);
        SNN twin(*net);
        vector<float> y;
        const bool training = r.chance(0.7);
        if (training)
        {
            // what the training step will see: the same computation (no dropout here)
            y = x;
            for (auto& l : twin.layers) y = l->outputForTraining(y, reset);
            const auto before = allWeights(*net, a);
            net->trainOnce(x, genInput(r, nOut, 1.0f), reset);
            bool fine = true;
            for (float f : y) fine &= vh::finiteBits(f);
            if (!fine) expected = true;
            if (expected && !diffWeights(before, allWeights(*net, a)).empty()) { c.fail("step-applied", text + ": " + diffWeights(before, allWeights(*net, a)) + " changed by a step whose output is " + vh::vecStr(y)); return; }
            if (expected) c.count("steps not applied"); else c.count("steps with finite outputs");
        }
        else
        {
            y = net->computeOutput(x, reset);
            for (float f : y) expected |= !vh::finiteBits(f);
        }
        if (net->hasNan() != expected)
        {
            c.fail(expected ? "not-reported" : "reported", vh::str(text, ": output ", vh::vecStr(y), expected ? " is not reported" : " is finite but NaN is reported"));
            return;
        }
    }
    auto spec = gen::data(r, nIn, nOut, 6);
    for (auto& v : spec.in) for (auto& x : v) { x *= style == 1 ? 1e4f : 1.0f; }
    const auto data = spec.make();
    if (expected)
    {
        net->evaluate(*data);
        if (!scoresAreNan(*net)) c.fail("scores", text + ": the scores after a non finite output are " + spy::Scores::of(*net).str());
        const auto before = allWeights(*net, a);
        net->train(*data, epochs(1000000));
        if (!diffWeights(before, allWeights(*net, a)).empty()) c.fail("step-applied", text + ": trained after a non finite output");
        c.count("real special outputs");
    }
    else
    {
        net->train(*data, epochs(20));
        if (net->hasNan())
        {
            const auto n = net->getNumberOfTraining();
            const auto before = allWeights(*net, a);
            net->train(*data, epochs(1000000));
            net->evaluate(*data);
            if (!scoresAreNan(*net)) c.fail("scores", text + ": the scores are " + spy::Scores::of(*net).str());
            if (!diffWeights(before, allWeights(*net, a)).empty() || n != net->getNumberOfTraining()) c.fail("step-applied", text + ": trained after a non finite output");
            c.count("real special outputs");
        }
        else
        {
            bool all = true;
            for (float f : net->computeOutput(spec.in[0], true)) all &= vh::finiteBits(f);
            if (all == net->hasNan()) c.fail(all ? "reported" : "not-reported", text + " after a training");
        }
    }
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"scripted", 4000, 40000, scripted},
        {"real", 4000, 40000, real},
    });
}
