// C04 purity, C05 copies, C06 save and load, C20 equality: the whole behaviour of twins is compared
#define VH_MAIN
#include "gen.hpp"
using namespace gen;
namespace fs = std::filesystem;

namespace
{
    struct Case
    {
        Arch a;
        std::unique_ptr<SNN> net;
        vector<DataSpec> sets;
        int nIn = 0, nOut = 0;
        std::string text;

        Case(Rng& r, const GenOptions& go, bool anyLast = true)
        {
            a = ref::gen(r, go);
            (void)anyLast;
            net = build(a);
            nIn = prod(a.in);
            nOut = net->getNumberOfOutputs();
            for (int i = 0; i < 3; ++i) sets.push_back(gen::data(r, nIn, nOut, 8));
            net->autoSaveFilePath = "none.snn";
            text = ref::str(a);
        }
        // what happened to the network before
        void history(Rng& r, vh::Ctx& c)
        {
            if (r.chance(0.1))
            {
                const auto n = gen::manyTrainings(r);
                if (auto longer = gen::afterTrainings(*net, n, c.scratch())) net = std::move(longer), text += vh::str("; ", n, " trainings"), c.count("long trainings");
            }
            for (int i = r.below(5); i > 0; --i)
            {
                const auto s = step(r, nIn, nOut, sets);
                text += "; " + s.str();
                apply(*net, s);
            }
        }
    };

    GenOptions anything(Rng& r, bool dropout = true)
    {
        GenOptions go;
        go.opts = r.chance(0.6);
        go.dropout = dropout;
        go.maxX = 5;
        go.maxLayers = 3;
        go.rec = r.chance(0.6);
        go.gru = r.chance(0.6);
        return go;
    }

    // the same steps on both: everything seen must be the same; empty when it was
    std::string sameFuture(SNN& x, SNN& y, Case& k, const vector<Step>& steps, bool* diverged = nullptr, bool statistics = true)
    {
        for (auto& s : steps)
        {
            const auto rx = apply(x, s), ry = apply(y, s);
            if (!sane(x, k.a)) { if (diverged) *diverged = true; return ""; }
            if (rx.size() != ry.size()) return s.str() + ": results of different sizes";
            for (size_t i = 0; i < rx.size(); ++i)
                if (!vh::sameValue(rx[i], ry[i]))
                    return s.str() + ": " + vh::vecStr(rx) + " and " + vh::vecStr(ry);
            const auto d = compareState(x, y, k.a, statistics);
            if (!d.empty()) return "after " + s.str() + ": " + d;
        }
        return "";
    }

    vector<Step> someSteps(Rng& r, Case& k, int n)
    {
        vector<Step> v;
        for (int i = 0; i < n; ++i) v.push_back(step(r, k.nIn, k.nOut, k.sets));
        return v;
    }

    std::string readFile(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }
    void writeFile(const std::string& p, const std::string& s)
    {
        std::ofstream f(p, std::ios::binary);
        f << s;
    }
}

// ---------------------------------------------------------------- C04
static void purity(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    SNN twin(*k.net);
    vector<Step> past;
    for (int i = r.below(5); i > 0; --i) past.push_back(step(r, k.nIn, k.nOut, k.sets));
    for (auto& s : past) { apply(*k.net, s); apply(twin, s); }
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    const auto weights = allWeights(*k.net, k.a);
    const auto trainings = k.net->getNumberOfTraining();
    auto progressOf = [](const SNN& n) { return counters(n, false); };
    const auto stateBefore = progressOf(*k.net);
    const auto dir = c.scratch();
    std::string what;
    spy::Scores first;
    for (int i = r.range(1, 6); i > 0; --i)
    {
        const auto set = r.pick(k.sets);
        switch (r.below(7))
        {
        case 0: what += " output"; for (int j = r.range(1, 4); j > 0; --j) k.net->computeOutput(genInput(r, k.nIn), r.chance(0.5)); break;
        case 1: what += " cluster"; k.net->computeCluster(genInput(r, k.nIn), r.chance(0.5)); break;
        case 2:
        {
            what += " evaluate";
            const auto d = set.make();
            k.net->evaluate(*d);
            first = spy::Scores::of(*k.net);
            k.net->evaluate(*d);
            c.count("double evaluations");
            if (!hasMemory(k.a) && !first.same(spy::Scores::of(*k.net)))
                c.fail("evaluation-twice", vh::str(k.text, " on ", set.str(), ": ", first.str(), " then ", spy::Scores::of(*k.net).str()));
            break;
        }
        case 3: what += " summary"; (void)k.net->summary(); break;
        case 4: what += " maps"; k.net->saveFeatureMapsAsBitmap(dir + "/m"); break;
        case 5:
        {
            what += " layers";
            const auto d = set.make();
            k.net->saveFilterLayersAsBitmap(dir + "/l", *d, r.below(static_cast<int>(set.inT.size())));
            break;
        }
        default:
        {
            what += " data";
            const auto d = set.make();
            k.net->saveData2DAsBitmap(dir + "/d", *d, r.below(static_cast<int>(set.inT.size())));
        }
        }
        c.count("operations that must change nothing");
    }
    if (k.net->hasNan()) { c.count("vague"); return; }
    const auto d = diffWeights(weights, allWeights(*k.net, k.a));
    if (!d.empty()) { c.fail("purity-weights", vh::str(k.text, " after", what, ": ", d)); return; }
    if (trainings != k.net->getNumberOfTraining() || stateBefore != progressOf(*k.net))
    { c.fail("purity-counters", vh::str(k.text, " after", what, ": ", stateBefore, " then ", progressOf(*k.net))); return; }
    // momentum: of every network whose memory cannot hide it
    bool dropoutMask = false;
    for (auto& l : k.a.layers)
        for (auto& o : l.opts) dropoutMask |= o.type == snn::layerOptimizerType::dropout;
    if (!hasMemory(k.a))
    {
        const auto steps = someSteps(r, k, 4);
        bool diverged = false;
        const auto why = sameFuture(*k.net, twin, k, steps, &diverged, false);
        if (!why.empty()) { c.fail("purity-future", vh::str(k.text, " after", what, ": ", why)); return; }
        c.count("futures compared");
    }
    else if (!hasType(k.a, snn::gruLayer) && !dropoutMask)
    {
        // without recurrent weights the outputs do not depend on the memory, and the momentum shows in the other weights
        for (auto* n : {k.net.get(), &twin})
            for (size_t l = 0; l < k.a.layers.size(); ++l)
                if (k.a.layers[l].type == snn::recurrence)
                {
                    auto w = layerWeights(*n->layers[l], snn::recurrence);
                    for (auto& v : w) v[v.size() - 2] = 0;
                    setLayerWeights(*n->layers[l], snn::recurrence, w);
                }
        const auto in = genInput(r, k.nIn), out = genInput(r, k.nOut);
        k.net->trainOnce(in, out, true);
        twin.trainOnce(in, out, true);
        if (!sane(*k.net, k.a)) { c.count("vague"); return; }
        auto w1 = allWeights(*k.net, k.a), w2 = allWeights(twin, k.a);
        for (auto* w : {&w1, &w2})
            for (size_t l = 0; l < k.a.layers.size(); ++l)
                if (k.a.layers[l].type == snn::recurrence)
                    for (auto& v : (*w)[l]) v[v.size() - 2] = 0;
        const auto m = diffWeights(w1, w2);
        if (!m.empty()) { c.fail("purity-momentum", vh::str(k.text, " after", what, ": ", m)); return; }
        c.count("momenta of recurrent networks compared");
    }
    c.nontrivial(vh::hashStr(k.text + what));
    c.sample(k.text + " after" + what);
}

// ---------------------------------------------------------------- C05
static void copies(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    if (r.chance(0.3)) k.net->autoSaveWhenBetter = false, k.net->autoSaveFilePath = vh::str("f", r.below(100), ".snn");
    k.history(r, c);
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    auto b = std::make_unique<SNN>(*k.net);
    auto d = std::make_unique<SNN>(r.chance(0.5) ? *b : *k.net); // a copy of a copy too
    if (!(*b == *k.net) || *b != *k.net || !(*k.net == *b) || !(*d == *k.net))
    { c.fail("copy-equal", k.text + ": a copy is different from its source"); return; }
    auto why = compareState(*b, *k.net, k.a);
    if (!why.empty()) { c.fail("copy-state", k.text + ": " + why); return; }
    const auto steps = someSteps(r, k, r.range(2, 6));
    // b and d live the same future while the source waits, then the source lives it too
    const auto before = counters(*k.net);
    const auto weights = allWeights(*k.net, k.a);
    const auto scores = spy::Scores::of(*k.net), best = spy::Scores::best(*k.net);
    bool diverged = false;
    why = sameFuture(*b, *d, k, steps, &diverged);
    if (!why.empty()) { c.fail("copies-future", k.text + ": two copies: " + why); return; }
    if (!diffWeights(weights, allWeights(*k.net, k.a)).empty() || before != counters(*k.net) || !scores.same(spy::Scores::of(*k.net)) || !best.same(spy::Scores::best(*k.net)))
    { c.fail("copy-independence", k.text + ": the source changed when its copies were used"); return; }
    if (r.chance(0.5)) d.reset();
    // the source against a copy taken now
    auto e = std::make_unique<SNN>(*k.net);
    why = sameFuture(*k.net, *e, k, steps, &diverged);
    if (!why.empty()) { c.fail("copy-future", k.text + ": " + why); return; }
    if (!diverged)
    {
        why = compareState(*e, *b, k.a);
        if (!why.empty()) { c.fail("copy-independence", k.text + ": the same steps gave another result after the copies were used: " + why); return; }
        // one goes on or is destroyed, the other keeps its state and its future
        SNN f(*e);
        const auto state = counters(*e);
        const auto w = allWeights(*e, k.a);
        k.net->autoSaveFilePath = "other.snn";
        b->autoSaveWhenBetter = !b->autoSaveWhenBetter;
        b->autoSaveWhenBetter = !b->autoSaveWhenBetter;
        for (auto& s : someSteps(r, k, 3)) apply(*k.net, s);
        if (r.chance(0.5)) k.net.reset();
        b.reset();
        if (state != counters(*e) || !diffWeights(w, allWeights(*e, k.a)).empty())
        { c.fail("copy-independence", k.text + ": a copy changed with its source"); return; }
        why = sameFuture(*e, f, k, someSteps(r, k, 3), &diverged);
        if (!why.empty()) { c.fail("copy-independence", k.text + ": after the source was used or destroyed: " + why); return; }
    }
    c.count("copies compared", 5);
    c.count("future steps compared", static_cast<long>(steps.size()) * 2 + 3);
    c.nontrivial(vh::hashStr(k.text));
    c.sample(k.text);
}

// the copy of a network that is training is rejected, whatever the moment
static void copyBusy(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxLayers = 2;
    Case k(r, go);
    const auto d = gen::data(r, k.nIn, k.nOut, 6).make();
    k.net->startTrainingAsync(*d);
    if (r.chance(0.5)) usleep(static_cast<unsigned>(r.below(2000)));
    for (int i = 0; i < 3; ++i)
    {
        const bool busy = k.net->isTraining();
        const bool rejected = vh::throws([&] { SNN n(*k.net); });
        // a network that diverged stops by itself
        if (busy && !rejected && k.net->isTraining()) c.fail("copy-busy", k.text + ": a training network was copied");
        c.count("copies during a training", busy && rejected);
    }
    k.net->stopTrainingAsync();
    if (vh::throws([&] { SNN n(*k.net); })) c.fail("copy-after", k.text + ": an idle network cannot be copied");
    c.nontrivial(vh::hashStr(k.text));
}

// ---------------------------------------------------------------- C06
// saving a network that is training is rejected, whatever the moment, and leaves the file as it was
static void saveBusy(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.maxLayers = 2;
    Case k(r, go);
    const auto path = c.scratch() + "/busy.snn";
    writeFile(path, "as it was");
    const auto d = gen::data(r, k.nIn, k.nOut, 6).make();
    const int before = k.net->getNumberOfTraining();
    k.net->startTrainingAsync(*d);
    if (r.chance(0.5)) usleep(static_cast<unsigned>(r.below(2000)));
    for (int i = 0; i < 3; ++i)
    {
        const bool busy = k.net->isTraining();
        const bool rejected = vh::throws([&] { k.net->saveAs(path); });
        // a network that diverged stops by itself
        const bool still = k.net->isTraining();
        if (busy && !rejected && still) c.fail("save-busy", k.text + ": a training network was saved");
        if (rejected && still && readFile(path) != "as it was") c.fail("save-busy", k.text + ": a rejected save changed the file");
        if (!rejected) break;
        c.count("saves during a training", busy);
    }
    k.net->stopTrainingAsync();
    (void)before;
    if (vh::throws([&] { k.net->saveAs(path); })) c.fail("save-after", k.text + ": an idle network cannot be saved");
    c.nontrivial(vh::hashStr(k.text));
}

static void persist(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    k.history(r, c);
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    if (r.chance(0.25)) // values hard to write
        for (size_t l = 0; l < k.a.layers.size(); ++l)
        {
            auto w = layerWeights(*k.net->layers[l], k.a.layers[l].type);
            for (auto& v : w)
                for (auto& x : v)
                    if (r.chance(0.2)) x = r.pick(vector<float>{0.0f, -0.0f, 1e-37f, 1.17549435e-38f, -3e-30f, 1234.56789f, 0.1f, 16777216.0f, -0.333333343f});
            setLayerWeights(*k.net->layers[l], k.a.layers[l].type, w);
        }
    const auto path = c.scratch() + "/" + r.pick(vector<std::string>{"a.snn", "with space.snn", "b", "12 34"});
    if (r.chance(0.3)) writeFile(path, std::string(static_cast<size_t>(r.range(1, 200000)), 'x')); // something longer was there
    k.net->autoSaveWhenBetter = r.chance(0.3);
    SNN original(*k.net);
    k.net->saveAs(path);
    original.autoSaveFilePath = path;
    if (!(original == *k.net)) c.fail("save-changes", k.text + ": saving changed the network");
    std::unique_ptr<SNN> loaded(&SNN::loadFrom(path));
    if (!(*loaded == *k.net) || *loaded != *k.net || !(*k.net == *loaded)) { c.fail("load-equal", k.text + ": the loaded network is different"); return; }
    auto why = compareState(*loaded, *k.net, k.a);
    if (!why.empty()) { c.fail("load-state", k.text + ": " + why); return; }
    loaded->autoSaveWhenBetter = k.net->autoSaveWhenBetter = false;
    bool diverged = false;
    const auto steps = someSteps(r, k, r.range(2, 6));
    // a second generation, and a copy of the loaded one
    loaded->autoSaveFilePath = k.net->autoSaveFilePath = "none.snn";
    const auto path2 = c.scratch() + "/second.snn";
    loaded->saveAs(path2);
    std::unique_ptr<SNN> second(&SNN::loadFrom(path2));
    SNN copy(*second);
    second->autoSaveFilePath = copy.autoSaveFilePath = loaded->autoSaveFilePath = "none.snn";
    why = sameFuture(*k.net, *loaded, k, steps, &diverged);
    if (!why.empty()) { c.fail("load-future", k.text + ": " + why); return; }
    why = sameFuture(copy, *second, k, steps, &diverged);
    if (!why.empty()) { c.fail("load-future", k.text + ": saved twice: " + why); return; }
    if (!diverged)
    {
        why = compareState(*k.net, *second, k.a);
        if (!why.empty()) { c.fail("load-future", k.text + ": saved twice: " + why); return; }
    }
    c.count("networks loaded", 2);
    c.count("future steps compared", 2 * static_cast<long>(steps.size()));
    c.nontrivial(vh::hashStr(k.text));
    c.sample(k.text);
}

// each way to damage a file
static void damaged(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    k.history(r, c);
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    const auto dir = c.scratch(), path = dir + "/a.snn", bad = dir + "/bad.snn";
    k.net->saveAs(path);
    const auto text = readFile(path);
    size_t end = text.find_last_not_of(" \n\r\t");
    const size_t lastToken = text.find_last_of(" \n\r\t", end); // cutting inside the last value is not seen
    if (lastToken == std::string::npos || lastToken < 2) { c.fail("file", "an empty save"); return; }
    auto mustThrow = [&](const std::string& what) {
        SNN* n = nullptr;
        std::string why;
        if (!vh::throws([&] { n = &SNN::loadFrom(bad); }, &why))
        {
            c.fail("load-damaged", vh::str(k.text, ": ", what, " was loaded"));
            delete n;
        }
        c.count("damaged files rejected");
    };
    for (int i = 0; i < 12; ++i)
    {
        size_t cut = i == 0 ? lastToken : i == 1 ? 0 : i < 5 ? static_cast<size_t>(r.below(static_cast<int>(std::min<size_t>(lastToken, 300)))) : static_cast<size_t>(r.below(static_cast<int>(lastToken)));
        writeFile(bad, text.substr(0, cut));
        mustThrow(vh::str("a file of ", text.size(), " bytes cut to ", cut));
    }
    writeFile(bad, "This is not a neural network, and it has several words in it.\n");
    mustThrow("a text file");
    std::string binary(static_cast<size_t>(r.range(1, 3000)), '\0');
    for (auto& b : binary) b = static_cast<char>(r.below(256));
    writeFile(bad, binary);
    mustThrow("a binary file");
    writeFile(bad, "22 serialization::archive 19 1 2 3\n");
    mustThrow("a foreign archive");
    fs::remove(bad);
    mustThrow("a missing file");
    fs::create_directory(bad);
    mustThrow("a directory");
    // the file itself is still good
    std::unique_ptr<SNN> again(&SNN::loadFrom(path));
    if (!(*again == *k.net)) c.fail("load-equal", k.text + ": the loaded network is different");
    // where nothing can be written
    for (const std::string p : {dir + "/nowhere/a.snn", dir, std::string("/dev/full"), std::string("")})
    {
        SNN n(*k.net);
        if (!vh::throws([&] { n.saveAs(p); })) c.fail("save-impossible", vh::str(k.text, ": saving to '", p, "' reported nothing"));
        if (n.isTraining() || !(n == *k.net) || n.autoSaveFilePath != k.net->autoSaveFilePath || !diffWeights(allWeights(n, k.a), allWeights(*k.net, k.a)).empty())
            c.fail("save-impossible", vh::str(k.text, ": a failed save to '", p, "' changed the network, its auto save file is '", n.autoSaveFilePath, "'"));
        c.count("impossible saves rejected");
    }
    c.nontrivial(vh::hashStr(k.text));
}

// a network that met a non finite output, copied (C05) and saved then loaded (C06): both report it and learn nothing any more
static void afterNan(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    k.history(r, c);
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    auto bad = genInput(r, k.nIn);
    bad[static_cast<size_t>(r.below(k.nIn))] = r.pick(vector<float>{std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
    const bool evaluated = r.chance(0.6);
    if (r.chance(0.5)) k.net->trainOnce(bad, genInput(r, k.nOut), r.chance(0.5));
    else (void)k.net->computeOutput(bad, r.chance(0.5));
    if (!k.net->hasNan()) { c.count("values that are not met"); return; } // behind a bounded activation
    const auto data = gen::data(r, k.nIn, k.nOut, 6).make();
    if (evaluated) k.net->evaluate(*data);
    const auto path = c.scratch() + "/n.snn";
    k.net->saveAs(path);
    std::unique_ptr<SNN> other[2]{std::make_unique<SNN>(*k.net), std::unique_ptr<SNN>(&SNN::loadFrom(path))};
    for (int i = 0; i < 2; ++i)
    {
        const auto text = k.text + (i ? ": the loaded network" : ": the copy");
        const auto sig = i ? "load-nan" : "copy-nan";
        auto& n = *other[i];
        if (!n.hasNan()) { c.fail(sig, text + " forgets the NaN"); return; }
        auto same = [&](const char* when) {
            const auto w = diffWeights(allWeights(n, k.a), allWeights(*k.net, k.a));
            if (!w.empty()) c.fail(sig, text + " has other weights " + when + ": " + w);
            if (n.getNumberOfTraining() != k.net->getNumberOfTraining()) c.fail(sig, text + " has another number of trainings " + when);
            if (!spy::Scores::of(n).same(spy::Scores::of(*k.net)) || !spy::Scores::best(n).same(spy::Scores::best(*k.net))) c.fail(sig, vh::str(text, " has other scores ", when, ": ", spy::Scores::of(n).str(), " best ", spy::Scores::best(n).str(), " instead of ", spy::Scores::of(*k.net).str(), " best ", spy::Scores::best(*k.net).str()));
        };
        same("at first");
        const auto before = allWeights(n, k.a);
        n.train(*data, epochs(1000000), 1, r.below(2)); // ends at once
        if (n.isTraining()) c.fail(sig, text + " is training");
        const auto w = diffWeights(before, allWeights(n, k.a));
        if (!w.empty()) c.fail(sig, text + " goes on learning: " + w);
        n.evaluate(*data);
        for (float f : spy::Scores::of(n).v)
            if (!vh::nanBits(f)) { c.fail(sig, text + " has the scores " + spy::Scores::of(n).str()); break; }
        c.count(i ? "loaded networks with a NaN" : "copied networks with a NaN");
    }
    c.nontrivial(vh::hashStr(k.text));
}

// a program whose global locale writes numbers in another way
class Numbers final : public std::numpunct<char>
{
    char point, separator;
    std::string groups;
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return separator; }
    std::string do_grouping() const override { return groups; }
    std::string do_truename() const override { return "oui"; }
    std::string do_falsename() const override { return "non"; }

public:
    Numbers(char point, char separator, std::string groups) : point(point), separator(separator), groups(std::move(groups)) {}
};

struct GlobalLocale
{
    std::locale before = std::locale();
    ~GlobalLocale() { std::locale::global(before); }
    static std::string set(Rng& r)
    {
        switch (r.below(5))
        {
        case 0: std::locale::global(std::locale::classic()); return "the classic locale";
        case 1: std::locale::global(std::locale(std::locale::classic(), new Numbers(',', '.', "\3"))); return "1.234,5";
        case 2: std::locale::global(std::locale(std::locale::classic(), new Numbers(',', ' ', "\3"))); return "1 234,5";
        case 3: std::locale::global(std::locale(std::locale::classic(), new Numbers('.', '\'', "\3"))); return "1'234.5";
        default: std::locale::global(std::locale(std::locale::classic(), new Numbers('.', ',', "\1\2"))); return "12,3,4.5";
        }
    }
};

static void localeCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    k.history(r, c);
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    GlobalLocale restored;
    const auto path = c.scratch() + "/l.snn";
    const auto saving = GlobalLocale::set(r);
    k.net->saveAs(path);
    const auto loading = GlobalLocale::set(r);
    const auto text = vh::str(k.text, ": saved with ", saving, " and loaded with ", loading);
    std::unique_ptr<SNN> loaded;
    try { loaded.reset(&SNN::loadFrom(path)); }
    catch (const std::exception& e) { c.fail("load-locale", text + ": " + e.what()); return; }
    if (!(*loaded == *k.net)) c.fail("load-locale", text + ": another network");
    const auto w = diffWeights(allWeights(*loaded, k.a), allWeights(*k.net, k.a));
    if (!w.empty()) c.fail("load-locale", text + ": other weights: " + w);
    if (!spy::Scores::of(*loaded).same(spy::Scores::of(*k.net)) || !spy::Scores::best(*loaded).same(spy::Scores::best(*k.net))) c.fail("load-locale", text + ": other scores");
    c.count("networks loaded in another locale", saving != loading);
    c.nontrivial(vh::hashStr(text));
}

// ---------------------------------------------------------------- C20
static std::unique_ptr<SNN> seeded(const Arch& a, vh::u64 seed)
{
    std::unique_ptr<SNN> n;
    vh::runThread(seed, [&] { n = build(a); });
    n->autoSaveFilePath = "none.snn";
    return n;
}

// settings of any magnitude: copied (0), saved and loaded (1), compared (2)
static void values(vh::Ctx& c, int kind)
{
    auto& r = c.rng;
    GenOptions go;
    Arch a = ref::gen(r, go);
    a.lr = r.chance(0.2) ? std::nextafter(1.0f, 0.0f) : r.chance(0.5) ? std::ldexp(r.uniform(1, 2), -r.range(1, 100)) : r.uniform(0.001f, 0.999f);
    a.mom = r.chance(0.3) ? static_cast<float>(r.below(2)) : r.chance(0.5) ? std::ldexp(r.uniform(1, 2), -r.range(1, 100)) : r.uniform(0, 1);
    for (auto& l : a.layers)
        if (l.type != snn::maxPooling && r.chance(0.8)) l.opts = wildOpts(r, 4, 100);
    const auto text = str(a);
    const auto seed = r.next();
    auto net = seeded(a, seed);
    if (kind == 2)
    {
        for (int t = 0; t < 8; ++t)
        {
            Arch b = a;
            std::string what;
            const int at = r.below(static_cast<int>(b.layers.size()) + 2) - 2;
            if (at == -2) { what = "learning rate"; b.lr = std::nextafter(a.lr, 0.0f); }
            else if (at == -1) { what = "momentum"; b.mom = a.mom > 0 ? std::nextafter(a.mom, 0.0f) : 1e-30f; }
            else
            {
                auto& o = b.layers[static_cast<size_t>(at)].opts;
                if (o.empty()) continue;
                auto& one = o[static_cast<size_t>(r.below(static_cast<int>(o.size())))];
                if (one.type == snn::layerOptimizerType::softmax || one.value == 0) continue;
                what = vh::str("value of an optimizer of layer ", at);
                one.value = std::nextafter(one.value, 0.0f);
            }
            const auto other = seeded(b, seed), same = seeded(b, seed);
            if (*other == *net || !(*other != *net) || *net == *other) { c.fail("equality-value", text + ": " + what + " moved by the smallest step: the networks are equal"); return; }
            if (!(*other == *same)) { c.fail("equality-value", text + ": " + what + ": twins are different"); return; }
            c.count("settings of any magnitude compared");
        }
        c.nontrivial(vh::hashStr(text));
        return;
    }
    std::unique_ptr<SNN> other;
    if (kind == 0) other = std::make_unique<SNN>(*net);
    else
    {
        const auto path = c.scratch() + "/values.snn";
        net->saveAs(path);
        if (vh::throws([&] { other.reset(&SNN::loadFrom(path)); })) { c.fail("load-value", text + ": cannot be loaded"); return; }
        net->autoSaveFilePath = other->autoSaveFilePath;
    }
    const char* const name = kind ? "load-value" : "copy-value";
    if (!(*net == *other) || *net != *other) c.fail(name, text + ": different networks");
    if (net->summary() != other->summary()) c.fail(name, text + ": other summaries");
    auto x = genInput(r, prod(a.in)), y = x;
    for (size_t n = 0; n < a.layers.size(); ++n)
    {
        x = net->layers[n]->output(x, true);
        y = other->layers[n]->output(y, true);
        if (!vh::sameBits(x, y)) { c.fail(name, vh::str(text, ": other outputs of layer ", n)); return; }
        vector<float> e;
        for (size_t i = 0; i < x.size(); ++i) e.push_back(r.uniform(-1, 1));
        auto f = e;
        const bool back = r.chance(0.5);
        vector<float> ex, ey;
        if (back) { ex = net->layers[n]->backOutput(e); ey = other->layers[n]->backOutput(f); }
        else { net->layers[n]->train(e); other->layers[n]->train(f); }
        if (!vh::sameBits(e, f) || !vh::sameBits(ex, ey)) { c.fail(name, vh::str(text, ": other errors of layer ", n)); return; }
    }
    const auto w = diffWeights(allWeights(*net, a), allWeights(*other, a));
    if (!w.empty()) c.fail(name, text + ": other weights after a training: " + w);
    c.count("networks with settings of any magnitude");
    c.nontrivial(vh::hashStr(text));
    c.sample(text);
}

static void equality(vh::Ctx& c)
{
    auto& r = c.rng;
    auto go = anything(r);
    Arch a = ref::gen(r, go), b = a;
    const auto seed = r.next();
    auto x = seeded(a, seed), y = seeded(b, seed);
    auto bothWays = [&](const SNN& p, const SNN& q, bool equal, const std::string& what) {
        c.count(equal ? "pairs that must be equal" : "pairs that must be different");
        if ((p == q) != (q == p)) c.fail("equality-symmetry", str(a) + ": " + what);
        if ((p == q) == (p != q) || (q == p) == (q != p)) c.fail("equality-negation", str(a) + ": " + what);
        if ((p == q) != equal) c.fail(equal ? "equality-same" : "equality-different:" + what.substr(0, what.find(' ')), str(a) + ": " + what);
    };
    bothWays(*x, *x, true, "itself");
    bothWays(*x, *y, true, "built the same way with the same weights");
    {
        SNN copy(*x);
        bothWays(copy, *x, true, "copy");
    }
    // one attribute, of one place
    vector<std::string> done;
    for (int t = 0; t < 6; ++t)
    {
        b = a;
        const auto li = static_cast<size_t>(r.below(static_cast<int>(b.layers.size())));
        auto& l = b.layers[li];
        std::string what;
        std::function<void(SNN&)> after = [](SNN&) {};
        switch (r.below(11))
        {
        case 0:
            if (l.type == snn::gruLayer || l.type == snn::maxPooling) continue;
            what = "activation of layer " + std::to_string(li);
            do l.act = r.pick(go.acts); while (l.act == a.layers[li].act);
            break;
        case 1:
            if (l.type == snn::maxPooling) continue;
            what = "size of layer " + std::to_string(li);
            l.n += 1;
            break;
        case 2:
        {
            if (!isFilter(l.type)) continue;
            what = "kernel of layer " + std::to_string(li);
            l.k = l.k > 1 && r.chance(0.5) ? l.k - 1 : l.k + 1;
            break;
        }
        case 3: what = "learning-rate"; b.lr = a.lr * 1.0001f; if (b.lr >= 1) continue; break;
        case 4: what = "momentum"; b.mom = a.mom > 0.5f ? a.mom - 0.001f : a.mom + 0.001f; break;
        case 5:
        {
            if (l.type == snn::maxPooling) continue;
            what = "optimizers of layer " + std::to_string(li);
            auto& o = l.opts;
            if (o.empty() || r.chance(0.25)) o.push_back(r.chance(0.5) ? snn::L1Regularization(0.01f) : snn::Softmax());
            else
            {
                auto& one = o[static_cast<size_t>(r.below(static_cast<int>(o.size())))];
                if (r.chance(0.3)) o.pop_back();
                else if (one.type == snn::layerOptimizerType::softmax) one = snn::ErrorMultiplier(1.0f);
                else if (one.type == snn::layerOptimizerType::l1Regularization && r.chance(0.5)) one.type = snn::layerOptimizerType::l2Regularization;
                else one.value = one.value > 0.3f ? one.value - 0.01f : one.value + 0.01f;
            }
            break;
        }
        case 6:
            if (l.type == snn::maxPooling || l.type == snn::gruLayer) continue;
            what = "weight of layer " + std::to_string(li);
            after = [&, li](SNN& n) {
                auto w = layerWeights(*n.layers[li], b.layers[li].type);
                auto& v = w[static_cast<size_t>(r.below(static_cast<int>(w.size())))];
                auto& f = v[static_cast<size_t>(r.below(static_cast<int>(v.size())))];
                f = std::nextafter(f, 10.0f);
                setLayerWeights(*n.layers[li], b.layers[li].type, w);
            };
            break;
        case 7: what = "autosave switch"; after = [](SNN& n) { n.autoSaveWhenBetter = !n.autoSaveWhenBetter; }; break;
        case 8: what = "autosave path"; after = [](SNN& n) { n.autoSaveFilePath += "x"; }; break;
        case 9:
        {
            what = "type of layer " + std::to_string(li);
            if (isFilter(l.type)) continue;
            l.type = l.type == snn::fullyConnected ? snn::recurrence : snn::fullyConnected;
            break;
        }
        default:
        {
            what = "layer more";
            L more{snn::fullyConnected, 1, 0, activation::identity};
            b.layers.push_back(more);
        }
        }
        // the weights of GRU and of other shapes come with the same seed when they can
        std::unique_ptr<SNN> z;
        if (vh::throws([&] { z = seeded(b, seed); })) continue;
        after(*z);
        bothWays(*x, *z, false, what);
        if (r.chance(0.3))
        {
            const auto path = c.scratch() + "/z.snn";
            const auto name = z->autoSaveFilePath;
            z->saveAs(path);
            std::unique_ptr<SNN> loaded(&SNN::loadFrom(path));
            bothWays(*loaded, *z, true, "loaded");
            loaded->autoSaveFilePath = name;
            bothWays(*loaded, *x, false, what + " (loaded)");
        }
        if (r.chance(0.3))
        {
            SNN copy(*z);
            bothWays(copy, *x, false, what + " (copy)");
        }
        c.nontrivial(vh::hashStr(str(a) + what));
        c.sample(str(a) + ": " + what);
    }
}

// whatever happened before: copies, loaded saves and twins are equal, and one more step makes them different
static void histories(vh::Ctx& c)
{
    auto& r = c.rng;
    Case k(r, anything(r));
    k.net = seeded(k.a, 77);
    auto twin = seeded(k.a, 77);
    const auto steps = someSteps(r, k, r.range(0, 4));
    for (auto& s : steps) { apply(*k.net, s); apply(*twin, s); k.text += "; " + s.str(); }
    if (!sane(*k.net, k.a)) { c.count("vague"); return; }
    const auto path = c.scratch() + "/h.snn";
    k.net->saveAs(path);
    twin->autoSaveFilePath = k.net->autoSaveFilePath;
    std::unique_ptr<SNN> loaded(&SNN::loadFrom(path));
    SNN copy(*k.net), second(*loaded);
    const vector<SNN*> all{k.net.get(), twin.get(), loaded.get(), &copy, &second};
    static const char* names[] = {"the network", "its twin", "its loaded save", "its copy", "a copy of its loaded save"};
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = 0; j < all.size(); ++j)
            if (!(*all[i] == *all[j]) || *all[i] != *all[j]) { c.fail("equality-same", vh::str(k.text, ": ", names[i], " and ", names[j], " are different")); return; }
    c.count("pairs that must be equal", 25);
    // one step of training of one of them
    const auto which = static_cast<size_t>(r.below(5));
    const auto weights = allWeights(*all[which], k.a);
    const auto count = all[which]->getNumberOfTraining();
    all[which]->trainOnce(genInput(r, k.nIn), genInput(r, k.nOut, 1.0f), true);
    if (!sane(*all[which], k.a)) { c.count("vague"); return; }
    const bool changed = !diffWeights(weights, allWeights(*all[which], k.a)).empty() || count != all[which]->getNumberOfTraining();
    if (!changed) { c.count("steps without effect"); return; }
    for (size_t j = 0; j < all.size(); ++j)
        if (j != which && (*all[which] == *all[j] || *all[j] == *all[which] || !(*all[which] != *all[j]) || !(*all[j] != *all[which])))
        { c.fail("equality-different:step", vh::str(k.text, ": ", names[which], " after one step more is equal to ", names[j])); return; }
    c.count("pairs that must be different", 4);
    c.nontrivial(vh::hashStr(k.text));
    c.sample(k.text);
}

// one weight of any kind of layer, changed in the saved file: the only difference
static void oneWeight(vh::Ctx& c)
{
    auto& r = c.rng;
    auto go = anything(r);
    const Arch a = ref::gen(r, go);
    auto net = seeded(a, r.next());
    const auto path = c.scratch() + "/w.snn";
    net->saveAs(path);
    const auto text = readFile(path);
    std::unique_ptr<SNN> x(&SNN::loadFrom(path));
    const auto before = allWeights(*x, a);
    for (int t = 0; t < 8; ++t)
    {
        const auto li = static_cast<size_t>(r.below(static_cast<int>(before.size())));
        if (before[li].empty()) continue;
        const auto& v = r.pick(before[li]);
        if (v.empty()) continue;
        const float f = r.pick(v);
        // the values written that are this weight
        vector<std::pair<size_t, size_t>> places;
        for (size_t i = 0; i < text.size();)
        {
            size_t e = text.find_first_of(" \n", i);
            if (e == std::string::npos) e = text.size();
            if (e - i > 4 && std::strtof(text.c_str() + i, nullptr) == f) places.emplace_back(i, e - i);
            i = e + 1;
        }
        if (places.empty()) { c.count("weights not found"); continue; }
        const auto place = r.pick(places);
        const float g = r.chance(0.5) ? std::nextafter(f, 10.0f) : r.uniform(-1, 1);
        char value[64];
        std::snprintf(value, sizeof value, "%.9e", static_cast<double>(g));
        writeFile(path, text.substr(0, place.first) + value + text.substr(place.first + place.second));
        std::unique_ptr<SNN> y;
        if (vh::throws([&] { y.reset(&SNN::loadFrom(path)); })) { c.count("edits not loaded"); continue; }
        const bool same = diffWeights(before, allWeights(*y, a)).empty();
        if (same) { c.count("edits without effect"); continue; }
        if (*x == *y || *y == *x || !(*x != *y) || !(*y != *x))
            c.fail("equality-different:weight", vh::str(str(a), " layer ", li, ": weight ", f, " and ", g));
        c.count("pairs that must be different");
        c.count(vh::str("weights changed in layers of type ", static_cast<int>(a.layers[li].type)));
    }
    c.nontrivial(vh::hashStr(str(a)));
    c.sample(str(a));
}

// layers without weights: only their configuration makes them different
static void pooling(vh::Ctx& c)
{
    auto& r = c.rng;
    struct P { vector<int> in; int k; };
    auto random = [&] {
        P p;
        p.in = r.chance(0.5) ? vector<int>{r.range(1, 3), r.range(1, 8)} : vector<int>{r.range(1, 3), r.range(1, 6), r.range(1, 6)};
        int m = 9;
        for (size_t d = 1; d < p.in.size(); ++d) m = std::min(m, p.in[d]);
        p.k = r.range(1, m);
        return p;
    };
    const P p = random();
    P q = random();
    if (r.chance(0.6))
    {
        q = p;
        if (r.chance(0.5)) std::swap(q.in[1], q.in.back());
        else if (p.in.size() == 2 && r.chance(0.5)) std::swap(q.in[0], q.in[1]);
        else q.k = r.range(1, 8);
    }
    const bool same = p.in == q.in && p.k == q.k;
    Arch a{p.in, {{snn::maxPooling, 0, p.k}}}, b{q.in, {{snn::maxPooling, 0, q.k}}};
    const auto seed = r.next();
    std::unique_ptr<SNN> x, y;
    if (vh::throws([&] { x = seeded(a, seed); y = seeded(b, seed); })) return;
    if ((*x == *y) != same || (*y == *x) != same || (*x != *y) == same)
        c.fail(same ? "equality-same" : "equality-different:pooling", str(a) + " and " + str(b));
    c.count(same ? "pairs that must be equal" : "pairs that must be different");
    c.nontrivial(vh::hashStr(str(a) + str(b)));
}

// only the progress of the training makes them different
static void progress(vh::Ctx& c)
{
    struct Nothing : spy::Script
    {
        int n = 1;
        vector<float> output(const vector<float>&, bool, bool) override { return vector<float>(static_cast<size_t>(n), 0.25f); }
    } script;
    auto& r = c.rng;
    const int nIn = r.range(1, 4);
    script.n = r.range(1, 3);
    const spy::Registered reg(script);
    auto x = spy::network(reg, nIn, script.n);
    SNN y(*x);
    const auto spec = gen::data(r, nIn, script.n, 6, 0);
    const int ex = r.range(0, 3), ey = r.range(0, 3);
    auto d = spec.make();
    if (ex) x->train(*d, epochs(ex), 1, 0);
    if (ey) y.train(*d, epochs(ey), 1, 0);
    if ((*x == y) != (ex == ey) || (y == *x) != (ex == ey) || (*x != y) == (ex == ey))
        c.fail(ex == ey ? "equality-same" : "equality-different:progress", vh::str(ex, " epochs and ", ey, " epochs"));
    SNN z(*x);
    z.setNumberOfTrainingsBetweenTwoEvaluations(z.getNumberOfTrainingsBetweenTwoEvaluations() + 1);
    if (z == *x || *x == z) c.fail("equality-different:progress", "number of trainings between two evaluations");
    
    const auto n = r.chance(0.5) ? r.below(1000) : gen::manyTrainings(r), m = n + r.pick(vector<long long>{1, 2, 256, 65536, 1LL << 31, 1LL << 32, 3LL << 32});
    const auto before = gen::afterTrainings(*x, n, c.scratch()), after = gen::afterTrainings(*x, m, c.scratch());
    if (before && after)
    {
        c.count("pairs of long trainings");
        if (*before == *after || *after == *before) c.fail("equality-different:progress", vh::str(n, " trainings and ", m, " trainings"));
        c.count("pairs that must be different");
    }
    c.count(ex == ey ? "pairs that must be equal" : "pairs that must be different");
    c.nontrivial(vh::hashStr(vh::str(ex, ey, spec.in.size())));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"purity", 3000, 30000, purity},
        {"copies", 2500, 25000, copies},
        {"copyBusy", 60, 600, copyBusy},
        {"persist", 2000, 20000, persist},
        {"damaged", 400, 4000, damaged},
        {"saveBusy", 60, 600, saveBusy},
        {"afterNan", 1000, 10000, afterNan},
        {"locale", 800, 8000, localeCase},
        {"valuesCopy", 800, 8000, [](vh::Ctx& c) { values(c, 0); }},
        {"valuesLoad", 800, 8000, [](vh::Ctx& c) { values(c, 1); }},
        {"valuesEqual", 500, 5000, [](vh::Ctx& c) { values(c, 2); }},
        {"histories", 1200, 12000, histories},
        {"equality", 3000, 30000, equality},
        {"oneWeight", 1500, 15000, oneWeight},
        {"pooling", 1500, 15000, pooling},
        {"progress", 400, 4000, progress},
    });
}
