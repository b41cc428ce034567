// C25: hostile values and random programs over the whole public interface, watched by the sanitizers
#define VH_MAIN
#include "gen.hpp"
#include <cstddef>
#include <new>
using namespace gen;

// Blocks of memory that are alive (each build but those of the sanitizers, which have their own operators)
#ifndef __SANITIZE_ADDRESS__
static std::atomic<long> liveBlocks{0};
static std::atomic<long> allocations{0};
static void* take(size_t n, size_t align)
{
    void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p == nullptr) throw std::bad_alloc();
    ++liveBlocks;
    ++allocations;
    return p;
}
static void giveBack(void* p) noexcept { if (p != nullptr) { --liveBlocks; std::free(p); } }
void* operator new(size_t n) { return take(n, 0); }
void* operator new[](size_t n) { return take(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void operator delete(void* p) noexcept { giveBack(p); }
void operator delete[](void* p) noexcept { giveBack(p); }
void operator delete(void* p, size_t) noexcept { giveBack(p); }
void operator delete[](void* p, size_t) noexcept { giveBack(p); }
void operator delete(void* p, std::align_val_t) noexcept { giveBack(p); }
void operator delete[](void* p, std::align_val_t) noexcept { giveBack(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { giveBack(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { giveBack(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { giveBack(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { giveBack(p); }
#endif

namespace
{
    float fromBits(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }

    float hostile(Rng& r)
    {
        static const float special[] = {0.0f, -0.0f, 1e-45f, -1e-40f, 1.17549435e-38f, 3.4028235e38f, -3.4028235e38f, 1e38f, 1.0f, -1.0f, 2147483648.0f, -2147483649.0f, 255.5f, 1e10f};
        switch (r.below(6))
        {
        case 0: return special[r.below(14)];
        case 1: return fromBits(static_cast<uint32_t>(r.next())); // NaN and infinity included
        case 2: return fromBits(0x7F800000u | (static_cast<uint32_t>(r.below(2)) << 31) | static_cast<uint32_t>(r.below(3)));
        case 3: return static_cast<float>(r.range(-3, 3));
        default: return r.uniform(-100, 100);
        }
    }

    vector<float> values(Rng& r, int n, double bad)
    {
        auto v = genInput(r, n);
        if (r.chance(bad)) for (auto& x : v) if (r.chance(0.4)) x = hostile(r);
        return v;
    }

    struct World
    {
        vh::Ctx& c;
        Rng& r;
        Arch a;
        vector<std::unique_ptr<SNN>> nets;
        vector<std::unique_ptr<Data>> sets;
        int nIn = 0, nOut = 0;
        double bad;
        std::string dir;
        std::map<std::string, long> done;
        bool damage = true;
        SNN& any() { return *nets[static_cast<size_t>(r.below(static_cast<int>(nets.size())))]; }
        Data& data() { return *sets[static_cast<size_t>(r.below(static_cast<int>(sets.size())))]; }
    };

    DataSpec hostileData(Rng& r, int nIn, int nOut, double bad)
    {
        DataSpec d = gen::data(r, nIn, nOut, 8);
        for (auto* set : {&d.in, &d.inT}) for (auto& v : *set) if (r.chance(bad)) for (auto& x : v) if (r.chance(0.3)) x = hostile(r);
        if (d.p != problem::classification) for (auto* set : {&d.out, &d.outT}) for (auto& v : *set) if (r.chance(bad * 0.7)) for (auto& x : v) if (r.chance(0.3)) x = hostile(r);
        if (r.chance(bad)) d.separator = hostile(r);
        if (r.chance(bad)) d.precision = hostile(r);
        return d;
    }

    // one random call; whatever it does, exceptions are the only way to refuse it
    void call(World& w)
    {
        auto& r = w.r;
        SNN& n = w.any();
        std::string name;
        auto run = [&](const char* what, auto&& f) {
            name = what;
            if (vh::throws(f)) name += " (refused)";
        };
        const auto wrong = [&](int size) { return r.chance(0.05) ? std::max(0, size + r.pick(vector<int>{-1, 1, -size, 5, 100})) : size; };
        const auto batch = [&] { return r.chance(0.8) ? 1 : r.pick(vector<int>{2, 3, 8, 0, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}); };
        switch (r.below(26))
        {
        case 0: case 1: run("computeOutput", [&] { n.computeOutput(values(r, wrong(w.nIn), w.bad), r.chance(0.5)); }); break;
        case 2: run("computeCluster", [&] { n.computeCluster(values(r, wrong(w.nIn), w.bad), r.chance(0.5)); }); break;
        case 3: case 4: run("trainOnce", [&] { n.trainOnce(values(r, wrong(w.nIn), w.bad), values(r, wrong(w.nOut), w.bad), r.chance(0.5)); }); break;
        case 5: case 6: run("train", [&] { n.train(w.data(), epochs(r.range(0, 2)), batch(), r.range(-1, 3)); }); break;
        case 7: run("train", [&] { n.train(w.data(), epochs(r.range(1, 2)) || snn::operator""_acc(0.3L) || snn::operator""_mae(0.2L) || snn::operator""_ms(static_cast<unsigned long long>(r.below(4))), batch(), r.range(1, 3)); }); break;
        case 8:
            run("startTrainingAsync", [&] {
                Data& d = w.data();
                if (n.autoSaveFilePath.find("none") != std::string::npos) n.autoSaveWhenBetter = false; // an exception in the training thread ends the process
                n.startTrainingAsync(d, batch(), r.range(0, 2));
                for (int k = r.below(4); k > 0; --k)
                {
                    if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
                    (void)n.getCurrentEpoch(); (void)n.getCurrentIndex(); (void)n.isTraining(); (void)n.getGlobalClusteringRate(); (void)n.getF1Score(); (void)n.getRootMeanSquaredError();
                    if (r.chance(0.2)) vh::throws([&] { n.saveAs(w.dir + "/busy"); });
                    if (r.chance(0.2)) vh::throws([&] { SNN copy(n); });
                    if (r.chance(0.2)) vh::throws([&] { n.train(d, epochs(1)); });
                    if (r.chance(0.2)) vh::throws([&] { n.startTrainingAsync(d, batch(), 1); });
                    if (r.chance(0.2)) n.waitFor(snn::operator""_ms(2ull));
                    if (r.chance(0.2)) n.setNumberOfTrainingsBetweenTwoEvaluations(r.chance(0.5) ? r.range(-2, 30) : r.pick(vector<int>{100000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}));
                }
                if (r.chance(0.5)) n.stopTrainingAsync();
                else if (w.nets.size() > 1)
                {
                    for (auto& x : w.nets) if (x.get() == &n) { std::swap(x, w.nets.back()); w.nets.pop_back(); break; } // destroyed while training
                }
                else n.stopTrainingAsync();
            });
            break;
        case 9: run("evaluate", [&] { n.evaluate(w.data()); }); break;
        case 10: run("copy", [&] { w.nets.push_back(std::make_unique<SNN>(n)); }); break;
        case 11: run("saveAs", [&] { n.saveAs(w.dir + (r.chance(0.9) ? "/n.snn" : "/none/n.snn")); }); break;
        case 12:
            run("loadFrom", [&] {
                const auto path = w.dir + "/n.snn";
                n.saveAs(path);
                if (w.damage && r.chance(0.3)) std::filesystem::resize_file(path, static_cast<uintmax_t>(r.below(static_cast<int>(std::filesystem::file_size(path)))));
                w.nets.emplace_back(&SNN::loadFrom(r.chance(0.95) ? path : w.dir + "/nothing"));
            });
            break;
        case 13: run("summary", [&] { (void)n.summary(); }); break;
        case 14: run("compare", [&] { (void)(n == w.any()); (void)(n != w.any()); }); break;
        case 15: run("saveFeatureMapsAsBitmap", [&] { n.saveFeatureMapsAsBitmap(w.dir + "/m"); }); break;
        case 16: run("saveData2DAsBitmap", [&] { Data& d = w.data(); n.saveData2DAsBitmap(w.dir + "/d", d, r.below(d.sets[snn::testing].size)); }); break;
        case 17: run("saveFilterLayersAsBitmap", [&] { Data& d = w.data(); n.saveFilterLayersAsBitmap(w.dir + "/f", d, r.below(d.sets[snn::testing].size)); }); break;
        case 18: run("normalize", [&] { w.data().normalize(r.chance(0.7) ? r.uniform(-2, 2) : hostile(r), r.chance(0.7) ? r.uniform(-2, 2) : hostile(r)); }); break;
        case 19: run("shuffle", [&] { Data& d = w.data(); r.chance(0.7) ? d.shuffle() : d.unshuffle(); }); break;
        case 20: run("autoSave", [&] { n.autoSaveWhenBetter = r.chance(0.7); n.autoSaveFilePath = w.dir + (r.chance(0.9) ? "/auto.snn" : "/none/auto.snn"); }); break;
        case 21: run("new data", [&] { w.sets.push_back(hostileData(r, w.nIn, r.chance(0.95) ? w.nOut : w.nOut + 1, w.bad).make()); if (w.sets.size() > 4) w.sets.erase(w.sets.begin()); }); break;
        case 22:
            run("data access", [&] {
                Data& d = w.data();
                const int i = r.below(d.sets[snn::training].size), t = r.below(d.sets[snn::testing].size);
                const int b = r.range(1, d.sets[snn::training].size - i);
                (void)d.getTrainingData(i, b); (void)d.getTrainingOutputs(i, b); (void)d.getTestingData(t);
                (void)d.isFirstTrainingDataOfTemporalSequence(i); (void)d.needToLearnOnTrainingData(i); (void)d.isFirstTestingDataOfTemporalSequence(t); (void)d.needToEvaluateOnTestingData(t);
                vh::throws([&] { (void)d.getTrainingLabel(i); });
                vh::throws([&] { (void)d.getTestingLabel(t); });
                vh::throws([&] { (void)d.getTestingOutputs(t); });
                vh::throws([&] { d.setSeparator(hostile(r)); });
                vh::throws([&] { d.setPrecision(hostile(r)); });
            });
            break;
        case 23: run("getters", [&] { (void)spy::Scores::of(n); (void)spy::Scores::best(n); (void)counters(n); n.setNumberOfTrainingsBetweenTwoEvaluations(r.range(-1, 5)); }); break;
        case 24:
            run("set weights", [&] {
                const size_t l = static_cast<size_t>(r.below(static_cast<int>(w.a.layers.size())));
                auto ws = layerWeights(*n.layers[l], w.a.layers[l].type);
                for (auto& x : ws) for (auto& f : x) if (r.chance(w.bad * 0.1)) f = hostile(r);
                setLayerWeights(*n.layers[l], w.a.layers[l].type, ws);
            });
            break;
        default: run("isValid", [&] { (void)n.isValid(); });
        }
        while (w.nets.size() > 4) w.nets.erase(w.nets.begin() + r.below(static_cast<int>(w.nets.size())));
        ++w.done[name];
    }
}

// a random program
static void program(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.6);
    go.dropout = true;
    World w{c, r, ref::gen(r, go), {}, {}, 0, 0, r.pick(vector<double>{0.0, 0.1, 0.6}), c.scratch(), {}};
    if (r.chance(0.15)) // hostile layer optimizers
        for (auto& l : w.a.layers) for (auto& o : l.opts) if (r.chance(0.5)) o.value = hostile(r);
    std::string text = str(w.a);
    c.sample(text);
    if (vh::throws([&] { w.nets.push_back(build(w.a)); })) { c.count("refused architectures"); return; }
    w.nIn = w.nets[0]->getNumberOfInputs();
    w.nOut = w.nets[0]->getNumberOfOutputs();
    for (int i = r.range(1, 3); i > 0; --i) w.sets.push_back(hostileData(r, w.nIn, w.nOut, w.bad).make());
    long calls = 0;
    for (int k = r.range(4, 30); k > 0; --k, ++calls) call(w);
    for (auto& [name, n] : w.done) { c.count("call: " + name, n); text += name; }
    c.count("calls", calls);
    c.nontrivial(vh::hashStr(text));
}

// data of any shape, and everything that can be asked to them
static void anyData(vh::Ctx& c)
{
    auto& r = c.rng;
    vector<vector<vector<float>>> in3, inT3;
    vector<vector<float>> in, inT, out, outT;
    const int nIn = r.range(0, 3), nOut = r.range(0, 3);
    auto rows = [&](vector<vector<float>>& v, int size, int n) { for (int i = 0; i < n; ++i) v.push_back(values(r, r.chance(0.97) ? size : r.below(5), 0.3)); };
    const int n = r.below(9), t = r.below(9);
    rows(in, nIn, n); rows(inT, nIn, t); rows(out, nOut, r.chance(0.9) ? n : r.below(9)); rows(outT, nOut, r.chance(0.9) ? t : r.below(9));
    const auto p = static_cast<problem>(r.below(3));
    if (p == problem::classification && r.chance(0.8)) for (auto* s : {&out, &outT}) for (auto& v : *s) if (!v.empty()) v[static_cast<size_t>(r.below(static_cast<int>(v.size())))] = 1;
    auto cut = [&](const vector<vector<float>>& v, vector<vector<vector<float>>>& s) {
        for (auto& x : v) { if (s.empty() || r.chance(0.4)) s.emplace_back(); if (r.chance(0.03)) s.emplace_back(); s.back().push_back(x); }
    };
    cut(in, in3); cut(inT, inT3);
    const auto nat = static_cast<nature>(r.below(3));
    const int rec = r.range(-1, 5);
    std::unique_ptr<Data> d;
    const bool thrown = vh::throws([&] {
        switch (r.below(4))
        {
        case 0: d = std::make_unique<Data>(p, in, out, inT, outT, nat, rec); break;
        case 1: d = std::make_unique<Data>(p, in, out, nat, rec); break;
        case 2: d = std::make_unique<Data>(p, in3, out, inT3, outT, nature::sequential, rec); break;
        default: d = std::make_unique<Data>(p, in3, out, nature::sequential, rec);
        }
    });
    c.count(thrown ? "data refused" : "data built");
    c.nontrivial(vh::mix(static_cast<vh::u64>(c.index)));
    if (thrown) return;
    std::unique_ptr<SNN> net;
    if (d->sizeOfData > 0 && d->numberOfLabels > 0)
    {
        Arch a;
        a.in = {d->sizeOfData};
        a.layers = {L{r.pick(vector<layerType>{snn::fullyConnected, snn::recurrence, snn::gruLayer}), d->numberOfLabels, 0, activation::sigmoid}};
        net = build(a);
    }
    for (int k = r.range(1, 6); k > 0; --k)
    {
        for (int i = 0; i < d->sets[snn::training].size; ++i)
        {
            (void)d->getTrainingData(i); (void)d->isFirstTrainingDataOfTemporalSequence(i); (void)d->needToLearnOnTrainingData(i);
            vh::throws([&] { (void)d->getTrainingLabel(i); });
            (void)d->getTrainingOutputs(i, r.range(1, d->sets[snn::training].size - i));
            (void)d->getTrainingData(i, r.range(1, d->sets[snn::training].size - i));
        }
        for (int i = 0; i < d->sets[snn::testing].size; ++i)
        {
            (void)d->getTestingData(i); (void)d->isFirstTestingDataOfTemporalSequence(i); (void)d->needToEvaluateOnTestingData(i);
            vh::throws([&] { (void)d->getTestingLabel(i); });
            vh::throws([&] { (void)d->getTestingOutputs(i); });
        }
        switch (r.below(6))
        {
        case 0: d->shuffle(); break;
        case 1: d->unshuffle(); break;
        case 2: vh::throws([&] { d->normalize(r.uniform(-1, 0), r.uniform(0, 1)); }); break;
        case 3: if (net) vh::throws([&] { net->train(*d, epochs(r.range(1, 7)), r.chance(0.7) ? 1 : r.range(1, 9), r.below(3)); }); break;
        case 4: if (net) vh::throws([&] { net->evaluate(*d); }); break;
        default: (void)d->isValid();
        }
    }
}

#ifndef __SANITIZE_ADDRESS__
// Runs something again and again: memory that it keeps each time is leaked.
template<class F> static void noLeak(vh::Ctx& c, const std::string& what, const bool& isK5, F&& f)
{
    f(); // registers types, creates threads...
    long kept[3], took = allocations;
    for (auto& k : kept)
    {
        const long before = liveBlocks;
        f();
        k = liveBlocks - before;
    }
    c.count("allocations observed", allocations - took);
    c.count("lives without leak compared", 3);
    if (kept[0] > 0 && kept[1] > 0 && kept[2] > 0)
    {
        if (isK5)
        {
            c.known("K5", what);
            return;
        }
        c.fail("leak", what + " keeps " + std::to_string(kept[0]) + ", " + std::to_string(kept[1]) + ", " + std::to_string(kept[2]) + " blocks of memory each time");
    }
}

// a random program, done again and again with everything destroyed at its end
static void leakProgram(vh::Ctx& c)
{
    const auto seed = c.rng.next();
    const auto dir = c.scratch();
    std::string text;
    std::map<std::string, long> done;
    auto life = [&] {
        Rng r(seed);
        GenOptions go;
        go.opts = r.chance(0.6);
        go.dropout = true;
        World w{c, r, ref::gen(r, go), {}, {}, 0, 0, 0.0, dir, {}, false};
        vh::throws([&] { w.nets.push_back(build(w.a)); });
        if (w.nets.empty()) return;
        w.nIn = w.nets[0]->getNumberOfInputs();
        w.nOut = w.nets[0]->getNumberOfOutputs();
        for (int i = r.range(1, 3); i > 0; --i) w.sets.push_back(hostileData(r, w.nIn, w.nOut, w.bad).make());
        for (int k = r.range(2, 12); k > 0; --k) call(w);
        text = str(w.a);
        done = w.done;
    };
    noLeak(c, "a program", false, life);
    for (auto& [name, n] : done) { c.count("call: " + name, n); text += name; }
    c.nontrivial(vh::hashStr(text));
}

// refused architectures, refused data and damaged files keep nothing
static void leakRefused(vh::Ctx& c)
{
    const auto seed = c.rng.next();
    const int kind = c.rng.below(4);
    bool isK5 = false;
    const auto dir = c.scratch();
    std::string text = std::to_string(kind);
    long refused = 0;
    noLeak(c, kind == 0 ? "a refused architecture" : kind == 1 ? "refused data" : kind == 2 ? "loading a damaged file" : "loading a file that is not a network", isK5, [&] {
        Rng r(seed);
        if (kind == 0)
        {
            GenOptions go;
            go.opts = true;
            Arch a = ref::gen(r, go);
            auto& l = a.layers[static_cast<size_t>(r.below(static_cast<int>(a.layers.size())))];
            switch (r.below(4))
            {
            case 0: l.n = r.range(-3, 0); break;
            case 1: l.k = 1000; break;
            case 2: a.in.push_back(0); break;
            default: l.opts.push_back({}); l.opts.back().value = -1.0f;
            }
            if (vh::throws([&] { build(a); })) ++refused;
            text = str(a);
        }
        else if (kind == 1)
        {
            DataSpec d = gen::data(r, r.range(1, 4), r.range(1, 4), 8);
            d.in[static_cast<size_t>(r.below(static_cast<int>(d.in.size())))].push_back(1);
            if (vh::throws([&] { d.make(); })) ++refused;
        }
        else if (kind == 3)
        {
            const auto path = dir + "/foreign";
            std::ofstream(path) << (r.chance(0.3) ? "" : r.chance(0.5) ? "22 serialization::arch" : "a file that holds something else " + std::to_string(r.next()));
            if (vh::throws([&] { SNN::loadFrom(r.chance(0.3) ? dir + "/nothing" : path); })) ++refused;
        }
        else
        {
            GenOptions go;
            go.opts = true;
            const Arch a = ref::gen(r, go);
            const auto path = dir + "/damaged";
            { auto n = build(a); n->saveAs(path); }
            const auto size = static_cast<int>(std::filesystem::file_size(path));
            std::filesystem::resize_file(path, static_cast<uintmax_t>(r.below(std::max(1, size - 60))));
            std::unique_ptr<SNN> n;
            if (vh::throws([&] { n.reset(&SNN::loadFrom(path)); }))
            {
                ++refused;
                isK5 = std::filesystem::file_size(path) >= 22; // cut after the header of the archive
            }
            text = str(a) + std::to_string(std::filesystem::file_size(path));
        }
    });
    c.count("refusals without leak compared", refused);
    c.nontrivial(vh::hashStr(text) ^ vh::mix(seed));
}
#else
static void leakProgram(vh::Ctx&) {}
static void leakRefused(vh::Ctx&) {}
#endif

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"program", 6000, 60000, program},
        {"anyData", 6000, 60000, anyData},
        {"leakProgram", 1500, 15000, leakProgram},
        {"leakRefused", 3000, 30000, leakRefused},
    });
}
