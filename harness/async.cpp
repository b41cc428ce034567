// C13: an asynchronous training can be observed, stopped and restarted at any time
#define VH_MAIN
#include "gen.hpp"
#include <chrono>
using namespace gen;
namespace fs = std::filesystem;

namespace
{
    using Clock = std::chrono::steady_clock;
    constexpr long STOP_BOUND = 16; // training steps that may still start while a stop is requested

    // the engine under the network: says what is executed and when it must not be
    struct Engine : spy::Script
    {
        vh::Ctx* c = nullptr;
        std::string what;
        std::mutex m;
        std::atomic<int> inside{0};
        std::atomic<long> steps{0}, learned{0}, outputs{0}, saves{0};
        std::atomic<bool> forbidden{false}, stopping{false}, slowSave{false}, inSave{false};
        std::atomic<long> stepsAtStop{0}, outputsAtStop{0};
        std::atomic<int> delay{0};        // 0 none, 1 yields, 2 short sleeps, 3 longer ones
        std::atomic<long> throwAt{-1};    // number of outputs before an exception
        std::atomic<long> nanAt{-1};
        std::atomic<int> dataSet{-1};     // the only one that may be trained
        std::atomic<int> answer{0};       // in tests: the accuracy
        Rng rng{1};

        void pause(double p)
        {
            const int d = delay;
            if (d == 0) return;
            double u;
            { std::lock_guard l(m); u = rng.unit(); if (rng.unit() > p) return; }
            if (d == 1) std::this_thread::yield();
            else usleep(static_cast<useconds_t>(u * (d == 2 ? 60 : 600)));
        }
        struct Inside
        {
            Engine& e;
            explicit Inside(Engine& e, const char* where) : e(e)
            {
                if (++e.inside != 1) e.c->fail("concurrent-training", vh::str(e.what, ": two executions at the same time in ", where));
                if (e.forbidden) e.c->fail("step-after-stop", vh::str(e.what, ": ", where, " executed although no training is running"));
            }
            ~Inside() { --e.inside; }
        };
        vector<float> output(const vector<float>&, bool, bool training) override
        {
            Inside i(*this, training ? "a training step" : "an evaluation");
            ++outputs;
            if (training) ++steps;
            pause(0.7);
            if (throwAt >= 0 && throwAt-- == 0) throw std::runtime_error("scripted exception");
            if (nanAt >= 0 && nanAt-- == 0) return {std::numeric_limits<float>::quiet_NaN()};
            if (!training)
                return {answer.load() ? 1.0f : 50.0f};
            return {0.0f};
        }
        void train(const vector<float>& e) override
        {
            Inside i(*this, "a weight update");
            ++learned;
            const int d = dataSet;
            if (!e.empty() && d >= 0 && (e[0] > 0 ? 1 : 0) != d)
                c->fail("wrong-training", vh::str(what, ": a step with the data of the training that was replaced"));
            pause(0.3);
        }
        void saving() override
        {
            ++saves;
            inSave = true;
            if (slowSave) usleep(1500);
            inSave = false;
        }
    };

    bool until(const std::function<bool()>& f, int ms = 20000)
    {
        const auto end = Clock::now() + std::chrono::milliseconds(ms);
        while (!f())
        {
            if (Clock::now() > end) return false;
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
        return true;
    }

    struct Stage
    {
        vh::Ctx& c;
        Rng& r;
        Engine e;
        spy::Registered reg{e};
        DataSpec spec[2];
        std::unique_ptr<Data> data[2];
        std::unique_ptr<SNN> net;
        std::string& what;
        explicit Stage(vh::Ctx& c) : c(c), r(c.rng), what(e.what)
        {
            e.c = &c;
            e.rng = Rng(r.next());
            for (int k = 0; k < 2; ++k)
            {
                auto& s = spec[k];
                s.p = problem::regression;
                s.precision = 10;
                s.nIn = s.nOut = 1;
                s.n = static_cast<nature>(r.pick(vector<int>{0, 0, 0, 1, 2}));
                const int n = r.chance(0.3) ? r.range(100, 300) : r.range(2, 20), t = r.range(2, 4);
                for (int i = 0; i < n; ++i) { s.in.push_back({0.5f}); s.out.push_back({k ? 1.0f : -1.0f}); }
                for (int i = 0; i < t; ++i) { s.inT.push_back({0.5f}); s.outT.push_back({1.0f}); }
                if (s.n == nature::sequential)
                {
                    s.lengths = {n / 2, n - n / 2};
                    s.lengthsT = {1, t - 1};
                }
                if (s.n == nature::timeSeries) s.recurrences = 1;
                data[k] = s.make();
            }
            fresh();
        }
        void fresh() { net = spy::network(reg, 1, 1); }
        int batch(int k) { return spec[k].n == nature::nonTemporal && r.chance(0.3) ? r.range(1, 4) > static_cast<int>(spec[k].in.size()) ? 1 : r.range(1, std::min(4, static_cast<int>(spec[k].in.size()))) : 1; }
        void stopRequested() { e.stepsAtStop = e.steps.load(); e.outputsAtStop = e.outputs.load(); e.stopping = true; }
        void stopDone(const char* op)
        {
            e.forbidden = true;
            e.stopping = false;
            const long n = e.steps - e.stepsAtStop;
            const long all = e.outputs - e.outputsAtStop - n;
            c.count("stops observed");
            lastLate = n > STOP_BOUND ? n : all > 40 ? all : 0;
            if (lastLate) suspects = vh::str(what, ": ", n, " training steps and ", all, " evaluations of data were started after ", op);
            if (e.inside != 0) c.fail("step-after-stop", vh::str(what, ": still executing after ", op));
        }
        // This thread may have been suspended between the snapshot of the counters and the request, so one late stop
        // says nothing: a stop is late when it is so again, most of the times, with slow steps.
        void confirmLate()
        {
            if (suspects.empty() || c.failed()) return;
            const auto first = suspects;
            c.count("late stops tried again");
            for (int k = 0; k < 2 && !c.failed(); ++k)
                for (int freq = 0; freq < 3 && !c.failed(); ++freq)
                    for (int op = 0; op < 2 && !c.failed(); ++op)
                    {
                        int late = 0;
                        for (int i = 0; i < 7 && !c.failed(); ++i)
                        {
                            e.delay = 3;
                            if (!net) fresh();
                            net->autoSaveWhenBetter = false;
                            start(k, freq);
                            if (!progress()) break;
                            stopRequested();
                            if (op == 0) net->stopTrainingAsync();
                            else net.reset();
                            stopDone("a stop");
                            if (lastLate) ++late;
                            e.dataSet = -1;
                        }
                        if (late > 3) c.fail("stop-late", vh::str(first, "; and again ", late, " times of 7"));
                    }
        }
        std::string suspects;
        long lastLate = 0;
        // nothing is executed any more
        void quiet()
        {
            const long n = e.outputs, l = e.learned;
            if (r.chance(0.3)) usleep(static_cast<useconds_t>(r.below(1500)));
            if (n != e.outputs || l != e.learned) c.fail("step-after-stop", what + ": the training goes on");
        }
        void start(int k, int freq)
        {
            const int b = batch(k);
            e.forbidden = false;
            if (r.chance(0.5)) e.dataSet = -1; // from here until start returns, both may be seen
            e.dataSet = -1;
            net->startTrainingAsync(*data[k], b, freq);
            e.dataSet = k;
            if (!net->isTraining()) c.fail("start-state", what + ": the network does not report that it is training");
        }
        void stop()
        {
            stopRequested();
            net->stopTrainingAsync();
            stopDone("a stop");
            e.dataSet = -1;
            if (net->isTraining()) c.fail("stop-state", what + ": the network still reports that it is training");
        }
        bool progress()
        {
            const long n = e.steps;
            if (until([&] { return e.steps > n; })) return true;
            c.fail("training-stalled", vh::str(what, ": no step in 20 s although the network is training (", net->isTraining(), ")"));
            return false;
        }
        // a synchronous training executes what it must
        void useful()
        {
            e.forbidden = false;
            const int k = r.below(2), b = batch(k);
            const long before = e.steps, learned = e.learned;
            const auto count = net->getNumberOfTraining();
            net->train(*data[k], epochs(2), b, 0);
            long per = static_cast<long>(spec[k].in.size()) / b;
            if (e.steps - before != 2 * per) c.fail("training-after-stop", vh::str(what, ": ", e.steps - before, " steps in two epochs of ", per));
            if (net->getNumberOfTraining() - count != e.learned - learned) c.fail("training-counter", vh::str(what, ": ", net->getNumberOfTraining() - count, " trainings reported for ", e.learned - learned));
            if (net->isTraining()) c.fail("stop-state", what + ": still training after a synchronous training");
            e.forbidden = true;
        }
        // everything that is rejected while a training is running; the training goes on
        void rejected()
        {
            const auto f = c.scratch() + "/rejected";
            switch (r.below(5))
            {
            case 0:
                what += "; train";
                if (!vh::throws([&] { net->train(*data[r.below(2)], epochs(1), 1, 0); })) c.fail("rejection", what + " is not rejected while training");
                break;
            case 1:
                what += "; saveAs";
                if (!vh::throws([&] { net->saveAs(f); })) c.fail("rejection", what + " is not rejected while training");
                if (fs::exists(f)) c.fail("rejection", what + " writes the file while training");
                break;
            case 2:
            {
                what += "; copy";
                if (!vh::throws([&] { const SNN copy(*net); })) c.fail("rejection", what + " is not rejected while training");
                break;
            }
            case 3:
                what += "; export";
                if (!vh::throws([&] { net->saveFeatureMapsAsBitmap(f); })) c.fail("rejection", what + " is not rejected while training");
                break;
            default:
            {
                what += "; start with wrong data";
                if (!vh::throws([&] { net->startTrainingAsync(*data[0], -1, 1); })) c.fail("rejection", what + " is not rejected");
                return; // whether the running training stops is not said
            }
            }
            c.count("rejections observed");
            if (!net->isTraining()) { c.fail("rejection", what + ": the training is not reported any more"); return; }
            progress();
        }
        void observe()
        {
            const int n = net->getCurrentIndex(), ep = net->getCurrentEpoch();
            if (n < 0 || n > 400 || ep < 0) c.fail("progress", vh::str(what, ": index ", n, " epoch ", ep));
            if (net->getNumberOfTraining() > e.learned + 1) c.fail("training-counter", vh::str(what, ": ", net->getNumberOfTraining(), " trainings reported of ", e.learned));
            if (net->hasNan()) c.fail("progress", what + ": NaN reported");
            c.count("observations");
        }
        void finish()
        {
            confirmLate();
            if (c.failed()) return;
            c.nontrivial(vh::hashStr(what + std::to_string(e.steps)));
            c.sample(what);
        }
    };
}

// random operations on one network, in one thread
static void operations(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    bool running = false;
    for (int i = r.range(4, 12); i > 0 && !c.failed(); --i)
    {
        s.e.delay = r.below(4);
        if (!running)
        {
            switch (r.below(8))
            {
            default:
                s.what += "; start";
                s.start(r.below(2), r.below(3));
                running = true;
                break;
            case 4:
                s.what += "; stop when idle";
                s.stop();
                break;
            case 5:
                s.what += "; train";
                s.useful();
                break;
            case 6:
            {
                s.what += "; save and load";
                const auto f = c.scratch() + "/net.snn";
                s.net->saveAs(f);
                std::unique_ptr<SNN> l(&SNN::loadFrom(f));
                if (l->isTraining()) c.fail("load-state", s.what + ": the loaded network is training");
                if (r.chance(0.5)) s.net = std::move(l);
                break;
            }
            case 7:
                s.what += "; copy";
                s.net = std::make_unique<SNN>(*s.net);
                if (s.net->isTraining()) c.fail("copy-state", s.what + ": the copy is training");
                break;
            }
            continue;
        }
        // wait a little, or not at all
        if (r.chance(0.5))
        {
            switch (r.below(4))
            {
            case 0: s.progress(); break;
            case 1: usleep(static_cast<useconds_t>(r.below(3000))); break;
            case 2: s.net->waitFor(epochs(r.range(1, 2))); break;
            default: std::this_thread::yield();
            }
        }
        switch (r.below(8))
        {
        case 0:
        case 1:
            s.what += "; stop";
            s.stop();
            s.quiet();
            running = false;
            break;
        case 2:
            s.what += "; start again";
            s.stopRequested();
            s.start(r.below(2), r.below(3));
            c.count("restarts observed");
            break;
        case 3:
            s.what += "; destroy";
            s.stopRequested();
            s.net.reset();
            s.stopDone("the destruction");
            s.quiet();
            s.e.dataSet = -1;
            s.fresh();
            running = false;
            c.count("destructions observed");
            break;
        case 4:
        case 5:
            s.rejected();
            if (!s.net->isTraining()) { s.stop(); running = false; }
            break;
        case 6:
            s.what += "; stop twice";
            s.stop();
            s.net->stopTrainingAsync();
            s.quiet();
            running = false;
            break;
        default:
            s.observe();
        }
    }
    s.e.delay = 0;
    s.what += "; end";
    if (running && !c.failed())
    {
        s.stopRequested();
        s.net.reset();
        s.stopDone("the destruction");
        s.quiet();
    }
    else if (!c.failed())
        s.useful();
    s.finish();
}

// stops during an auto save, an evaluation, the first instants
static void moments(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    s.net->autoSaveFilePath = c.scratch() + "/auto.snn";
    for (int i = r.range(2, 5); i > 0 && !c.failed(); --i)
    {
        s.e.delay = r.below(3);
        const int kind = r.below(3);
        if (kind == 0)
        {
            s.what += "; stop during an auto save";
            s.fresh();
            s.net->autoSaveFilePath = c.scratch() + "/auto.snn";
            s.net->autoSaveWhenBetter = true;
            s.e.slowSave = true;
            s.e.answer = 1;
            const long n = s.e.saves;
            s.start(r.below(2), 1);
            if (!until([&] { return s.e.inSave.load() || s.e.saves > n; })) c.fail("training-stalled", s.what + ": no auto save");
            if (s.e.inSave) c.count("stops during an auto save");
            s.stop();
            s.quiet();
            s.e.slowSave = false;
            s.net->autoSaveWhenBetter = false;
            std::unique_ptr<SNN> l(&SNN::loadFrom(c.scratch() + "/auto.snn"));
            if (l->isTraining()) c.fail("load-state", s.what + ": the auto save is of a network that is training");
        }
        else if (kind == 1)
        {
            s.what += "; stop at once";
            s.start(r.below(2), r.below(2));
            s.stop();
            s.quiet();
            c.count("stops at once");
        }
        else
        {
            s.what += "; stop during the first evaluation";
            s.e.delay = 3;
            const long n = s.e.outputs;
            s.start(r.below(2), 1);
            until([&] { return s.e.outputs > n; });
            s.stop();
            s.quiet();
        }
        if (r.chance(0.5)) { s.e.delay = 0; s.useful(); }
    }
    s.finish();
}

// a training that ends by itself, by a NaN
static void ended(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    s.e.delay = r.below(3);
    s.e.nanAt = r.range(0, 60);
    s.what = vh::str("NaN at ", s.e.nanAt.load());
    s.e.forbidden = false;
    s.net->startTrainingAsync(*s.data[0], s.batch(0), r.below(3));
    if (!until([&] { return !s.net->isTraining(); })) c.fail("end-state", s.what + ": the network reports that it is training 20 s after a NaN");
    if (!s.net->hasNan()) c.fail("end-state", s.what + ": no NaN reported");
    s.e.forbidden = true;
    s.quiet();
    s.net->waitFor(epochs(1000000)); // returns at once
    s.e.forbidden = false;
    const int next = r.below(8); // what follows a training that nobody has stopped
    if (next < 4)
    {
        if (next == 0) s.what += "; destroyed";
        if (next == 1)
        {
            s.what += "; saved, loaded and destroyed";
            s.net->saveAs(c.scratch() + "/ended.snn");
            std::unique_ptr<SNN> l(&SNN::loadFrom(c.scratch() + "/ended.snn"));
            if (!l->hasNan() || l->isTraining()) c.fail("end-state", s.what + ": the loaded network is training or forgets the NaN");
        }
        if (next == 2)
        {
            s.what += "; copied and destroyed";
            const SNN copy(*s.net);
            if (!copy.hasNan() || copy.isTraining()) c.fail("end-state", s.what + ": the copy is training or forgets the NaN");
        }
        if (next == 3)
        {
            s.what += "; trained and destroyed";
            const long l = s.e.learned;
            s.net->train(*s.data[1], epochs(1), 1, 0);
            if (s.e.learned != l) c.fail("end-state", s.what + ": a step learned although a NaN was reported");
        }
        s.net.reset();
        s.e.forbidden = true;
        s.quiet();
        s.e.forbidden = false;
        s.fresh();
        s.useful();
        c.count("trainings ended by themselves, then destroyed");
        s.finish();
        return;
    }
    if (r.chance(0.5)) s.net->stopTrainingAsync();
    if (s.net->isTraining()) c.fail("end-state", s.what + ": training after a stop");
    // usable in the same way again: it ends at once
    const long l = s.e.learned;
    s.net->startTrainingAsync(*s.data[1], 1, r.below(2));
    if (!until([&] { return !s.net->isTraining(); })) c.fail("end-state", s.what + ": a second training does not end");
    s.net->stopTrainingAsync();
    s.net->train(*s.data[1], epochs(1), 1, 0);
    if (s.e.learned != l) c.fail("end-state", s.what + ": a step learned although a NaN was reported");
    if (s.net->isTraining()) c.fail("end-state", s.what + ": training at the end");
    SNN copy(*s.net);
    if (!copy.hasNan()) c.fail("end-state", s.what + ": the copy forgets the NaN");
    c.count("trainings ended by themselves");
    s.finish();
}

// an exception in a synchronous training leaves the network idle and usable
static void exceptions(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    for (int i = r.range(1, 3); i > 0 && !c.failed(); --i)
    {
        s.fresh();
        s.e.forbidden = false;
        const bool save = r.chance(0.4);
        if (save)
        {
            s.what += "; auto save that cannot be written";
            s.net->autoSaveWhenBetter = true;
            s.net->autoSaveFilePath = c.scratch() + "/no/such/directory/net.snn";
            s.e.answer = 1;
        }
        else
        {
            s.e.throwAt = r.range(0, 8);
            s.what += vh::str("; exception at ", s.e.throwAt.load());
        }
        const int k = r.below(2);
        std::string text;
        if (!vh::throws([&] { s.net->train(*s.data[k], epochs(100), s.batch(k), 1); }, &text)) c.fail("exception-lost", s.what + ": no exception");
        else if (!save && text != "scripted exception") c.fail("exception-lost", s.what + ": another exception, " + text);
        s.e.throwAt = -1;
        if (s.net->isTraining()) c.fail("exception-state", s.what + ": the network still reports that it is training");
        s.e.forbidden = true;
        s.quiet();
        s.net->autoSaveWhenBetter = false;
        if (c.failed()) break;
        SNN copy(*s.net);
        s.net->saveAs(c.scratch() + "/net.snn");
        s.useful();
        s.start(k, 1);
        if (s.progress()) s.stop();
        c.count("exceptions observed");
    }
    s.finish();
}

// a synchronous training in another thread
static void elsewhere(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    s.e.delay = r.range(0, 2);
    const int k = r.below(2), b = s.batch(k), freq = r.below(3);
    s.what = "synchronous training in another thread";
    std::string text;
    std::thread t([&] {
        vh::seedThread(5);
        if (vh::throws([&] { s.net->train(*s.data[k], epochs(100000000), b, freq); }, &text)) c.fail("unexpected-exception", s.what + ": " + text);
    });
    until([&] { return s.e.steps > 0; });
    if (!s.net->isTraining()) c.fail("start-state", s.what + ": the network does not report that it is training");
    for (int i = r.range(0, 2); i > 0; --i)
    {
        if (r.chance(0.5)) s.observe();
        const int q = r.below(3);
        if (q == 0 && !vh::throws([&] { s.net->train(*s.data[k], epochs(1), 1, 0); })) c.fail("rejection", s.what + ": train is not rejected while training");
        if (q == 1 && !vh::throws([&] { s.net->saveAs(c.scratch() + "/x"); })) c.fail("rejection", s.what + ": saveAs is not rejected while training");
        if (q == 2 && !vh::throws([&] { const SNN copy(*s.net); })) c.fail("rejection", s.what + ": copy is not rejected while training");
        if (!s.net->isTraining()) c.fail("rejection", s.what + ": not training any more after a rejection");
        if (!s.progress()) break;
    }
    s.stopRequested();
    s.net->stopTrainingAsync();
    if (!until([&] { return !s.net->isTraining(); }, 30000)) c.fail("stop-late", s.what + ": still training 30 s after the stop");
    t.join();
    s.stopDone("a stop");
    if (s.net->isTraining()) c.fail("stop-state", s.what + ": training");
    s.e.delay = 0;
    s.useful();
    c.count("trainings in another thread");
    s.finish();
}

// threads that wait for criteria that are never met return when the training ends, and not before
static void waits(vh::Ctx& c)
{
    Stage s(c);
    auto& r = s.r;
    int stuck = 0;
    for (int attempt = 0; attempt < 3 && !c.failed(); ++attempt)
    {
        s.e.delay = r.range(0, 3);
        const bool sync = r.chance(0.3);
        const int k = r.below(2), freq = r.below(3), waiters = r.range(1, 3), b = s.batch(k);
        s.what = vh::str("; ", sync ? "training in another thread" : "asynchronous training", ", ", waiters, " waiting");
        s.e.forbidden = false;
        std::thread trainer;
        if (sync)
        {
            trainer = std::thread([&] { vh::seedThread(5); s.net->train(*s.data[k], epochs(100000000), b, freq); });
            until([&] { return s.net->isTraining(); });
        }
        else s.start(k, freq);
        std::atomic<int> waiting{0}, returned{0};
        std::atomic<bool> requested{false};
        const SNN& n = *s.net;
        vector<std::thread> t;
        for (int i = 0; i < waiters; ++i)
            t.emplace_back([&, i] {
                const auto w = i == 0 ? epochs(2000000000) : i == 1 ? snn::operator""_acc(2.0L) : epochs(2000000000) || snn::operator""_min(1000);
                ++waiting;
                n.waitFor(w);
                if (!requested) c.fail("wait-early", s.what + ": a wait ended although the criteria are not met and the training goes on");
                ++returned;
            });
        until([&] { return waiting == waiters; });
        usleep(static_cast<useconds_t>(attempt == 0 ? r.range(1000, 4000) : attempt * 100000)); // they may not wait yet, so that once says nothing
        requested = true;
        s.net->stopTrainingAsync();
        if (trainer.joinable()) trainer.join();
        const bool all = until([&] { return returned == waiters; }, attempt == 0 ? 2000 : 8000);
        if (!all)
        {
            ++stuck;
            s.e.dataSet = -1;
            s.e.nanAt = 0; // the only thing that ends them
            s.net->train(*s.data[k], epochs(2), 1, 0);
        }
        for (auto& x : t) x.join();
        c.count("waits for a stopped training", waiters);
        if (all) break;
        s.e.dataSet = -1;
        s.e.nanAt = -1;
        s.fresh();
    }
    if (stuck == 3) c.fail("wait-endless", s.what + ": the training is stopped, and the waits go on");
    s.finish();
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"operations", 1500, 15000, operations},
        {"moments", 400, 4000, moments},
        {"ended", 400, 4000, ended},
        {"exceptions", 400, 4000, exceptions},
        {"elsewhere", 400, 4000, elsewhere},
        {"waits", 300, 3000, waits},
    });
}
