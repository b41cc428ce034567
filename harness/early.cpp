// C25: networks and data that live in static objects: built and used before main, used in main, training or not when the program ends
#define VH_MAIN
#include "gen.hpp"
#include <csignal>
#include <sys/wait.h>
using namespace gen;

namespace
{
    // a program on networks of its own, a function of its seed only; returns everything it observed
    // (no file: the serialization of boost does not work before its own static objects are initialised)
    std::string program(vh::u64 seed, const std::string& dir, std::string* text = nullptr)
    {
        std::string seen;
        vh::runThread(seed, [&] {
            Rng r(seed);
            GenOptions go;
            go.opts = r.chance(0.5);
            go.maxX = 4;
            go.maxLayers = 4;
            const Arch a = ref::gen(r, go);
            if (text) *text = str(a);
            auto net = build(a);
            const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
            vector<DataSpec> sets{gen::data(r, nIn, nOut, 6)};
            auto add = [&](const vector<float>& v) { seen += vh::str(vh::hashVec(v), " "); };
            for (int i = r.range(1, 4); i > 0; --i)
                switch (r.below(7))
                {
                case 0: case 1: case 2: case 3: add(apply(*net, step(r, nIn, nOut, sets))); break;
                case 4: { auto copy = std::make_unique<SNN>(*net); seen += *copy == *net ? "same " : "other "; net = std::move(copy); break; }
                case 5: seen += std::to_string(vh::hashStr(net->summary())) + " "; break;
                default: net->saveFilterLayersAsBitmap(dir + "/early", *sets[0].make(), 0);
                }
            for (auto& l : allWeights(*net, a)) for (auto& n : l) add(n);
            seen += std::to_string(net->getNumberOfTraining());
        });
        return seen;
    }

    [[noreturn]] void bad(const std::string& what)
    {
        std::printf("SEEN %s\n", what.c_str());
        std::fflush(stdout);
        std::_Exit(3);
    }

    // What a program can have outside of its functions. Data before the networks, so that they are destroyed after them.
    struct Early
    {
        vh::u64 seed = 0;
        int kind = 0;
        Arch a;
        std::string dir, seen, text;
        std::unique_ptr<Data> data;
        std::unique_ptr<SNN> net, copy;
        vector<float> input, output;
        Early()
        {
            const char* e = std::getenv("SNN_EARLY");
            if (!e) return;
            alarm(100);
            seed = std::strtoull(e, nullptr, 10);
            dir = std::getenv("SNN_EARLY_DIR");
            vh::threadSeed = vh::mix(seed) | 1;
            Rng r(seed + 1);
            try
            {
                kind = r.below(5);
                if (kind <= 1) seen = program(seed, dir);
                GenOptions go;
                go.opts = r.chance(0.5);
                go.maxX = 4;
                go.maxLayers = 4;
                a = ref::gen(r, go);
                net = build(a);
                const int nIn = prod(a.in), nOut = net->getNumberOfOutputs();
                const auto spec = gen::data(r, nIn, nOut, 6);
                data = spec.make();
                input = genInput(r, nIn);
                if (kind == 2) net->train(*data, epochs(1), 1, 1);
                if (kind == 3) net->startTrainingAsync(*data, 1, r.below(3));
                else
                {
                    copy = std::make_unique<SNN>(*net);
                    output = net->computeOutput(input, true);
                }
            }
            catch (std::exception& x) { bad(std::string("exception before main: ") + x.what()); }
        }
    };
    Early early;

    int child()
    {
        try
        {
            Rng r(early.seed + 2);
            SNN& n = *early.net;
            if (early.kind <= 1 && program(early.seed, early.dir) != early.seen) bad("networks used before main do not give the same results as in main");
            if (early.kind == 3)
            {
                n.waitFor(snn::operator""_ms(static_cast<unsigned long long>(r.below(4))));
                if (r.chance(0.5)) { n.stopTrainingAsync(); if (n.isTraining()) bad("still training after a stop"); }
            }
            else
            {
                n.saveAs(early.dir + "/main.snn");
                std::unique_ptr<SNN> l(&SNN::loadFrom(early.dir + "/main.snn"));
                // a not finite network gives not finite outputs, whose sign is not compared
                if (!n.hasNan())
                {
                    if (!vh::sameBits(n.computeOutput(early.input, true), l->computeOutput(early.input, true))) bad("the network loaded in main does not compute what the other computes");
                    if (!vh::sameBits(early.copy->computeOutput(early.input, true), early.output)) bad("the copy made before main does not compute in main what its source computed before main");
                }
                n.train(*early.data, epochs(1), 1, 1);
                if (early.kind == 4) n.startTrainingAsync(*early.data, 1, 1); // still training when the program ends
            }
        }
        catch (std::exception& x) { bad(std::string("exception in main: ") + x.what()); }
        if (early.seed % 2) std::exit(0);
        return 0;
    }

    void statics(vh::Ctx& c)
    {
        const auto seed = c.rng.next() >> 1;
        const auto log = c.scratch() + "/log";
        const auto command = vh::str("SNN_EARLY=", seed, " SNN_EARLY_DIR=", c.scratch(), " /proc/", getpid(), "/exe > ", log, " 2>&1");
        const int rc = std::system(command.c_str());
        std::ifstream f(log);
        std::stringstream out;
        out << f.rdbuf();
        if (rc != 0)
            c.fail("early", vh::str("program with static networks, seed ", seed, ": ends with ",
                                    WIFEXITED(rc) ? vh::str("exit code ", WEXITSTATUS(rc)) : vh::str("signal ", WTERMSIG(rc)), ", printed: ", out.str().substr(0, 1200)));
        c.count("programs with static networks");
        c.nontrivial(seed);
        c.sample(vh::str("program of seed ", seed, " exits with 0"));
    }
}

int main(int argc, char** argv)
{
    if (std::getenv("SNN_EARLY")) return child();
    return vh::runAll(argc, argv, {
        {"statics", 400, 8000, statics},
    });
}
