// Wraps the first and the last layer of a real network: records what the training engine presents and which errors it sends back.
#pragma once
#include "gen.hpp"

namespace tap
{
    using ref::SNN;
    using ref::vector;

    struct Event
    {
        bool training = false, reset = false, learned = false;
        vector<float> in, errors;
    };

    struct Log
    {
        vector<Event> events;
        std::function<void(const Event&)> before; // each presentation, before it is computed
        bool keep = true;
        std::atomic<long> presented{0}; // for training
    };

    class TapLayer final : public snn::internal::BaseLayer
    {
    public:
        std::unique_ptr<BaseLayer> inner;
        Log* log = nullptr;
        bool first = false, last = false;

        void present(const vector<float>& in, bool reset, bool training)
        {
            if (!first) return;
            Event e;
            e.training = training;
            e.reset = reset;
            e.in = in;
            if (log->before) log->before(e);
            if (log->keep) log->events.push_back(std::move(e));
            if (training) ++log->presented;
        }
        void learn(const vector<float>& errors)
        {
            if (last && log->keep && !log->events.empty()) { log->events.back().errors = errors; }
        }
        void learned()
        {
            if (first && log->keep && !log->events.empty()) log->events.back().learned = true;
        }
        // a copy of the network is an ordinary network
        std::unique_ptr<BaseLayer> clone(std::shared_ptr<snn::internal::NeuralNetworkOptimizer> o) const override { return inner->clone(o); }
        void* getNeuron(int i) override { return inner->getNeuron(i); }
        float getAverageOfAbsNeuronWeights() const override { return inner->getAverageOfAbsNeuronWeights(); }
        float getAverageOfSquareNeuronWeights() const override { return inner->getAverageOfSquareNeuronWeights(); }
        int getNumberOfInputs() const override { return inner->getNumberOfInputs(); }
        int getNumberOfNeurons() const override { return inner->getNumberOfNeurons(); }
        int getNumberOfParameters() const override { return inner->getNumberOfParameters(); }
        vector<int> getShapeOfInput() const override { return inner->getShapeOfInput(); }
        vector<int> getShapeOfOutput() const override { return inner->getShapeOfOutput(); }
        vector<float> output(const vector<float>& in, bool reset) override { present(in, reset, false); return inner->output(in, reset); }
        vector<float> outputForTraining(const vector<float>& in, bool reset) override { present(in, reset, true); return inner->outputForTraining(in, reset); }
        vector<float> backOutput(vector<float>& e) override { learn(e); auto r = inner->backOutput(e); learned(); return r; }
        void train(vector<float>& e) override { learn(e); inner->train(e); learned(); }
        int isValid() const override { return inner->isValid(); }
        std::string summary() const override { return inner->summary(); }
        bool operator==(const BaseLayer& l) const override { return inner->operator==(l); }
        bool operator!=(const BaseLayer& l) const override { return inner->operator!=(l); }
    };

    inline void install(SNN& net, Log& log)
    {
        const size_t n = net.layers.size();
        for (size_t l = 0; l < n; ++l)
        {
            if (l != 0 && l != n - 1) continue;
            auto t = std::make_unique<TapLayer>();
            t->inner = std::move(net.layers[l]);
            t->log = &log;
            t->first = l == 0;
            t->last = l == n - 1;
            net.layers[l] = std::move(t);
        }
    }
    inline void remove(SNN& net)
    {
        for (auto& l : net.layers)
            if (auto* t = dynamic_cast<TapLayer*>(l.get()))
            {
                auto inner = std::move(t->inner);
                l = std::move(inner);
            }
    }
}
