// A layer that is a monitor: it records what the training engine presents, and answers from a script.
#pragma once
#include <array>
#include "ref.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include "Data.hpp"

namespace spy
{
    using ref::SNN;
    using ref::vector;

    struct Script
    {
        virtual ~Script() = default;
        virtual vector<float> output(const vector<float>& in, bool reset, bool training) = 0;
        virtual void train(const vector<float>& /*errors*/) {}
        virtual void saving() {} // the network is being written
    };

    inline std::mutex scriptsMutex;
    inline std::map<int, Script*> scripts;
    inline int nextScript = 1;

    inline Script* scriptOf(int id)
    {
        std::lock_guard l(scriptsMutex);
        return scripts.at(id);
    }

    // registers a script for the time of a case
    struct Registered
    {
        int id;
        explicit Registered(Script& s)
        {
            std::lock_guard l(scriptsMutex);
            id = nextScript++;
            scripts[id] = &s;
        }
        ~Registered()
        {
            std::lock_guard l(scriptsMutex);
            scripts.erase(id);
        }
    };

    class SpyLayer final : public snn::internal::BaseLayer
    {
        friend class boost::serialization::access;
        template <class Archive>
        void serialize(Archive& ar, unsigned)
        {
            boost::serialization::void_cast_register<SpyLayer, snn::internal::BaseLayer>();
            ar & boost::serialization::base_object<snn::internal::BaseLayer>(*this);
            ar & id & nIn & nOut & memory;
            if constexpr (Archive::is_saving::value)
            {
                Script* s = nullptr;
                {
                    std::lock_guard l(scriptsMutex);
                    const auto it = scripts.find(id);
                    if (it != scripts.end()) s = it->second;
                }
                if (s) s->saving();
            }
        }

    public:
        int id = 0, nIn = 0, nOut = 0;
        int memory = 0; // any value of the state of the network, which copies and saves must carry
        SpyLayer() = default;
        SpyLayer(int id, int nIn, int nOut) : id(id), nIn(nIn), nOut(nOut) {}
        std::unique_ptr<BaseLayer> clone(std::shared_ptr<snn::internal::NeuralNetworkOptimizer>) const override { return std::make_unique<SpyLayer>(*this); }
        void* getNeuron(int) override { return nullptr; }
        float getAverageOfAbsNeuronWeights() const override { return 0; }
        float getAverageOfSquareNeuronWeights() const override { return 0; }
        int getNumberOfInputs() const override { return nIn; }
        int getNumberOfNeurons() const override { return nOut; }
        int getNumberOfParameters() const override { return 0; }
        vector<int> getShapeOfInput() const override { return {nIn}; }
        vector<int> getShapeOfOutput() const override { return {nOut}; }
        vector<float> output(const vector<float>& in, bool reset) override { return scriptOf(id)->output(in, reset, false); }
        vector<float> outputForTraining(const vector<float>& in, bool reset) override { return scriptOf(id)->output(in, reset, true); }
        vector<float> backOutput(vector<float>& e) override { scriptOf(id)->train(e); return vector<float>(static_cast<size_t>(nIn), 0.0f); }
        void train(vector<float>& e) override { scriptOf(id)->train(e); }
        int isValid() const override { return 0; }
        std::string summary() const override { return "Spy\n"; }
        bool operator==(const BaseLayer& l) const override
        {
            auto* o = dynamic_cast<const SpyLayer*>(&l);
            return o && o->id == id && o->nIn == nIn && o->nOut == nOut && o->memory == memory;
        }
        bool operator!=(const BaseLayer& l) const override { return !(*this == l); }
    };

    // a network whose only layer is the script
    inline std::unique_ptr<SNN> network(const Registered& r, int nIn, int nOut)
    {
        auto n = std::make_unique<SNN>(vector<snn::LayerModel>{snn::Input(nIn), snn::FullyConnected(nOut, ref::activation::identity)});
        n->layers[0] = std::make_unique<SpyLayer>(r.id, nIn, nOut);
        return n;
    }

    struct Scores
    {
        std::array<float, 5> v{}; // accuracy, weighted, f1, mae, rmse
        static Scores of(const SNN& n)
        {
            return {{n.getGlobalClusteringRate(), n.getWeightedClusteringRate(), n.getF1Score(), n.getMeanAbsoluteError(), n.getRootMeanSquaredError()}};
        }
        static Scores best(const SNN& n)
        {
            return {{n.getGlobalClusteringRateMax(), n.getWeightedClusteringRateMax(), n.getF1ScoreMax(), n.getMeanAbsoluteErrorMin(), n.getRootMeanSquaredErrorMin()}};
        }
        bool same(const Scores& o) const
        {
            for (size_t i = 0; i < 5; ++i)
                if (!vh::sameValue(v[i], o.v[i])) return false;
            return true;
        }
        std::string str() const { return vh::vecStr({v.begin(), v.end()}); }
    };
    inline const char* scoreName(size_t i)
    {
        static const char* n[] = {"accuracy", "weighted accuracy", "F1 score", "MAE", "RMSE"};
        return n[i];
    }

    // the definitions of the scores, in double precision
    struct Definition
    {
        snn::problem problem;
        double separator = 0.5, precision = 0.1, scale = 1; // scale: of the outputs and targets
        int n = 0, well = 0;
        vector<double> tp, fp, fn;
        double abs = 0, square = 0;
        bool near = false; // a decision that float rounding could change

        void add(const vector<float>& out, const vector<float>& target)
        {
            const size_t k = out.size();
            if (tp.empty()) tp = fp = fn = vector<double>(k, 0);
            ++n;
            bool ok = true;
            size_t best = 0;
            for (size_t i = 0; i < k; ++i)
            {
                const double o = out[i], t = target[i];
                if (out[i] > out[best]) best = i;
                const double e = t - o;
                abs += std::abs(e);
                square += e * e;
                if (problem == snn::problem::regression)
                {
                    ok &= std::abs(e) <= precision;
                    near |= std::abs(std::abs(e) - precision) < 1e-6 * (scale + std::abs(t)) && std::abs(e) != precision;
                    continue;
                }
                const bool p = o > separator;
                const bool q = problem == snn::problem::classification ? t == 1 : t > separator;
                tp[i] += p && q;
                fp[i] += p && !q;
                fn[i] += !p && q;
                if (problem == snn::problem::multipleClassification) ok &= p == q;
            }
            if (problem == snn::problem::classification)
                ok = target[best] == 1;
            well += ok;
        }
        std::array<double, 5> scores() const
        {
            double w = 0, f = 0;
            for (size_t i = 0; i < tp.size(); ++i)
                if (tp[i] > 0)
                {
                    const double p = tp[i] / (tp[i] + fp[i]), r = tp[i] / (tp[i] + fn[i]);
                    w += r;
                    f += 2 * p * r / (p + r);
                }
            const double k = static_cast<double>(tp.size());
            return {static_cast<double>(well) / n, w / k, f / k, abs / n, std::sqrt(square / n)};
        }
        // empty when the scores are those
        std::string compare(const Scores& s) const
        {
            const auto e = scores();
            for (size_t i = 0; i < 5; ++i)
            {
                const double tolerance = i < 3 ? 2e-6 * (1 + std::abs(e[i])) : 2e-6 * std::abs(e[i]) + 1e-9 * std::min(1.0, scale);
                if (!(std::abs(s.v[i] - e[i]) <= tolerance) || !vh::finiteBits(s.v[i]))
                    return vh::str(scoreName(i), " is ", s.v[i], " instead of ", e[i], " on ", n, " data");
            }
            return "";
        }
    };
}
BOOST_CLASS_EXPORT_KEY(spy::SpyLayer)
#ifdef VH_MAIN
BOOST_CLASS_EXPORT_IMPLEMENT(spy::SpyLayer)
#endif
