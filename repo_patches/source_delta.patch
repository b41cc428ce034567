From 505c9dc377e5868669464987c7eceed604cadd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 01/61] fix: SGD accumulates the bias update instead of
 overwriting the bias weight

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From a6006df179ec9505d89a7fe24c7ba5131993a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 02/61] fix: 2D pooling and locally connected layers place
 kernels by row width on non-square inputs

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 4414509ae3c3156eef85f470932f61663ba96fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 03/61] fix: MaxPooling1D produces one output per channel

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From 540476e821e70a013354a74ee7bda84d790668d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 04/61] fix: the predicted class is the largest output even
 when every output is below -2

---
 src/neural_network/StatisticAnalysis.cpp            | 4 ++--
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..cdb7b27 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -149,12 +149,12 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
+    float maxOutputValue = 0.0f;
     int maxOutputIndex = -1;
 
     for (int i = 0; i < (int)clusters.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..acb6a83 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -50,11 +50,11 @@ vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& i
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
+    float maxOutputValue = 0.0f;
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
-- 
2.43.0


From 9a4d5e69bc1abe0c8180f0b98c2e006cd0e7e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/61] fix: best F1 score and best RMSE are tracked with their
 own values

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index cdb7b27..eb4e9d3 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 62a27733ea84062db7df8eaad2cd2c6c18c71f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 06/61] fix: RMSE is computed from the squared error of each
 data

---
 include/snn/neural_network/StatisticAnalysis.hpp | 1 +
 src/neural_network/StatisticAnalysis.cpp         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..d507b12 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -11,6 +11,7 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index eb4e9d3..df3e67f 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -106,6 +108,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
         }
 
         clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -140,6 +143,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
         }
 
         clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -162,6 +166,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         if (i == classNumber)
         {
             clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -175,6 +180,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         else
         {
             clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalSquaredError += outputs[i] * outputs[i];
 
             if (outputs[i] > separator)
             {
@@ -238,7 +244,7 @@ float StatisticAnalysis::computeRootMeanSquaredError() const
     float totalError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalError += c.totalSquaredError;
     }
     const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
-- 
2.43.0


From 3c233ea3c29674976e7631a0e51d0d269f0c8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 07/61] fix: combining waits with && keeps the MAE criterion

---
 src/neural_network/Wait.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..d7d7532 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae > 0 && wait.mae > 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 8f0f2aa605098dc4f3920df51593608017cb3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 08/61] fix: evaluate called directly no longer dereferences a
 null Wait

---
 .../snn/neural_network/StraightforwardNeuralNetwork.hpp    | 2 +-
 src/neural_network/StraightforwardNeuralNetwork.cpp        | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..6e13041 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -62,7 +62,7 @@ namespace snn
         void waitFor(Wait wait) const;
         void train(Data& data, Wait wait, int batchSize = 1, int evaluationFrequency = 1);
 
-        void evaluate(const Data& data) { return this->evaluate(data, nullptr); }
+        void evaluate(const Data& data);
 
         std::vector<float> computeOutput(const std::vector<float>& inputs, bool temporalReset = false);
         int computeCluster(const std::vector<float>& inputs, bool temporalReset = false);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index acb6a83..9eb7d82 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -122,6 +122,13 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     log<minimal>("Stop training");
 }
 
+void StraightforwardNeuralNetwork::evaluate(const Data& data)
+{
+    Wait wait;
+    wait.startClock();
+    this->evaluate(data, &wait);
+}
+
 void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
 {
     this->startTesting();
-- 
2.43.0


From f133fe81f044c8d437711a5d7a7e705f32560fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 09/61] fix: NaN and infinite outputs are detected under
 -ffast-math, subnormal outputs are not

---
 include/snn/tools/Tools.hpp          | 9 +++++++++
 src/neural_network/NeuralNetwork.cpp | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..55c590a 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <bit>
+#include <cstdint>
 #include <format>
 #include <chrono>
 #include <iostream>
@@ -40,6 +42,13 @@ namespace snn::tools
     static std::random_device rd;
     static std::mt19937 rng(rd());
 
+    // Reads the bits of the value, because -ffast-math lets the compiler assume that NaN and infinity do not exist.
+    inline
+    bool isFinite(const float value)
+    {
+        return (std::bit_cast<uint32_t>(value) & 0x7F800000u) != 0x7F800000u;
+    }
+
     int randomBetween(const int min, const int max); // [min; max[
     float randomBetween(const float min, const float max);
     std::vector<float> randomVector(const float min, const float max, const size_t size);
diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..cef645b 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -2,6 +2,7 @@
 #include <ctime>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
+#include "Tools.hpp"
 #include "layer/LayerModel.hpp"
 #include "layer/LayerFactory.hpp"
 #include "optimizer/NeuralNetworkOptimizerFactory.hpp"
@@ -64,7 +65,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +78,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From eec3975ccefee7c3a325e9a271c2e5916677c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/61] fix: every non temporal testing data starts a new
 sequence, as training data do

---
 src/data/CompositeForNonTemporalData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/CompositeForNonTemporalData.cpp b/src/data/CompositeForNonTemporalData.cpp
index 61f28c3..35a20c3 100644
--- a/src/data/CompositeForNonTemporalData.cpp
+++ b/src/data/CompositeForNonTemporalData.cpp
@@ -31,7 +31,7 @@ bool CompositeForNonTemporalData::isFirstTrainingDataOfTemporalSequence([[maybe_
 
 bool CompositeForNonTemporalData::isFirstTestingDataOfTemporalSequence([[maybe_unused]] int index) const
 {
-    return false;
+    return true;
 }
 
 bool CompositeForNonTemporalData::needToTrainOnTrainingData([[maybe_unused]] int index) const
-- 
2.43.0


From ef70bfe59f6373fe5a377c6cd1301ea5bb3335a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 11/61] fix: a neural network loaded from an auto save is idle

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9eb7d82..ea3e29b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -305,6 +305,9 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    // An auto save is written during the training, but the loaded neural network is not training.
+    neuralNetwork->wantToStopTraining = false;
+    neuralNetwork->isIdle = true;
     return *neuralNetwork;
 }
 
-- 
2.43.0


From 9c4567c373cd2cc5c5122da3f138e12233cbc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 12/61] fix: sequential data are shuffled by sequence

---
 src/data/CompositeForTemporalData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index f5f1570..219c7ca 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i > this->sets[training].size; ++i)
+    for (int i = 0; i < static_cast<int>(this->sets[training].areFirstDataOfTemporalSequence.size()); ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
@@ -27,7 +27,7 @@ void CompositeForTemporalData::shuffle()
         this->sets[training].shuffledIndexes[j++] = this->indexesForShuffles[i];
 
         int index = this->indexesForShuffles[i] + 1;
-        while (!this->sets[training].areFirstDataOfTemporalSequence[index])
+        while (index < this->sets[training].size && !this->sets[training].areFirstDataOfTemporalSequence[index])
         {
             this->sets[training].shuffledIndexes[j++] = index++;
         }
@@ -41,7 +41,7 @@ void CompositeForTemporalData::unshuffle()
 
 bool CompositeForTemporalData::isFirstTrainingDataOfTemporalSequence(int index) const
 {
-    return this->sets[training].areFirstDataOfTemporalSequence[index];
+    return this->sets[training].areFirstDataOfTemporalSequence[this->sets[training].shuffledIndexes[index]];
 }
 
 bool CompositeForTemporalData::isFirstTestingDataOfTemporalSequence(int index) const
-- 
2.43.0


From 0004150a9ade48aae3e4ef3d1743fcc316083d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 13/61] fix: shuffling a time series keeps a permutation and
 stays inside short series

---
 src/data/CompositeForTimeSeries.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..75fe1d9 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,7 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
-    {
-        this->sets[training].needToTrainOnData[i] = false;
-    }
-
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < offset && i < this->sets[training].size; ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
@@ -72,6 +67,12 @@ void CompositeForTimeSeries::shuffle()
             iForIndex ++;
         }
     }
+    for (int i = iForIndex * (this->numberOfRecurrences + 1) + offset; i < this->sets[training].size; ++i)
+    {
+        this->sets[training].shuffledIndexes[i] = i;
+        this->sets[training].needToTrainOnData[i] = false;
+        this->sets[training].areFirstDataOfTemporalSequence[i] = i == 0;
+    }
     this->offset = (this->offset+1) % (this->numberOfRecurrences+1);
 }
 
-- 
2.43.0


From c3ff18d2136dbef7123977ed9170dbe818a057c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 14/61] fix: architectures with an empty kernel, layer or
 input, or with an overflowing size, are rejected

---
 src/neural_network/layer/LayerFactory.cpp | 49 +++++++++++++++++++----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..b847645 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -17,10 +17,47 @@ using namespace internal;
 inline
 int computeNumberOfInputs(const vector<int>& shapeOfInput)
 {
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : shapeOfInput)
+    {
+        if (size <= 0)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
         numberOfInputs *= size;
-    return numberOfInputs;
+        if (numberOfInputs > 2073600)
+            throw InvalidArchitectureException("Layer is too big.");
+    }
+    return static_cast<int>(numberOfInputs);
+}
+
+inline
+void checkLayerSize(const LayerModel& model)
+{
+    switch (model.type)
+    {
+    case fullyConnected:
+    case recurrence:
+    case gruLayer:
+        if (model.numberOfNeurons <= 0)
+            throw InvalidArchitectureException("Layer must have at least 1 neuron.");
+        if (model.numberOfNeurons > 1000000)
+            throw InvalidArchitectureException("Layer is too big.");
+        break;
+
+    case locallyConnected:
+    case convolution:
+        if (model.numberOfFilters <= 0)
+            throw InvalidArchitectureException("Layer must have at least 1 filter.");
+        if (static_cast<int64_t>(model.numberOfFilters) * model.numberOfInputs > 100000000)
+            throw InvalidArchitectureException("Layer is too big.");
+        [[fallthrough]];
+    case maxPooling:
+        if (model.kernelSize <= 0)
+            throw InvalidArchitectureException("Kernel must have a size of at least 1.");
+        break;
+
+    default:
+        break;
+    }
 }
 
 inline
@@ -93,6 +130,8 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
     if (model.numberOfInputs > 1000000)
         throw InvalidArchitectureException("Layer is too big.");
 
+    checkLayerSize(model);
+
     switch (model.type)
     {
     case fullyConnected:
@@ -262,11 +301,7 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
-    for (auto size : models[0].shapeOfInput)
-        numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
+    computeNumberOfInputs(models[0].shapeOfInput);
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
-- 
2.43.0


From fa70e2106519444cc28a65d8d3c5a86c0526bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 15/61] fix: layers with a different number of optimizers are
 not equal

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From 2b7a58508087d84ee7a1b3328299901951f40ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 16/61] fix: layer summaries report the input and output shapes
 on their own lines

---
 src/neural_network/layer/GruLayer.cpp           |  4 ++--
 src/neural_network/layer/LocallyConnected1D.cpp | 12 ++++++------
 src/neural_network/layer/LocallyConnected2D.cpp | 12 ++++++------
 src/neural_network/layer/Recurrence.cpp         |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/LocallyConnected1D.cpp b/src/neural_network/layer/LocallyConnected1D.cpp
index 93f7405..4b036df 100644
--- a/src/neural_network/layer/LocallyConnected1D.cpp
+++ b/src/neural_network/layer/LocallyConnected1D.cpp
@@ -71,12 +71,12 @@ std::string LocallyConnected1D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected1D";
-    ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
-    ss << "                Filters: " << this->numberOfFilters << endl;
-    ss << "                Kernel size: " << this->kernelSize << endl;
-    ss << "                Parameters: " << this->getNumberOfParameters() << endl;
-    ss << "                Activation: " << this->neurons[0].outputFunction->getName() << endl;
+    ss << " LocallyConnected1D" << endl;
+    ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
+    ss << "                Filters:      " << this->numberOfFilters << endl;
+    ss << "                Kernel size:  " << this->kernelSize << endl;
+    ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
+    ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
     ss << "                Output shape: [" << this->shapeOfOutput[0] << ", " << this->shapeOfOutput[1] << "]" << endl;
     if (!optimizers.empty())
     {
diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index f756674..343079a 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -81,12 +81,12 @@ std::string LocallyConnected2D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected2D";
-    ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
-    ss << "                Filters: " << this->numberOfFilters << endl;
-    ss << "                Kernel size: " << this->kernelSize << "x" << this->kernelSize << endl;
-    ss << "                Parameters: " << this->getNumberOfParameters() << endl;
-    ss << "                Activation: " << this->neurons[0].outputFunction->getName() << endl;
+    ss << " LocallyConnected2D" << endl;
+    ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
+    ss << "                Filters:      " << this->numberOfFilters << endl;
+    ss << "                Kernel size:  " << this->kernelSize << "x" << this->kernelSize << endl;
+    ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
+    ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
     ss << "                Output shape: [" << this->shapeOfOutput[0] << ", " << this->shapeOfOutput[1] << ", " << this->shapeOfOutput[2] << "]" << endl;
     if (!optimizers.empty())
     {
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From ee73416434cc614ad9b616c5b8cae1a03dd1ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 17/61] fix: copying a neural network that is training is
 rejected

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index ea3e29b..deea162 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -33,7 +33,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From a4233d80fdd32aec298b49e546c9b91f01e23c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 18/61] fix: the training label follows the shuffled training
 data

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..e3a7b28 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& labels = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)labels.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (labels[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From 31a9dac27aedf1730d1e48ce7083965f89ab00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 19/61] fix: normalize maps a constant feature to the requested
 range

---
 src/data/Data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..17f37b4 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -238,14 +238,16 @@ void Data::normalize(const float min, const float max)
 
             for (size_t i = 0; i < inputsTraining.size(); i++)
             {
+                inputsTraining[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTraining[i][j] = (inputsTraining[i][j] - minValueOfVector) / difference;
+                    inputsTraining[i][j] /= difference;
                 inputsTraining[i][j] = inputsTraining[i][j] * (max - min) + min;
             }
             for (size_t i = 0; i < inputsTesting.size(); i++)
             {
+                inputsTesting[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTesting[i][j] = (inputsTesting[i][j] - minValueOfVector) / difference;
+                    inputsTesting[i][j] /= difference;
                 inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;
             }
         }
-- 
2.43.0


From 26e0b6c9afd446741182277457678f0c5933176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 20/61] fix: data with missing inputs or labels, or with rows
 of different sizes, are rejected

---
 src/data/Data.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 17f37b4..3b6395d 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -106,6 +106,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
     this->sets[testing].inputs = testingInputs;
     this->sets[testing].labels = testingLabels;
 
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Training data cannot be empty.");
+
     this->sizeOfData = static_cast<int>(trainingInputs.back().size());
     this->numberOfLabels = static_cast<int>(trainingLabels.back().size());
     this->sets[training].size = static_cast<int>(trainingLabels.size());
@@ -274,11 +277,16 @@ int Data::isValid()
         && this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
         return 403;
 
-    if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
-        return 405;
+    for (const auto& s : this->sets)
+    {
+        if (s.size != (int)s.inputs.size()
+            || s.size != (int)s.labels.size())
+            return 405;
+
+        if (ranges::any_of(s.inputs, [this](const auto& v) { return (int)v.size() != this->sizeOfData; })
+            || ranges::any_of(s.labels, [this](const auto& v) { return (int)v.size() != this->numberOfLabels; }))
+            return 405;
+    }
 
     int err = this->problemComposite->isValid();
     if (err != 0)
-- 
2.43.0


From d43716837ff537910a9864964307cc1244e62e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 21/61] fix: empty sequences are rejected

---
 src/data/Data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 3b6395d..a2c1ed4 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -174,6 +174,8 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A sequence cannot be empty.");
         ranges::move(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
@@ -201,6 +203,8 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A sequence cannot be empty.");
         ranges::move(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
-- 
2.43.0


From bf6456e669dafe396d191e74de9d78cd96932a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 22/61] fix: the derivative of the improved sigmoid includes
 its linear term and does not overflow

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..028ae92 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,7 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            return (1.0f - powf(tanhf(x / 2.0f), 2.0f)) / 4.0f + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From cd907dc00441cbfd379fad247a4935506ece4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 23/61] fix: the number of outputs is the size of the last
 layer's output, also for filter layers

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index cef645b..d76c1b2 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -15,7 +15,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -27,7 +27,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -101,7 +101,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -145,7 +145,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From c966689b56ac85a778619f8391ac3af1fb7358c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 24/61] fix: dropout covers every output of convolution layers

---
 src/neural_network/optimizer/Dropout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..a36fedb 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,10 +36,13 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    if (temporalReset || this->presenceProbabilities.size() != outputs.size())
+    {
+        this->presenceProbabilities.resize(outputs.size());
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
+    }
     ranges::transform(outputs, this->presenceProbabilities, outputs.begin(), multiplies<float>());
 }
 
-- 
2.43.0


From 22666f1f2d21dcf743d61e100127f110f8005c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 25/61] fix: a convolution in first position is trained with
 the errors of all its outputs

---
 src/neural_network/layer/Convolution1D.cpp | 10 ++++++++--
 src/neural_network/layer/Convolution2D.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..28d2e4e 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,14 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+    {
+        for (auto& neuron : this->neurons)
+        {
+            neuron.train(inputErrors[i]);
+            ++i;
+        }
+    }
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..fb50814 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,14 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+    {
+        for (auto& neuron : this->neurons)
+        {
+            neuron.train(inputErrors[i]);
+            ++i;
+        }
+    }
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From ab09509920336a36f96fc5ed8677ec73de8929e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 26/61] fix: a convolution neuron is trained with the sum of
 the position of each error

---
 include/snn/neural_network/layer/neuron/SimpleNeuron.hpp | 8 ++++++++
 src/neural_network/layer/neuron/SimpleNeuron.cpp         | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
index c152c83..864c1b6 100644
--- a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
+++ b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <boost/serialization/access.hpp>
 #include <boost/serialization/base_object.hpp>
+#include <boost/serialization/version.hpp>
 #include "Neuron.hpp"
 
 namespace snn::internal
@@ -13,6 +14,8 @@ namespace snn::internal
         template <class Archive>
         void serialize(Archive& ar, unsigned version);
 
+        CircularData lastSums; // one sum for each position of the neuron in its layer
+
     public:
         SimpleNeuron() = default; // use restricted to Boost library only
         SimpleNeuron(NeuronModel model, std::shared_ptr<NeuralNetworkOptimizer> optimizer);
@@ -35,5 +38,10 @@ namespace snn::internal
     {
         boost::serialization::void_cast_register<SimpleNeuron, Neuron>();
         ar & boost::serialization::base_object<Neuron>(*this);
+        if (version >= 1)
+            ar & this->lastSums;
+        else
+            this->lastSums.initialize(this->batchSize, 1);
     }
 }
+BOOST_CLASS_VERSION(snn::internal::SimpleNeuron, 1)
diff --git a/src/neural_network/layer/neuron/SimpleNeuron.cpp b/src/neural_network/layer/neuron/SimpleNeuron.cpp
index a75561d..154215e 100644
--- a/src/neural_network/layer/neuron/SimpleNeuron.cpp
+++ b/src/neural_network/layer/neuron/SimpleNeuron.cpp
@@ -8,6 +8,7 @@ using namespace internal;
 SimpleNeuron::SimpleNeuron(NeuronModel model, shared_ptr<NeuralNetworkOptimizer> optimizer)
     : Neuron(model, optimizer)
 {
+    this->lastSums.initialize(this->batchSize, 1);
 }
 
 float SimpleNeuron::output(const vector<float>& inputs)
@@ -22,12 +23,13 @@ float SimpleNeuron::output(const vector<float>& inputs)
         tmp += inputs[w] * this->weights[w];
     }
     this->sum = tmp + this->weights[w] * bias;
+    this->lastSums.pushBack({this->sum});
     return this->outputFunction->function(this->sum);
 }
 
 vector<float>& SimpleNeuron::backOutput(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->lastSums.getBack()->front());
     assert(this->weights.size() == this->errors.size() + 1);
     #pragma omp simd // seems to do nothing
     for (size_t w = 0; w < this->errors.size(); ++w)
@@ -40,7 +42,7 @@ vector<float>& SimpleNeuron::backOutput(float error)
 
 void SimpleNeuron::train(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->lastSums.getBack()->front());
     this->optimizer->updateWeights(*this, error);
 }
 
@@ -51,7 +53,8 @@ int SimpleNeuron::isValid() const
 
 bool SimpleNeuron::operator==(const SimpleNeuron& neuron) const
 {
-    return this->Neuron::operator==(neuron);
+    return this->Neuron::operator==(neuron)
+        && this->lastSums == neuron.lastSums;
 }
 
 bool SimpleNeuron::operator!=(const SimpleNeuron& neuron) const
-- 
2.43.0


From 89d9d6d6e357967a0e0be52cbf9f56066451cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 27/61] fix: asynchronous training can be stopped at any time
 and observed from another thread

---
 include/snn/neural_network/NeuralNetwork.hpp  |  6 +--
 .../snn/neural_network/StatisticAnalysis.hpp  | 41 ++++++++---------
 .../StraightforwardNeuralNetwork.hpp          | 21 ++++-----
 include/snn/tools/Atomic.hpp                  | 44 +++++++++++++++++++
 .../StraightforwardNeuralNetwork.cpp          | 17 +++++--
 5 files changed, 92 insertions(+), 37 deletions(-)
 create mode 100644 include/snn/tools/Atomic.hpp

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 49c54af..480e653 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -23,8 +23,8 @@ namespace snn::internal
     class NeuralNetwork : public StatisticAnalysis
     {
     private:
-        bool outputNan = false;
-        int64_t numberOfTraining = 0;
+        tools::Atomic<bool> outputNan = false;
+        tools::Atomic<int64_t> numberOfTraining = 0;
 
         void backpropagationAlgorithm(const std::vector<float>& inputs, const std::vector<float>& desired, bool temporalReset);
         std::vector<float> calculateError(const std::vector<float>& outputs, const std::vector<float>& desired) const;
@@ -95,7 +95,7 @@ namespace snn::internal
         ar.template register_type<MaxPooling1D>();
         ar.template register_type<MaxPooling2D>();
         if (version >= 1) {
-            ar & this->numberOfTraining;
+            tools::Atomic<int64_t>::serialize(ar, this->numberOfTraining);
         }
         ar & this->layers;
         ar & this->optimizer;
diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index d507b12..645f093 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <vector>
 #include <boost/serialization/access.hpp>
+#include "../tools/Atomic.hpp"
 
 namespace snn::internal
 {
@@ -39,17 +40,17 @@ namespace snn::internal
         float numberOfDataWellClassified;
         float numberOfDataMisclassified;
 
-        float globalClusteringRate = -1.0f;
-        float weightedClusteringRate = -1.0f;
-        float f1Score = -1.0f;
-        float meanAbsoluteError = -1.0f;
-        float rootMeanSquaredError = -1.0f;
+        tools::Atomic<float> globalClusteringRate = -1.0f;
+        tools::Atomic<float> weightedClusteringRate = -1.0f;
+        tools::Atomic<float> f1Score = -1.0f;
+        tools::Atomic<float> meanAbsoluteError = -1.0f;
+        tools::Atomic<float> rootMeanSquaredError = -1.0f;
 
-        float globalClusteringRateMax = -1.0f;
-        float weightedClusteringRateMax = -1.0f;
-        float f1ScoreMax = -1.0f;
-        float meanAbsoluteErrorMin = -1.0f;
-        float rootMeanSquaredErrorMin = -1.0f;
+        tools::Atomic<float> globalClusteringRateMax = -1.0f;
+        tools::Atomic<float> weightedClusteringRateMax = -1.0f;
+        tools::Atomic<float> f1ScoreMax = -1.0f;
+        tools::Atomic<float> meanAbsoluteErrorMin = -1.0f;
+        tools::Atomic<float> rootMeanSquaredErrorMin = -1.0f;
 
         [[nodiscard]] float computeGlobalClusteringRate() const;
         [[nodiscard]] float computeWeightedClusteringRate() const;
@@ -108,16 +109,16 @@ namespace snn::internal
         ar & this->clusters;
         ar & this->numberOfDataWellClassified;
         ar & this->numberOfDataMisclassified;
-        ar & this->globalClusteringRate;
-        ar & this->weightedClusteringRate;
-        ar & this->f1Score;
-        ar & this->meanAbsoluteError;
-        ar & this->rootMeanSquaredError;
-        ar & this->globalClusteringRateMax;
-        ar & this->weightedClusteringRateMax;
-        ar & this->f1ScoreMax;
-        ar & this->meanAbsoluteErrorMin;
-        ar & this->rootMeanSquaredErrorMin;
+        tools::Atomic<float>::serialize(ar, this->globalClusteringRate);
+        tools::Atomic<float>::serialize(ar, this->weightedClusteringRate);
+        tools::Atomic<float>::serialize(ar, this->f1Score);
+        tools::Atomic<float>::serialize(ar, this->meanAbsoluteError);
+        tools::Atomic<float>::serialize(ar, this->rootMeanSquaredError);
+        tools::Atomic<float>::serialize(ar, this->globalClusteringRateMax);
+        tools::Atomic<float>::serialize(ar, this->weightedClusteringRateMax);
+        tools::Atomic<float>::serialize(ar, this->f1ScoreMax);
+        tools::Atomic<float>::serialize(ar, this->meanAbsoluteErrorMin);
+        tools::Atomic<float>::serialize(ar, this->rootMeanSquaredErrorMin);
         ar & this->globalClusteringRateIsBetterThanMax;
         ar & this->weightedClusteringRateIsBetterThanMax;
         ar & this->f1ScoreIsBetterThanMax;
diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 6e13041..bd620e4 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -17,12 +17,13 @@ namespace snn
     private:
         std::thread thread;
 
-        bool wantToStopTraining = false;
-        bool isIdle = true;
-        int index = 0;
-        int epoch = 0;
-        int numberOfTrainingsBetweenTwoEvaluations = 0;
+        tools::Atomic<bool> wantToStopTraining = false;
+        tools::Atomic<bool> isIdle = true;
+        tools::Atomic<int> index = 0;
+        tools::Atomic<int> epoch = 0;
+        tools::Atomic<int> numberOfTrainingsBetweenTwoEvaluations = 0;
 
+        void setTrainingInProgress();
         void resetTrainingValues();
 
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
@@ -129,10 +130,10 @@ namespace snn
         ar & boost::serialization::base_object<NeuralNetwork>(*this);
         ar & this->autoSaveFilePath;
         ar & this->autoSaveWhenBetter;
-        ar & this->wantToStopTraining;
-        ar & this->index;
-        ar & this->isIdle;
-        ar & this->epoch;
-        ar & this->numberOfTrainingsBetweenTwoEvaluations;
+        tools::Atomic<bool>::serialize(ar, this->wantToStopTraining);
+        tools::Atomic<int>::serialize(ar, this->index);
+        tools::Atomic<bool>::serialize(ar, this->isIdle);
+        tools::Atomic<int>::serialize(ar, this->epoch);
+        tools::Atomic<int>::serialize(ar, this->numberOfTrainingsBetweenTwoEvaluations);
     }
 }
diff --git a/include/snn/tools/Atomic.hpp b/include/snn/tools/Atomic.hpp
new file mode 100644
index 0000000..b1ebe5b
--- /dev/null
+++ b/include/snn/tools/Atomic.hpp
@@ -0,0 +1,44 @@
+#pragma once
+#include <atomic>
+
+namespace snn::tools
+{
+    // A value written by the training thread and read by the others, which can be copied unlike std::atomic.
+    template <typename T>
+    class Atomic final
+    {
+    private:
+        std::atomic<T> value;
+
+    public:
+        Atomic(const T value = T()) : value(value) {}
+        Atomic(const Atomic& atomic) : value(atomic.value.load()) {}
+        ~Atomic() = default;
+
+        Atomic& operator=(const Atomic& atomic)
+        {
+            this->value = atomic.value.load();
+            return *this;
+        }
+
+        Atomic& operator=(const T newValue)
+        {
+            this->value = newValue;
+            return *this;
+        }
+
+        operator T() const { return this->value.load(); }
+
+        T operator++(int) { return this->value++; }
+        T operator+=(const T v) { return this->value += v; }
+
+        // Same archive format as the value itself.
+        template <class Archive>
+        static void serialize(Archive& ar, Atomic& atomic)
+        {
+            T v = atomic;
+            ar & v;
+            atomic = v;
+        }
+    };
+}
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index deea162..e893f6d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -73,6 +73,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
+    this->setTrainingInProgress();
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
@@ -82,6 +83,7 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->setTrainingInProgress();
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -89,10 +91,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 {
     log<minimal>("Start training");
     wait.startClock();
-    this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
@@ -137,7 +136,7 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
         if (this->hasNan())
         {
             this->setResultsAsNan();
-            this->resetTrainingValues();
+            this->index = 0;
             return;
         }
 
@@ -197,6 +196,16 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
         this->thread.join();
         log<complete>("Thread closed");
     }
+    if (this->isIdle)
+        this->wantToStopTraining = false;
+}
+
+// Must be called before the training starts, so that a stop requested just after is not lost.
+void StraightforwardNeuralNetwork::setTrainingInProgress()
+{
+    this->epoch = 0;
+    this->wantToStopTraining = false;
+    this->isIdle = false;
 }
 
 void StraightforwardNeuralNetwork::resetTrainingValues()
-- 
2.43.0


From 5a9229ad6be88331146f2472b002ba88a82df846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 28/61] fix: neural networks trained in different threads do
 not share a random generator

---
 include/snn/tools/Tools.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 55c590a..d30afa9 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -39,8 +39,7 @@ namespace snn::internal
 
 namespace snn::tools
 {
-    static std::random_device rd;
-    static std::mt19937 rng(rd());
+    static thread_local std::mt19937 rng(std::random_device{}());
 
     // Reads the bits of the value, because -ffast-math lets the compiler assume that NaN and infinity do not exist.
     inline
-- 
2.43.0


From 234d0000af78488827359c92b913cb871214ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 29/61] fix: a training interrupted by an exception leaves the
 neural network idle

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index e893f6d..354b413 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -84,7 +84,15 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
     this->setTrainingInProgress();
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
-- 
2.43.0


From 0bcc4782fa794faedf1df224aaeba8ddc440f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 30/61] fix: feature maps are drawn from the weights of their
 own filter

---
 .../NeuralNetworkVisualization.cpp               | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..91f6928 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -8,7 +8,7 @@ using namespace tools;
 
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
-    if (filterLayer == nullptr)
+    if (filterLayer == nullptr || filterLayer->getNumberOfNeurons() == 0)
         return;
     auto shape = filterLayer->getShapeOfInput();
     if (shape.size() != 3)
@@ -52,20 +52,26 @@ std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLay
     auto outputShape = filterLayer->getShapeOfOutput();
     auto filterSize = filterLayer->getKernelSize();
     auto neuronByFilter = outputShape[X] * outputShape[Y];
+    // A convolution has one neuron by filter, a locally connected layer has one by filter and position.
+    const bool oneNeuronByFilter = filterLayer->getNumberOfNeurons() == outputShape[C];
+    const int stride = oneNeuronByFilter ? 1 : filterSize;
     vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
     for (int n = 0; n < neuronByFilter; ++n)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
+        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(oneNeuronByFilter ? filterNumber : n * outputShape[C] + filterNumber))->getWeights();
+        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]) * stride;
+        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]) * stride;
 
         for (int y = 0; y < filterSize; ++y)
         {
             for (int x = 0; x < filterSize; ++x)
             {
+                if (neuronPositionX + x >= inputShape[X] || neuronPositionY + y >= inputShape[Y])
+                    continue;
                 const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
                 const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
+                for (int c = 0; c < inputShape[C]; ++c)
+                    weights[i] += neuronWeight[j * inputShape[C] + c];
             }
         }
     }
-- 
2.43.0


From 344901e4a2c79941d6d9992f1b3922e6d7d61ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 31/61] fix: bitmaps of inputs and outputs saturate colors and
 read only existing channels

---
 .../NeuralNetworkVisualization.cpp            | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 91f6928..046752c 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <BitmapImage.hpp>
 #include "NeuralNetworkVisualization.hpp"
 
@@ -6,6 +7,12 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+inline
+unsigned char toColor(const float value)
+{
+    return static_cast<unsigned char>(clamp(value, 0.0f, 1.0f) * 255.0f);
+}
+
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
     if (filterLayer == nullptr || filterLayer->getNumberOfNeurons() == 0)
@@ -105,7 +112,7 @@ void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, std::vec
                 {
                     if (y * filterX + x < shape[C])
                     {
-                        const auto color = static_cast<unsigned char>(outputs[index++] * 255.0f);
+                        const auto color = toColor(outputs[index++]);
                         image.set_pixel(x * (shape[X] + 1) + i, y * (shape[Y] + 1) + j, color, color, color);
                     }
                 }
@@ -128,16 +135,17 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
         {
             if (shapeOfInput[C] == 1)
             {
-                const auto color = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto color = toColor(inputs[index]);
                 image.set_pixel(x, y, color, color, color);
             }
             else
             {
-                const auto red = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto blue = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto green = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                image.set_pixel(x, y, red, blue, green);
+                const auto red = toColor(inputs[index]);
+                const auto green = toColor(inputs[index + 1]);
+                const auto blue = static_cast<unsigned char>(shapeOfInput[C] > 2 ? toColor(inputs[index + 2]) : 0);
+                image.set_pixel(x, y, red, green, blue);
             }
+            index += shapeOfInput[C];
         }
     }
     image.save_image(filePath);
-- 
2.43.0


From 1097950ae8f68d3b4384750312e483bb39bae7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 32/61] fix: SGD trains the bias and the recurrent weight of
 recurrent neurons with their own gradient

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 59389c3..21f568c 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -56,12 +56,13 @@ void StochasticGradientDescent::updateWeights(RecurrentNeuron& neuron, float err
         deltaWeights[w] = lr * error * lastInputs[w] + m * previousDeltaWeights[w];
         neuron.weights[w] += deltaWeights[w];
     }
-    deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] += deltaWeights[w];
     neuron.recurrentError = error + neuron.recurrentError * neuron.outputFunction->derivative(neuron.previousSum) * neuron.weights[w];
 
     deltaWeights[w] = lr * neuron.recurrentError * neuron.previousOutput + m * previousDeltaWeights[w];
     neuron.weights[w] += deltaWeights[w];
+    ++w;
+    deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
     #ifdef _MSC_VER
     #pragma warning(default:4701)
-- 
2.43.0


From 6c1bcd6c0071fa13cbc19bfe20bb55514221d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 33/61] fix: saving to a full disk reports an error

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 354b413..405c12d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -313,6 +313,8 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
     ofstream ofs(filePath);
     boost::archive::text_oarchive archive(ofs);
     archive << this;
+    if (!ofs.flush())
+        throw runtime_error("Neural network cannot be saved in the file " + filePath);
 }
 
 
-- 
2.43.0


From 3c25f50ff2ff18e73b740c33f73b8074289fb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 34/61] fix: a neural network whose statistics are NaN can be
 loaded

---
 .../StraightforwardNeuralNetwork.cpp          | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 405c12d..ec89a8b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,4 +1,6 @@
 #include <fstream>
+#include <limits>
+#include <locale>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -14,6 +16,41 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+namespace
+{
+    // The statistics can be NaN or infinite, which are written in the file but not read back by the standard facet.
+    class NonFiniteReader final : public num_get<char>
+    {
+    protected:
+        iter_type do_get(iter_type it, iter_type end, ios_base& str, ios_base::iostate& err, float& value) const override
+        {
+            bool isNegative = false;
+            if (it != end && (*it == '-' || *it == '+'))
+            {
+                isNegative = *it == '-';
+                ++it;
+            }
+            if (it != end && (*it == 'n' || *it == 'i'))
+            {
+                string word;
+                for (; it != end && *it >= 'a' && *it <= 'z'; ++it)
+                    word += *it;
+                if (word == "nan")
+                    value = numeric_limits<float>::quiet_NaN();
+                else if (word == "inf")
+                    value = numeric_limits<float>::infinity();
+                else
+                    err |= ios_base::failbit;
+            }
+            else
+                it = num_get<char>::do_get(it, end, str, err, value);
+            if (isNegative)
+                value = -value;
+            return it;
+        }
+    };
+}
+
 StraightforwardNeuralNetwork::~StraightforwardNeuralNetwork()
 {
     this->stopTrainingAsync();
@@ -322,6 +359,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    ifs.imbue(locale(ifs.getloc(), new NonFiniteReader));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     // An auto save is written during the training, but the loaded neural network is not training.
-- 
2.43.0


From 8a3d13b95aea5e308384c112c487884b5a367c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 35/61] fix: the absolute errors of the statistics are not
 truncated to integers

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index df3e67f..d660f8f 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -107,7 +107,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
         clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
@@ -142,7 +142,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
         clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
@@ -165,7 +165,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
             clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
@@ -179,7 +179,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
             clusters[i].totalSquaredError += outputs[i] * outputs[i];
 
             if (outputs[i] > separator)
-- 
2.43.0


From f8c902f60edc97cb5171cef647d596d4306c9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 36/61] fix: mixing || and && is rejected whatever the side of
 the other operator

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index d7d7532..3004c68 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From db6bba8b22314b7033f6544f19b3de190da246cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 37/61] fix: a mean absolute error of 0 meets the MAE criterion
 of a Wait

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 3004c68..b691389 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -67,7 +67,7 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From 787cb427e509f1aa5f91ada6ba8447038d700846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 38/61] fix: an auto save no longer erases a stop requested
 meanwhile

---
 include/snn/tools/Atomic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Atomic.hpp b/include/snn/tools/Atomic.hpp
index b1ebe5b..1c9257a 100644
--- a/include/snn/tools/Atomic.hpp
+++ b/include/snn/tools/Atomic.hpp
@@ -32,13 +32,14 @@ namespace snn::tools
         T operator++(int) { return this->value++; }
         T operator+=(const T v) { return this->value += v; }
 
-        // Same archive format as the value itself.
+        // Same archive format as the value itself. Saving must not write the value back, it could have changed meanwhile.
         template <class Archive>
         static void serialize(Archive& ar, Atomic& atomic)
         {
             T v = atomic;
             ar & v;
-            atomic = v;
+            if constexpr (Archive::is_loading::value)
+                atomic = v;
         }
     };
 }
-- 
2.43.0


From 429d407f1a0f563df8d4d8cf7a7c28fed1572261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 39/61] fix: a training stopped inside an epoch does not go on
 after its last evaluation

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index ec89a8b..2a5890b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -139,12 +139,16 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
-    for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
+    bool isStopped = false; // a training stopped inside an epoch stays stopped, whatever its last evaluation
+    for (this->epoch = 1; !isStopped && this->continueTraining(wait); this->epoch++)
     {
         data.shuffle();
-        for (this->index = 0; index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations && this->continueTraining(wait);
-             this->index += batchSize)
+        for (this->index = 0; index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations; this->index += batchSize)
         {
+            isStopped = !this->continueTraining(wait);
+            if (isStopped)
+                break;
+
             if (this->hasNan())
             {
                 this->setResultsAsNan();
-- 
2.43.0


From 6a049a3ef70c124114c4f86f79bd17c24b91d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 40/61] fix: copying a network that is training is rejected
 before its data are read

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 2a5890b..c3fb1ba 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -49,6 +49,14 @@ namespace
             return it;
         }
     };
+
+    // Checked before anything is copied: what the training thread is writing cannot be read.
+    const StraightforwardNeuralNetwork& checkIdle(const StraightforwardNeuralNetwork& neuralNetwork)
+    {
+        if (neuralNetwork.isTraining())
+            throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
+        return neuralNetwork;
+    }
 }
 
 StraightforwardNeuralNetwork::~StraightforwardNeuralNetwork()
@@ -68,10 +76,8 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 }
 
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
-    : NeuralNetwork(neuralNetwork)
+    : NeuralNetwork(checkIdle(neuralNetwork))
 {
-    if (!neuralNetwork.isIdle)
-        throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
     this->index = neuralNetwork.index;
-- 
2.43.0


From 8db14d221b190900f2bf6285db2756d4347111a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 41/61] fix: inputs or expected outputs of a wrong size are
 rejected

---
 include/snn/neural_network/NeuralNetwork.hpp        |  1 +
 src/neural_network/NeuralNetwork.cpp                | 10 ++++++++++
 src/neural_network/StraightforwardNeuralNetwork.cpp |  2 ++
 3 files changed, 13 insertions(+)

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 480e653..a58f96f 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -35,6 +35,7 @@ namespace snn::internal
         void serialize(Archive& ar, unsigned version);
 
     protected:
+        void checkInputs(const std::vector<float>& inputs) const;
         std::vector<float> output(const std::vector<float>& inputs, bool temporalReset);
         std::vector<float> outputForTraining(const std::vector<float>& inputs, bool temporalReset); // Because Dropout is different during training and inference
 
diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index d76c1b2..7356ac5 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <ctime>
+#include <stdexcept>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
 #include "Tools.hpp"
@@ -54,10 +55,19 @@ void NeuralNetwork::evaluateOnceForClassification(const vector<float>& inputs, c
 
 void NeuralNetwork::trainOnce(const vector<float>& inputs, const vector<float>& desired, bool temporalReset)
 {
+    this->checkInputs(inputs);
+    if (desired.size() != static_cast<size_t>(this->getNumberOfOutputs()))
+        throw runtime_error("The size of the expected outputs is not the number of outputs of the neural network");
     this->backpropagationAlgorithm(inputs, desired, temporalReset);
     this->numberOfTraining++;
 }
 
+void NeuralNetwork::checkInputs(const vector<float>& inputs) const
+{
+    if (inputs.size() != static_cast<size_t>(this->getNumberOfInputs()))
+        throw runtime_error("The size of the inputs is not the number of inputs of the neural network");
+}
+
 vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalReset)
 {
     auto outputs = layers[0]->output(inputs, temporalReset);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index c3fb1ba..d5e11e9 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -87,11 +87,13 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const Straightforward
 
 vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& inputs, bool temporalReset)
 {
+    this->checkInputs(inputs);
     return this->output(inputs, temporalReset);
 }
 
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
+    this->checkInputs(inputs);
     const auto outputs = this->output(inputs, temporalReset);
     float maxOutputValue = 0.0f;
     int maxOutputIndex = -1;
-- 
2.43.0


From 7b332a8f513eea3328f8f2d8eeb1e615475ede83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 42/61] fix: data that do not match the neural network are
 rejected by evaluations and exports

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d5e11e9..24b2a29 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -180,6 +180,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 
 void StraightforwardNeuralNetwork::evaluate(const Data& data)
 {
+    this->validData(data, 1);
     Wait wait;
     wait.startClock();
     this->evaluate(data, &wait);
@@ -338,6 +339,7 @@ void StraightforwardNeuralNetwork::saveFeatureMapsAsBitmap(string filePath)
 
 void StraightforwardNeuralNetwork::saveData2DAsBitmap(string filePath, const Data& data, int dataIndex)
 {
+     this->validData(data, 1);
      NeuralNetworkVisualization::saveAsBitmap(data.getTestingData(dataIndex), this->layers[0]->getShapeOfInput(), filePath + "_input" + to_string(dataIndex) + ".bmp");
 }
 
@@ -345,6 +347,7 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 {
     if (!this->isIdle)
         throw runtime_error("Filter layers cannot be saved during training, stop training before saving");
+    this->validData(data, 1);
 
     auto outputs = this->getLayerOutputs(data.getTestingData(dataIndex));
 
-- 
2.43.0


From a04e52bf6380603b292394ac275eed7a69d61f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 43/61] fix: normalization computes in double precision, finite
 data stay finite

---
 src/data/Data.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index a2c1ed4..74ea1eb 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -241,22 +241,21 @@ void Data::normalize(const float min, const float max)
                 }
             }
 
-            const float difference = maxValueOfVector - minValueOfVector;
-
-            for (size_t i = 0; i < inputsTraining.size(); i++)
+            // in double precision because the range can be much larger or smaller than the difference
+            const double difference = static_cast<double>(maxValueOfVector) - minValueOfVector;
+            const double range = static_cast<double>(max) - min;
+            const auto normalizeValue = [=](float& value)
             {
-                inputsTraining[i][j] -= minValueOfVector;
+                double position = static_cast<double>(value) - minValueOfVector;
                 if (difference != 0)
-                    inputsTraining[i][j] /= difference;
-                inputsTraining[i][j] = inputsTraining[i][j] * (max - min) + min;
-            }
-            for (size_t i = 0; i < inputsTesting.size(); i++)
-            {
-                inputsTesting[i][j] -= minValueOfVector;
-                if (difference != 0)
-                    inputsTesting[i][j] /= difference;
-                inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;
-            }
+                    position /= difference;
+                value = static_cast<float>(position * range + min);
+            };
+
+            for (auto& input : inputsTraining)
+                normalizeValue(input[j]);
+            for (auto& input : inputsTesting)
+                normalizeValue(input[j]);
         }
     }
     catch (exception&)
-- 
2.43.0


From 40ed8217d7546bc658f25397011323dd8f63e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 44/61] fix: GELU and the derivatives of GELU and gaussian do
 not overflow on huge sums

---
 .../neural_network/layer/neuron/activation_function/GELU.hpp  | 4 ++--
 .../layer/neuron/activation_function/Gaussian.hpp             | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
index c18f9f9..6195b5e 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
@@ -21,12 +21,12 @@ namespace snn::internal
 
         float function(const float x) const override
         {
-            return x * (tanh(1.702f * x / 2.0f) + 1.0f) / 2.0f; // approximation
+            return x * ((tanh(1.702f * x / 2.0f) + 1.0f) / 2.0f); // approximation
         }
 
         float derivative(const float x) const override
         {
-            return 1.702f * x * (1.0f - powf(tanhf(1.702f * x / 2.0f), 2.0f)) / 4.0f
+            return x * (1.702f * (1.0f - powf(tanhf(1.702f * x / 2.0f), 2.0f))) / 4.0f
                 + (tanh(1.702f * x / 2.0f) + 1.0f) / 2.0f; // 1.702 * x * sigmoid.derivative(x) + sigmoid.function(1.702 * x)
         }
     };
diff --git a/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp b/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
index 64865e2..1646a22 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/Gaussian.hpp
@@ -1,4 +1,5 @@
 ﻿#pragma once
+#include <algorithm>
 #include <cmath>
 #include "ActivationFunction.hpp"
 
@@ -26,7 +27,8 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return -2 * x * std::exp(-powf(x, 2));
+            const float limitedX = std::clamp(x, -20.0f, 20.0f); // the derivative is 0 beyond, but -2 * x can overflow
+            return -2 * limitedX * std::exp(-powf(limitedX, 2));
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 0568c941fd90b0c418f8ff5b5e1b691a380b9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 45/61] fix: GELU announces its real minimum

---
 .../neural_network/layer/neuron/activation_function/GELU.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
index 6195b5e..156b943 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
@@ -15,7 +15,7 @@ namespace snn::internal
 
     public:
         GaussianErrorLinearUnit()
-            : ActivationFunction(0, std::numeric_limits<float>::infinity())
+            : ActivationFunction(-0.17f, std::numeric_limits<float>::infinity())
         {
         }
 
-- 
2.43.0


From 42c7650a7a78eeca4e8bd82046092457a88df4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 46/61] fix: exporting NaN or infinite outputs, inputs and
 weights to bitmaps converted them to an undefined color

---
 src/neural_network/NeuralNetworkVisualization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 046752c..72402fb 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -10,6 +10,8 @@ using namespace tools;
 inline
 unsigned char toColor(const float value)
 {
+    if (!isFinite(value))
+        return value > 0.0f ? 255 : 0;
     return static_cast<unsigned char>(clamp(value, 0.0f, 1.0f) * 255.0f);
 }
 
@@ -43,7 +45,8 @@ void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const st
                     for (int j = 0; j < shape[Y]; ++j)
                     {
                         int index = flatten(i, j, shape[X]);
-                        const unsigned char color = static_cast<unsigned char>(round((tanhf(weights[index] / 2.0f) + 1.0f) * 127.5f));
+                        const float level = round((tanhf(weights[index] / 2.0f) + 1.0f) * 127.5f);
+                        const auto color = static_cast<unsigned char>(isFinite(level) ? level : 0.0f);
                         image.set_pixel(x * (shape[X] + 1) + i, y * (shape[Y] + 1) + j, color, color, color);
                     }
                 }
-- 
2.43.0


From e614257b5d962d5e5ca8edc570bc53caaf089bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 47/61] fix: two networks with a different number of trainings
 are different

---
 src/neural_network/NeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 7356ac5..fd34061 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -206,6 +206,7 @@ int NeuralNetwork::isValid() const
 bool NeuralNetwork::operator==(const NeuralNetwork& neuralNetwork) const
 {
     return *this->optimizer == *neuralNetwork.optimizer
+        && this->numberOfTraining == neuralNetwork.numberOfTraining
         && this->layers.size() == neuralNetwork.layers.size()
         && [this, &neuralNetwork]()
         {
-- 
2.43.0


From d64cc22eb1a46f4b01972bfb721cd5c142891d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 48/61] fix: keep criteria of value 0 when criteria of waitFor
 are combined

---
 src/neural_network/Wait.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index b691389..f7ed8b6 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
@@ -44,7 +44,7 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.mae > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
-- 
2.43.0


From 34f3922510e8c96e91712038f7066b4efd5ece5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 49/61] fix: let an accuracy of 0 satisfy the criterion 0_acc

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f7ed8b6..250e935 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -66,7 +66,7 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
-    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
+    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
     const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
-- 
2.43.0


From f8537e819330ae5f7fe9d34ebe01a378a497edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 50/61] fix: do not empty the vectors of the caller when data
 of sequences are built

---
 src/data/Data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 74ea1eb..45c43c4 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -176,7 +176,7 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     {
         if (v.empty())
             throw runtime_error("A sequence cannot be empty.");
-        ranges::move(v, back_inserter(this->sets[set].inputs));
+        ranges::copy(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
         i += v.size();
@@ -205,7 +205,7 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     {
         if (v.empty())
             throw runtime_error("A sequence cannot be empty.");
-        ranges::move(v, back_inserter(this->sets[training].inputs));
+        ranges::copy(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
         this->sets[testing].areFirstDataOfTemporalSequence[i] = true;
-- 
2.43.0


From 3a51e09c8a589245bd2ba2ae0cdd53615aeeabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 51/61] fix: very long durations and numbers of epochs do not
 overflow

---
 include/snn/neural_network/Wait.hpp |  3 ++-
 src/neural_network/Wait.cpp         | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 2b26d10..77994a8 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <chrono>
+#include <cstdint>
 
 namespace snn
 {
@@ -15,7 +16,7 @@ namespace snn
         int epochs = -1;
         float accuracy = -1;
         float mae = -1;
-        int duration = -1;
+        int64_t duration = -1; // in milliseconds
         std::chrono::time_point<std::chrono::system_clock> start;
         std::chrono::time_point<std::chrono::system_clock> lastReset;
         std::chrono::time_point<std::chrono::system_clock> lastTick;
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 250e935..4419006 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 #include "Wait.hpp"
 
@@ -63,7 +64,7 @@ void Wait::startClock()
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
+    const auto currentDuration = duration_cast<milliseconds>(system_clock::now() - this->start).count();
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
@@ -110,10 +111,17 @@ float Wait::getDurationAndReset()
     return currentDuration / 1000.0f;
 }
 
+// The largest value when the result is not representable, so that a very long wait does not become negative or short.
+template <typename T>
+static T saturatedMultiply(unsigned long long value, T factor)
+{
+    return static_cast<T>(min(value, static_cast<unsigned long long>(numeric_limits<T>::max() / factor))) * factor;
+}
+
 Wait snn::operator""_ep(unsigned long long value)
 {
     Wait res;
-    res.epochs = (int)value;
+    res.epochs = saturatedMultiply<int>(value, 1);
     return res;
 }
 
@@ -134,20 +142,20 @@ Wait snn::operator""_mae(long double value)
 Wait snn::operator""_ms(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value;
+    res.duration = saturatedMultiply<int64_t>(value, 1);
     return res;
 }
 
 Wait snn::operator""_s(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000;
+    res.duration = saturatedMultiply<int64_t>(value, 1000);
     return res;
 }
 
 Wait snn::operator""_min(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000 * 60;
+    res.duration = saturatedMultiply<int64_t>(value, 1000 * 60);
     return res;
 }
-- 
2.43.0


From 2910cecf54960ed86fe982e489fb35b93e5134d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 52/61] fix: durations do not depend on the date of the system

---
 include/snn/neural_network/Wait.hpp |  6 +++---
 src/neural_network/Wait.cpp         | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 77994a8..121d601 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -17,9 +17,9 @@ namespace snn
         float accuracy = -1;
         float mae = -1;
         int64_t duration = -1; // in milliseconds
-        std::chrono::time_point<std::chrono::system_clock> start;
-        std::chrono::time_point<std::chrono::system_clock> lastReset;
-        std::chrono::time_point<std::chrono::system_clock> lastTick;
+        std::chrono::time_point<std::chrono::steady_clock> start;
+        std::chrono::time_point<std::chrono::steady_clock> lastReset;
+        std::chrono::time_point<std::chrono::steady_clock> lastTick;
         waitOperator op = waitOperator::noneOp;
         Wait& operator||(const Wait& wait);
         Wait& operator&&(const Wait& wait);
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 4419006..2c63594 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -57,14 +57,14 @@ Wait& Wait::operator&&(const Wait& wait)
 
 void Wait::startClock()
 {
-    this->start = system_clock::now();
+    this->start = steady_clock::now();
     this->lastTick = this->start;
     this->lastReset = this->start;
 }
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const auto currentDuration = duration_cast<milliseconds>(system_clock::now() - this->start).count();
+    const auto currentDuration = duration_cast<milliseconds>(steady_clock::now() - this->start).count();
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
@@ -89,14 +89,14 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
 int Wait::tick()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto tickDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastTick).count());
     return tickDuration;
 }
 
 float Wait::getDuration()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     return currentDuration / 1000.0f;
@@ -104,7 +104,7 @@ float Wait::getDuration()
 
 float Wait::getDurationAndReset()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     this->lastReset = now;
-- 
2.43.0


From 7be3d74f48c98f8734604e1bc25695fff25c4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 53/61] fix: scores of many data or large outputs are computed
 in double precision

---
 .../snn/neural_network/StatisticAnalysis.hpp  | 16 ++++-----
 src/neural_network/StatisticAnalysis.cpp      | 36 ++++++++++---------
 .../StraightforwardNeuralNetwork.cpp          | 16 +++++++--
 3 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 645f093..9aa4492 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -7,12 +7,12 @@ namespace snn::internal
 {
     struct binaryClassification
     {
-        float truePositive{};
-        float trueNegative{};
-        float falsePositive{};
-        float falseNegative{};
-        float totalError{};
-        float totalSquaredError{};
+        double truePositive{};
+        double trueNegative{};
+        double falsePositive{};
+        double falseNegative{};
+        double totalError{};
+        double totalSquaredError{};
 
         bool operator==(const binaryClassification&) const
         {
@@ -37,8 +37,8 @@ namespace snn::internal
         void serialize(Archive& ar, unsigned version);
 
         std::vector<binaryClassification> clusters;
-        float numberOfDataWellClassified;
-        float numberOfDataMisclassified;
+        double numberOfDataWellClassified;
+        double numberOfDataMisclassified;
 
         tools::Atomic<float> globalClusteringRate = -1.0f;
         tools::Atomic<float> weightedClusteringRate = -1.0f;
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index d660f8f..8c6e1ac 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -107,8 +107,9 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
-        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
+        const double error = static_cast<double>(desiredOutputs[i]) - outputs[i];
+        clusters[i].totalError += std::abs(error);
+        clusters[i].totalSquaredError += error * error;
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -142,8 +143,9 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
-        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
+        const double error = static_cast<double>(desiredOutputs[i]) - outputs[i];
+        clusters[i].totalError += std::abs(error);
+        clusters[i].totalSquaredError += error * error;
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -165,8 +167,9 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += std::abs(1 - outputs[i]);
-            clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
+            const double error = 1.0 - outputs[i];
+            clusters[i].totalError += std::abs(error);
+            clusters[i].totalSquaredError += error * error;
 
             if (outputs[i] > separator)
             {
@@ -179,8 +182,9 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += std::abs(0 - outputs[i]);
-            clusters[i].totalSquaredError += outputs[i] * outputs[i];
+            const double error = outputs[i];
+            clusters[i].totalError += std::abs(error);
+            clusters[i].totalSquaredError += error * error;
 
             if (outputs[i] > separator)
             {
@@ -205,7 +209,7 @@ float StatisticAnalysis::computeGlobalClusteringRate() const
 
 float StatisticAnalysis::computeWeightedClusteringRate() const
 {
-    float result = 0;
+    double result = 0;
     for (const auto& c : clusters)
     {
         if (c.truePositive > 0)
@@ -216,22 +220,22 @@ float StatisticAnalysis::computeWeightedClusteringRate() const
 
 float StatisticAnalysis::computeF1Score() const
 {
-    float result = 0;
+    double result = 0;
     for (const auto& c : clusters)
     {
         if (c.truePositive > 0)
         {
-            const float precision = c.truePositive / (c.truePositive + c.falsePositive);
-            const float recall = c.truePositive / (c.truePositive + c.falseNegative);
+            const double precision = c.truePositive / (c.truePositive + c.falsePositive);
+            const double recall = c.truePositive / (c.truePositive + c.falseNegative);
             result += (precision * recall) / (precision + recall);
         }
     }
-    return 2.0f * result / clusters.size();
+    return 2.0 * result / clusters.size();
 }
 
 float StatisticAnalysis::computeMeanAbsoluteError() const
 {
-    float totalError = 0;
+    double totalError = 0;
     for (const auto& c : clusters)
     {
         totalError += c.totalError;
@@ -241,12 +245,12 @@ float StatisticAnalysis::computeMeanAbsoluteError() const
 
 float StatisticAnalysis::computeRootMeanSquaredError() const
 {
-    float totalError = 0;
+    double totalError = 0;
     for (const auto& c : clusters)
     {
         totalError += c.totalSquaredError;
     }
-    const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
+    const double meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
 }
 
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 24b2a29..2e2852d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -23,6 +23,18 @@ namespace
     {
     protected:
         iter_type do_get(iter_type it, iter_type end, ios_base& str, ios_base::iostate& err, float& value) const override
+        {
+            return this->read(it, end, str, err, value);
+        }
+
+        iter_type do_get(iter_type it, iter_type end, ios_base& str, ios_base::iostate& err, double& value) const override
+        {
+            return this->read(it, end, str, err, value);
+        }
+
+    private:
+        template <typename T>
+        iter_type read(iter_type it, iter_type end, ios_base& str, ios_base::iostate& err, T& value) const
         {
             bool isNegative = false;
             if (it != end && (*it == '-' || *it == '+'))
@@ -36,9 +48,9 @@ namespace
                 for (; it != end && *it >= 'a' && *it <= 'z'; ++it)
                     word += *it;
                 if (word == "nan")
-                    value = numeric_limits<float>::quiet_NaN();
+                    value = numeric_limits<T>::quiet_NaN();
                 else if (word == "inf")
-                    value = numeric_limits<float>::infinity();
+                    value = numeric_limits<T>::infinity();
                 else
                     err |= ios_base::failbit;
             }
-- 
2.43.0


From 564f035735e22893dd43fc00d080637c6f847ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 54/61] fix: a loaded neural network still reports the NaN of
 the saved one

---
 include/snn/neural_network/NeuralNetwork.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index a58f96f..6d8c2b4 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -98,8 +98,11 @@ namespace snn::internal
         if (version >= 1) {
             tools::Atomic<int64_t>::serialize(ar, this->numberOfTraining);
         }
+        if (version >= 2) {
+            tools::Atomic<bool>::serialize(ar, this->outputNan);
+        }
         ar & this->layers;
         ar & this->optimizer;
     }
 }
-BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 1)
+BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 2)
-- 
2.43.0


From c9b817c54a93067a86a4cc72907f868b8d48503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:32 +0000
Subject: [PATCH 55/61] fix: the file of a neural network does not depend on
 the locale of the program

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 2e2852d..9b130db 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -375,6 +375,7 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
     this->autoSaveFilePath = filePath;
     ofstream ofs(filePath);
+    ofs.imbue(locale::classic()); // The file does not depend on the locale of the program.
     boost::archive::text_oarchive archive(ofs);
     archive << this;
     if (!ofs.flush())
@@ -386,7 +387,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
-    ifs.imbue(locale(ifs.getloc(), new NonFiniteReader));
+    ifs.imbue(locale(locale::classic(), new NonFiniteReader));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     // An auto save is written during the training, but the loaded neural network is not training.
-- 
2.43.0


From 083227da5d5011316bd6ab3ac3552612ed2e615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 56/61] fix: the number of trainings between two evaluations is
 limited to the training data

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9b130db..cb4045b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -163,7 +163,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     for (this->epoch = 1; !isStopped && this->continueTraining(wait); this->epoch++)
     {
         data.shuffle();
-        for (this->index = 0; index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations; this->index += batchSize)
+        for (this->index = 0; index + batchSize <= min<int>(this->numberOfTrainingsBetweenTwoEvaluations, data.sets[training].size); this->index += batchSize)
         {
             isStopped = !this->continueTraining(wait);
             if (isStopped)
-- 
2.43.0


From 52fcb1c5c7755ded0a40c7cff552f1a964a62f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 57/61] hook: SNN_VERBOSE chooses the log level

---
 include/snn/tools/Tools.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index d30afa9..39c6a5e 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -24,7 +24,11 @@ namespace snn
         complete = 2
     };
 
+#ifdef SNN_VERBOSE
+    static constexpr logLevel verbose = SNN_VERBOSE;
+#else
     static constexpr logLevel verbose = none;
+#endif
 }
 
 namespace snn::internal
-- 
2.43.0


From ccce2ca3540acc45734d874a3fd323619df6bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:06 +0000
Subject: [PATCH 58/61] fix: networks can be static objects

The table of the activation functions was a static object of its own file,
so that a network which is a static object too could be built before it
and read an empty vector. It is now initialized at its first use.
---
 .../layer/neuron/activation_function/ActivationFunction.hpp   | 2 --
 .../layer/neuron/activation_function/ActivationFunction.cpp   | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ActivationFunction.hpp b/include/snn/neural_network/layer/neuron/activation_function/ActivationFunction.hpp
index 2e68aca..c55ba57 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ActivationFunction.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ActivationFunction.hpp
@@ -25,8 +25,6 @@ namespace snn::internal
         template <class Archive>
         void serialize(Archive& ar, unsigned version);
 
-        static std::vector<std::shared_ptr<ActivationFunction>> activationFunctions;
-
     public:
         const float min;
         const float max;
diff --git a/src/neural_network/layer/neuron/activation_function/ActivationFunction.cpp b/src/neural_network/layer/neuron/activation_function/ActivationFunction.cpp
index e214b3b..adaec6c 100644
--- a/src/neural_network/layer/neuron/activation_function/ActivationFunction.cpp
+++ b/src/neural_network/layer/neuron/activation_function/ActivationFunction.cpp
@@ -12,8 +12,6 @@ using namespace std;
 using namespace snn;
 using namespace internal;
 
-vector<shared_ptr<ActivationFunction>> ActivationFunction::activationFunctions = initialize();
-
 inline
 vector<shared_ptr<ActivationFunction>> ActivationFunction::initialize()
 {
@@ -36,6 +34,8 @@ ActivationFunction::ActivationFunction(float min, float max)
 
 shared_ptr<ActivationFunction> ActivationFunction::get(activation type)
 {
+    // Initialized at the first use, because a network can be a static object that is built before those of this file.
+    static const auto activationFunctions = initialize();
     switch (type)
     {
     case activation::sigmoid:
-- 
2.43.0


From 0e8b5f3b5131dd91a79ffe415427e28ea0ce47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:58 +0000
Subject: [PATCH 59/61] fix: a failed save does not change the path of the auto
 save

saveAs set the path before it wrote the file, so that after a save that
threw the next auto save went to the same impossible place.
---
 .../StraightforwardNeuralNetwork.cpp          | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index cb4045b..013f520 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -373,13 +373,22 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
+    const string previousFilePath = this->autoSaveFilePath;
     this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
-    ofs.imbue(locale::classic()); // The file does not depend on the locale of the program.
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
-    if (!ofs.flush())
-        throw runtime_error("Neural network cannot be saved in the file " + filePath);
+    try
+    {
+        ofstream ofs(filePath);
+        ofs.imbue(locale::classic()); // The file does not depend on the locale of the program.
+        boost::archive::text_oarchive archive(ofs);
+        archive << this;
+        if (!ofs.flush())
+            throw runtime_error("Neural network cannot be saved in the file " + filePath);
+    }
+    catch (...)
+    {
+        this->autoSaveFilePath = previousFilePath; // The next auto save does not go to a file that cannot be written.
+        throw;
+    }
 }
 
 
-- 
2.43.0


From cf0140df8edbc5402f6563a4169540e170dd2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:08 +0000
Subject: [PATCH 60/61] fix: combining criteria does not change them

w || 1_s and w && 1_s changed w, so that a criterion kept in a variable
and used in others was no longer the one that was written.
---
 include/snn/neural_network/Wait.hpp |  8 ++++++--
 src/neural_network/Wait.cpp         | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 121d601..9cd172c 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -21,13 +21,17 @@ namespace snn
         std::chrono::time_point<std::chrono::steady_clock> lastReset;
         std::chrono::time_point<std::chrono::steady_clock> lastTick;
         waitOperator op = waitOperator::noneOp;
-        Wait& operator||(const Wait& wait);
-        Wait& operator&&(const Wait& wait);
+        Wait operator||(const Wait& wait) const;
+        Wait operator&&(const Wait& wait) const;
         void startClock();
         [[nodiscard]] bool isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const;
         [[nodiscard]] int tick(); // Time since last tick in milliseconds
         [[nodiscard]] float getDuration();
         [[nodiscard]] float getDurationAndReset();
+
+    private:
+        Wait& addOr(const Wait& wait);
+        Wait& addAnd(const Wait& wait);
     };
 
     extern Wait operator""_ep(unsigned long long value);
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 2c63594..0babb11 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -8,7 +8,17 @@ using namespace chrono;
 using namespace snn;
 
 
-Wait& Wait::operator||(const Wait& wait)
+Wait Wait::operator||(const Wait& wait) const
+{
+    return Wait(*this).addOr(wait);
+}
+
+Wait Wait::operator&&(const Wait& wait) const
+{
+    return Wait(*this).addAnd(wait);
+}
+
+Wait& Wait::addOr(const Wait& wait)
 {
     if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
@@ -35,7 +45,7 @@ Wait& Wait::operator||(const Wait& wait)
     return *this;
 }
 
-Wait& Wait::operator&&(const Wait& wait)
+Wait& Wait::addAnd(const Wait& wait)
 {
     if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
-- 
2.43.0


From 5d4d32c74dccc1a1e147332d587aa20ab956a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:34 +0000
Subject: [PATCH 61/61] fix: waiting for a training that another thread stops
 ends

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 013f520..179457c 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -301,10 +301,15 @@ bool StraightforwardNeuralNetwork::continueTraining(Wait wait) const
 void StraightforwardNeuralNetwork::waitFor(Wait wait) const
 {
     wait.startClock();
+    const bool wasTraining = this->isTraining();
     while (!this->hasNan())
     {
         this_thread::sleep_for(1ms);
 
+        // A training that ended, for example because another thread stopped it, will not meet the criteria any more.
+        if (wasTraining && !this->isTraining())
+            break;
+
         const auto epochs = this->getCurrentEpoch();
         const auto accuracy = this->getGlobalClusteringRate();
         const auto mae = this->getMeanAbsoluteError();
-- 
2.43.0

