// Draws samples via the interfaces of the library. Reads a test case from the standard input and writes one line per sample.
#include "mlrl/common/data/view_matrix_c_contiguous.hpp"
#include "mlrl/common/data/view_matrix_csr_binary.hpp"
#include "mlrl/common/indices/index_vector.hpp"
#include "mlrl/common/input/feature_matrix.hpp"
#include "mlrl/common/input/output_matrix.hpp"
#include "mlrl/common/random/rng.hpp"
#include "mlrl/common/sampling/feature_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/feature_sampling_no.hpp"
#include "mlrl/common/sampling/instance_sampling_no.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_example_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_with_replacement.hpp"
#include "mlrl/common/sampling/instance_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/output_sampling_no.hpp"
#include "mlrl/common/sampling/output_sampling_round_robin.hpp"
#include "mlrl/common/sampling/output_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_random.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_example_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_output_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_no.hpp"
#include "mlrl/common/sampling/partition_single.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/sampling/weight_vector_equal.hpp"

#include <iostream>
#include <set>
#include <string>
#include <vector>

struct Features : public IFeatureMatrix {
        uint32 n, d;

        bool isSparse() const override {
            return false;
        }

        uint32 getNumExamples() const override {
            return n;
        }

        uint32 getNumFeatures() const override {
            return d;
        }
};

struct Outputs : public IOutputMatrix {
        uint32 n, m;

        bool isSparse() const override {
            return false;
        }

        uint32 getNumExamples() const override {
            return n;
        }

        uint32 getNumOutputs() const override {
            return m;
        }
};

static void print(const IWeightVector& w, uint32 n) {
    if (auto* v = dynamic_cast<const BitWeightVector*>(&w)) {
        std::cout << v->getNumNonZeroWeights() << " " << v->hasZeroWeights();
        for (uint32 i = 0; i < n; i++) std::cout << " " << (*v)[i];
    } else if (auto* v = dynamic_cast<const DenseWeightVector<uint32>*>(&w)) {
        std::cout << v->getNumNonZeroWeights() << " " << v->hasZeroWeights();
        for (uint32 i = 0; i < n; i++) std::cout << " " << (*v)[i];
    } else if (auto* v = dynamic_cast<const EqualWeightVector*>(&w)) {
        std::cout << v->getNumNonZeroWeights() << " " << v->hasZeroWeights();
        for (uint32 i = 0; i < n; i++) std::cout << " " << (*v)[i];
    } else {
        std::cout << "unknown";
    }
    std::cout << "\n";
}

static void print(const IIndexVector& v) {
    std::cout << v.getNumElements();
    for (uint32 i = 0; i < v.getNumElements(); i++) std::cout << " " << v.getIndex(i);
    std::cout << "\n";
}

static void print(IPartition& p) {
    if (auto* b = dynamic_cast<BiPartition*>(&p)) {
        std::cout << b->getNumFirst() << " " << b->getNumSecond();
        for (auto it = b->first_cbegin(); it != b->first_cend(); it++) std::cout << " " << *it;
        for (auto it = b->second_cbegin(); it != b->second_cend(); it++) std::cout << " " << *it;
    } else if (auto* s = dynamic_cast<SinglePartition*>(&p)) {
        std::cout << s->getNumElements() << " " << 0;
        for (auto it = s->cbegin(); it != s->cend(); it++) std::cout << " " << *it;
    }
    std::cout << "\n";
}

int main() {
    std::string kind;
    uint32 seed, draws, n, m, minSamples, maxSamples, retained, sparse, numFirst, again;
    float32 sampleSize;
    std::cin >> kind >> seed >> draws >> n >> m >> sampleSize >> minSamples >> maxSamples >> retained >> sparse >> again >> numFirst;
    std::vector<uint32> first(numFirst);
    for (auto& v : first) std::cin >> v;
    std::vector<uint8> y(kind == "rng" ? 0 : n * m);
    for (auto& v : y) {
        uint32 i;
        std::cin >> i;
        v = i;
    }

    if (!std::cin) return 3;
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> property([&rng]() -> RNGConfig& {
        return rng;
    });

    if (kind == "rng") {
        // a sequence of random numbers in [n, m), or of random bits if m is zero
        auto ptr = rng.createRNGFactory()->create();
        for (uint32 i = 0; i < draws; i++) std::cout << (m ? ptr->randomInt(n, m) : (uint32) ptr->randomBool()) << "\n";
        return 0;
    }

    std::vector<uint32> indices, indptr(1, 0);
    for (uint32 i = 0; i < n; i++) {
        for (uint32 j = 0; j < m; j++) {
            if (y[i * m + j]) indices.push_back(j);
        }
        indptr.push_back(indices.size());
    }
    // the vectors must not be empty
    indices.push_back(0);
    y.push_back(0);
    CContiguousView<const uint8> dense(y.data(), n, m);
    BinaryCsrView csr(indices.data(), indptr.data(), n, m);

    if (kind.rfind("part-", 0) == 0) {
        std::unique_ptr<IClassificationPartitionSamplingConfig> config;
        if (kind == "part-random") {
            auto c = std::make_unique<RandomBiPartitionSamplingConfig>(property);
            c->setHoldoutSetSize(sampleSize);
            config = std::move(c);
        } else if (kind == "part-output-wise") {
            auto c = std::make_unique<OutputWiseStratifiedBiPartitionSamplingConfig>(property);
            c->setHoldoutSetSize(sampleSize);
            config = std::move(c);
        } else if (kind == "part-example-wise") {
            auto c = std::make_unique<ExampleWiseStratifiedBiPartitionSamplingConfig>(property);
            c->setHoldoutSetSize(sampleSize);
            config = std::move(c);
        } else {
            config = std::make_unique<NoPartitionSamplingConfig>();
        }
        auto factory = config->createClassificationPartitionSamplingFactory();
        auto sampling = sparse ? factory->create(csr) : factory->create(dense);
        for (uint32 i = 0; i < draws; i++) {
            if (again && i > 0) sampling = sparse ? factory->create(csr) : factory->create(dense);
            print(sampling->partition());
        }
        return 0;
    }

    if (kind.rfind("inst-", 0) == 0) {
        std::unique_ptr<IClassificationInstanceSamplingConfig> config;
        auto set = [&](auto& c) {
            c.setMinSamples(minSamples);
            c.setMaxSamples(maxSamples);
            c.setSampleSize(sampleSize);
        };
        if (kind == "inst-with-replacement") {
            auto c = std::make_unique<InstanceSamplingWithReplacementConfig>(property);
            set(*c);
            config = std::move(c);
        } else if (kind == "inst-without-replacement") {
            auto c = std::make_unique<InstanceSamplingWithoutReplacementConfig>(property);
            set(*c);
            config = std::move(c);
        } else if (kind == "inst-output-wise") {
            auto c = std::make_unique<OutputWiseStratifiedInstanceSamplingConfig>(property);
            set(*c);
            config = std::move(c);
        } else if (kind == "inst-example-wise") {
            auto c = std::make_unique<ExampleWiseStratifiedInstanceSamplingConfig>(property);
            set(*c);
            config = std::move(c);
        } else {
            config = std::make_unique<NoInstanceSamplingConfig>();
        }
        auto factory = config->createClassificationInstanceSamplingFactory();
        std::unique_ptr<IInstanceSampling> sampling;
        // none of the methods makes use of statistics
        alignas(16) static char memory[4096];
        IStatistics& statistics = *reinterpret_cast<IStatistics*>(memory);
        SinglePartition single(n);
        std::unique_ptr<BiPartition> bi;
        if (numFirst > 0) {
            std::set<uint32> s(first.begin(), first.end());
            bi = std::make_unique<BiPartition>(numFirst, n - numFirst);
            std::copy(first.begin(), first.end(), bi->first_begin());
            auto it = bi->second_begin();
            for (uint32 i = 0; i < n; i++) {
                if (!s.count(i)) *(it++) = i;
            }
            sampling = sparse ? factory->create(csr, *bi, statistics) : factory->create(dense, *bi, statistics);
        } else {
            sampling = sparse ? factory->create(csr, single, statistics) : factory->create(dense, single, statistics);
        }
        for (uint32 i = 0; i < draws; i++) print(sampling->sample(), n);
        return 0;
    }

    if (kind.rfind("feat-", 0) == 0) {
        Features f;
        f.n = 1;
        f.d = n;
        std::unique_ptr<IFeatureSamplingConfig> config;
        if (kind == "feat-without-replacement") {
            auto c = std::make_unique<FeatureSamplingWithoutReplacementConfig>(property);
            c->setMinSamples(minSamples);
            c->setMaxSamples(maxSamples);
            c->setSampleSize(sampleSize);
            c->setNumRetained(retained);
            config = std::move(c);
        } else {
            config = std::make_unique<NoFeatureSamplingConfig>();
        }
        auto sampling = config->createFeatureSamplingFactory(f)->create();
        for (uint32 i = 0; i < draws; i++) {
            if (again == 0) {
                print(sampling->sample());
            } else {
                auto beam = sampling->createBeamSearchFeatureSampling(again == 2);
                print(beam->sample());
                print(beam->sample());
            }
        }
        return 0;
    }

    if (kind.rfind("out-", 0) == 0) {
        Outputs o;
        o.n = 1;
        o.m = n;
        std::unique_ptr<IOutputSamplingConfig> config;
        if (kind == "out-without-replacement") {
            auto c = std::make_unique<OutputSamplingWithoutReplacementConfig>(property);
            c->setMinSamples(minSamples);
            c->setMaxSamples(maxSamples);
            c->setSampleSize(sampleSize);
            config = std::move(c);
        } else if (kind == "out-round-robin") {
            config = std::make_unique<RoundRobinOutputSamplingConfig>();
        } else {
            config = std::make_unique<NoOutputSamplingConfig>();
        }
        auto sampling = config->createOutputSamplingFactory(o)->create();
        for (uint32 i = 0; i < draws; i++) print(sampling->sample());
        return 0;
    }
    return 4;
}
