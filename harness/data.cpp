// C18: normalization. C19: inconsistent data are rejected before they are used
#define VH_MAIN
#include "gen.hpp"
using namespace gen;

namespace
{
    constexpr double eps = 1.1920929e-7;

    float magnitude(Rng& r)
    {
        const double e = r.chance(0.7) ? r.uniform(-3, 4) : r.chance(0.5) ? r.uniform(-30, 30) : r.uniform(-44, 37.5f);
        return static_cast<float>(std::pow(10.0, e) * (r.chance(0.5) ? 1 : -1));
    }

    // the values of one feature
    void feature(Rng& r, vector<vector<float>>& rows, vector<vector<float>>& tests, size_t j)
    {
        const int kind = r.below(8);
        const float base = r.chance(0.4) ? 0.0f : magnitude(r), scale = std::abs(magnitude(r));
        auto value = [&](size_t i) -> float {
            switch (kind)
            {
            case 0: return base;                                             // constant
            case 1: return static_cast<float>(r.range(-3, 3)) * scale;       // ties
            case 2: return base + static_cast<float>(i) * scale;             // increasing
            case 3: return base - static_cast<float>(i) * scale;             // decreasing
            case 4: return i == 0 ? base + scale : base;                     // first outlier
            case 5: return base + scale * r.uniform(-1, 1);
            case 6: { auto b = vh::bitsOf(base) + static_cast<uint32_t>(r.below(4)); float f; std::memcpy(&f, &b, 4); return f; } // neighbours
            default: return i + 1 == rows.size() ? base - scale : base + scale * static_cast<float>(r.unit());
            }
        };
        for (size_t i = 0; i < rows.size(); ++i) rows[i][j] = value(i);
        for (auto& t : tests) t[j] = r.chance(0.5) ? r.pick(rows)[j] : r.chance(0.5) ? value(static_cast<size_t>(r.below(40))) : r.pick(rows)[j] + scale * r.uniform(-2, 2);
        for (auto* set : {&rows, &tests}) for (auto& v : *set) if (!vh::finiteBits(v[j])) v[j] = base;
    }

    struct Flat { vector<vector<float>> in, out, inT, outT; };
}

static void normalizeCase(vh::Ctx& c)
{
    auto& r = c.rng;
    const int nIn = r.sized(1, 9, 70), nOut = r.range(2, 3);
    DataSpec s = gen::data(r, nIn, nOut, r.chance(0.8) ? 12 : 60);
    const bool same = r.chance(0.35); // the same set for training and testing
    if (same) { s.inT = s.in; s.outT = s.out; s.lengthsT = s.lengths; }
    for (size_t j = 0; j < static_cast<size_t>(nIn); ++j) feature(r, s.in, s.inT, j);
    if (same) s.inT = s.in;
    std::unique_ptr<Data> d;
    auto a = s.in, b = s.out, a2 = s.inT, b2 = s.outT;
    if (!same) d = s.make();
    else if (s.n == nature::sequential) { auto q = DataSpec::split(s.in, s.lengths); d = std::make_unique<Data>(s.p, q, b, s.n); }
    else d = std::make_unique<Data>(s.p, a, b, s.n, s.recurrences);
    if (r.chance(0.3)) vh::runThread(r.next(), [&] { d->shuffle(); });
    const auto order = d->sets[snn::training].shuffledIndexes;
    const auto starts = d->sets[snn::training].areFirstDataOfTemporalSequence, startsT = d->sets[snn::testing].areFirstDataOfTemporalSequence;
    const auto learn = d->sets[snn::training].needToTrainOnData;
    const auto evals = d->sets[snn::testing].needToEvaluateOnData;
    const int times = r.pick(vector<int>{1, 1, 1, 2});
    for (int t = 0; t < times; ++t)
    {
        float lo, hi;
        switch (r.below(5))
        {
        case 0: lo = 0; hi = 1; break;
        case 1: lo = -1; hi = 1; break;
        case 2: lo = -magnitude(r); hi = lo + std::abs(lo); break;
        case 3: lo = hi = r.uniform(-3, 3); break;
        default: lo = r.uniform(-10, 10); hi = lo + r.uniform(0, 20);
        }
        if (!(std::abs(lo) < 1e30f && std::abs(hi) < 1e30f)) { lo = 0; hi = 1; }
        const auto oldIn = d->sets[snn::training].inputs, oldTest = d->sets[snn::testing].inputs;
        d->normalize(lo, hi);
        const auto& in = d->sets[snn::training].inputs;
        const auto& test = d->sets[snn::testing].inputs;
        const auto text = vh::str(s.str(), " to [", lo, "; ", hi, "]", same ? " same set" : "");
        if (in.size() != oldIn.size() || test.size() != oldTest.size() || d->sizeOfData != nIn) { c.fail("normalize-sizes", text); return; }
        for (auto* set : {&in, &test}) for (auto& v : *set) if (static_cast<int>(v.size()) != nIn) { c.fail("normalize-sizes", text); return; }
        for (size_t j = 0; j < static_cast<size_t>(nIn); ++j)
        {
            float mn = oldIn[0][j], mx = mn;
            for (auto& v : oldIn) { mn = std::min(mn, v[j]); mx = std::max(mx, v[j]); }
            const double diff = static_cast<double>(mx) - mn, range = static_cast<double>(hi) - lo;
            if (diff > 3.4e38) { c.count("spread not representable"); continue; }
            // a subnormal spread is treated as none by the processor in this mode
            const bool vanishing = diff != 0 && diff < 1.2e-38;
            if (vanishing) c.count("subnormal spreads");
            if (diff == 0) c.count("constant features");
            auto check = [&](const vector<vector<float>>& now, const vector<vector<float>>& old, const char* name) {
                for (size_t i = 0; i < now.size(); ++i)
                {
                    const double x = old[i][j];
                    const double u = diff != 0 ? (x - mn) / diff : x - mn;
                    const double y = u * range + lo;
                    const double bound = 8 * eps * (std::abs(u * range) + std::abs(static_cast<double>(lo)) + std::abs(y)) + 1e-37;
                    if (std::abs(x - mn) > 3e38 || std::abs(u) > 3e38 || std::abs(y) > 3e38 || std::abs(u * range) > 3e38) { c.count("values not representable"); continue; }
                    const float f = now[i][j];
                    if (!vh::finiteBits(f)) { c.fail("normalize-finite", vh::str(text, ": ", name, " data ", i, " feature ", j, ": ", x, " becomes ", f, " (training range ", mn, " to ", mx, ")")); return; }
                    if (vanishing) { if (now[i][j] < lo - bound && old[i][j] >= mn) c.fail("normalize-value", vh::str(text, ": ", f)); continue; }
                    if (!(std::abs(f - y) <= bound))
                    { c.fail("normalize-value", vh::str(text, ": ", name, " data ", i, " feature ", j, ": ", x, " becomes ", f, " instead of ", y, " (training range ", mn, " to ", mx, ")")); return; }
                    c.count("values compared");
                }
            };
            check(in, oldIn, "training");
            check(test, oldTest, "testing");
            if (c.failed()) return;
            // the range itself, and the order of the values
            if (!vanishing)
            {
                float nm = in[0][j], nx = nm;
                for (auto& v : in) { nm = std::min(nm, v[j]); nx = std::max(nx, v[j]); }
                const double tol = 2 * eps * (std::abs(static_cast<double>(lo)) + std::abs(static_cast<double>(hi))) + 1e-37;
                if (std::abs(nm - lo) > tol || std::abs(nx - (diff != 0 ? hi : lo)) > tol)
                { c.fail("normalize-range", vh::str(text, ": feature ", j, " goes from ", nm, " to ", nx)); return; }
                vector<std::pair<float, float>> pairs;
                for (size_t i = 0; i < in.size(); ++i) pairs.emplace_back(oldIn[i][j], in[i][j]);
                std::sort(pairs.begin(), pairs.end());
                for (size_t i = 1; i < pairs.size(); ++i)
                    if (pairs[i].second < pairs[i - 1].second || (pairs[i].first == pairs[i - 1].first && pairs[i].second != pairs[i - 1].second))
                    { c.fail("normalize-order", vh::str(text, ": feature ", j, ": ", pairs[i - 1].first, " and ", pairs[i].first, " become ", pairs[i - 1].second, " and ", pairs[i].second)); return; }
                c.count("features compared");
            }
        }
        if (d->sets[snn::training].labels != s.out || d->sets[snn::testing].labels != s.outT) { c.fail("normalize-labels", text); return; }
        if (d->sets[snn::training].shuffledIndexes != order || d->sets[snn::training].areFirstDataOfTemporalSequence != starts || d->sets[snn::testing].areFirstDataOfTemporalSequence != startsT
            || d->sets[snn::training].needToTrainOnData != learn || d->sets[snn::testing].needToEvaluateOnData != evals)
        { c.fail("normalize-order", text + ": order or sequences changed"); return; }
        for (size_t i = 0; i < in.size(); ++i)
            if (!vh::sameBits(d->getTrainingData(static_cast<int>(i)), in[static_cast<size_t>(order[i])])) { c.fail("normalize-order", text + ": another data is given"); return; }
        for (size_t i = 0; i < test.size(); ++i)
            if (!vh::sameBits(d->getTestingData(static_cast<int>(i)), test[i])) { c.fail("normalize-order", text + ": another testing data is given"); return; }
        c.nontrivial(vh::mix(vh::hashVec(in.back()) ^ vh::hashStr(text)));
        c.sample(text);
    }
}

// ------------------------------------------------------------------------------ construction
namespace
{
    struct Args
    {
        problem p;
        nature n;
        int recurrences = 0;
        bool is3D = false, same = false;
        vector<vector<vector<float>>> in, inT; // one element when not 3D
        vector<vector<float>> out, outT;
    };

    std::string verdict(const Args& a)
    {
        if (a.is3D && a.n != nature::sequential) return "sequences of another nature";
        if (!a.is3D && a.n == nature::sequential) return "sequential without sequences";
        if (a.n == nature::timeSeries && a.recurrences < 1) return "recurrences";
        for (int t = 0; t < (a.same ? 1 : 2); ++t)
            if (a.is3D) for (auto& s : t ? a.inT : a.in) if (s.empty()) return "empty sequence";
        vector<vector<float>> in[2];
        for (int t = 0; t < (a.same ? 1 : 2); ++t) for (auto& s : t ? a.inT : a.in) for (auto& v : s) in[t].push_back(v);
        if (in[0].empty() || a.out.empty()) return "no data";
        for (int t = 0; t < (a.same ? 1 : 2); ++t)
        {
            const auto& out = t ? a.outT : a.out;
            if (in[t].size() != out.size()) return "as many inputs as targets";
            for (auto& v : in[t]) if (v.size() != in[0].back().size()) return "inputs of different sizes";
            for (auto& v : out) if (v.size() != a.out.back().size()) return "targets of different sizes";
        }
        if (a.p == problem::classification && a.out.back().size() < 2) return "one class";
        return "";
    }

    std::string argText(const Args& a)
    {
        static const char* ps[] = {"classification", "multiple classification", "regression"};
        static const char* ns[] = {"non temporal", "sequential", "time series"};
        std::ostringstream s;
        s << ps[static_cast<int>(a.p)] << " " << ns[static_cast<int>(a.n)] << (a.is3D ? " 3D" : " 2D") << (a.same ? " one set" : " two sets") << " rec " << a.recurrences;
        for (int t = 0; t < (a.same ? 1 : 2); ++t)
        {
            s << (t ? " test (" : " train (");
            for (auto& q : t ? a.inT : a.in) { for (auto& v : q) s << v.size() << " "; s << "|"; }
            s << ")->(";
            for (auto& v : t ? a.outT : a.out) s << v.size() << " ";
            s << ")";
        }
        return s.str();
    }

    template <class V> void damageRows(Rng& r, V& rows)
    {
        if (rows.empty()) return;
        auto& v = rows[static_cast<size_t>(r.pick(vector<int>{0, static_cast<int>(rows.size()) - 1, r.below(static_cast<int>(rows.size()))}))];
        if (v.empty() || r.chance(0.5)) v.push_back(0.5f);
        else if (r.chance(0.3)) v.clear();
        else v.pop_back();
    }
}

static void construction(vh::Ctx& c)
{
    auto& r = c.rng;
    Args a;
    const int nIn = r.sized(1, 4, 40), nOut = r.sized(1, 4, 30);
    a.p = static_cast<problem>(r.below(3));
    a.is3D = r.chance(0.4);
    a.n = a.is3D ? (r.chance(0.9) ? nature::sequential : static_cast<nature>(r.below(3))) : (r.chance(0.9) ? r.pick(vector<nature>{nature::nonTemporal, nature::timeSeries}) : nature::sequential);
    a.same = r.chance(0.4);
    a.recurrences = a.n == nature::timeSeries ? (r.chance(0.9) ? r.range(1, 5) : r.pick(vector<int>{0, -1, -7, std::numeric_limits<int>::min()})) : 0;
    for (int t = 0; t < 2; ++t)
    {
        auto& in = t ? a.inT : a.in;
        auto& out = t ? a.outT : a.out;
        const int sequences = a.is3D ? r.sized(1, 5, 40) : 1;
        for (int q = 0; q < sequences; ++q)
        {
            in.emplace_back();
            for (int i = r.sized(1, a.is3D ? 4 : 12, 80, 0.01); i > 0; --i) { in.back().push_back(genInput(r, nIn)); out.push_back(target(r, a.p, nOut)); }
        }
    }
    for (int k = r.pick(vector<int>{0, 0, 1, 1, 1, 2}); k > 0; --k)
    {
        const bool t = r.chance(0.4);
        auto& in = t ? a.inT : a.in;
        auto& out = t ? a.outT : a.out;
        auto& seq = in[static_cast<size_t>(r.below(static_cast<int>(in.size())))];
        switch (r.below(9))
        {
        case 0: damageRows(r, seq); break;
        case 1: damageRows(r, out); break;
        case 2: if (!seq.empty()) { if (seq.size() > 1 || a.is3D) seq.pop_back(); } break; // one target more
        case 3: seq.push_back(genInput(r, nIn)); break;
        case 4: out.push_back(target(r, a.p, nOut)); break;
        case 5: if (out.size() > 1 || (!t && !out.empty())) out.pop_back(); break;
        case 6: if (a.is3D) in.insert(in.begin() + r.below(static_cast<int>(in.size()) + 1), vector<vector<float>>{}); break; // empty sequence
        case 7: if (!t) { a.in.assign(a.is3D ? 0 : 1, {}); if (r.chance(0.5)) a.out.clear(); k = 0; } break;
        default: if (!t) { a.out.clear(); }
        }
        if (a.in.empty() || a.inT.empty()) break;
    }
    if (!a.same && (a.inT.empty() || a.outT.empty() || (!a.is3D && a.inT[0].empty()))) { c.count("no testing data"); return; }
    const auto why = verdict(a);
    const auto text = argText(a);
    auto in = a.in, inT = a.inT;
    auto out = a.out, outT = a.outT;
    vector<vector<float>> flat = a.is3D || a.in.empty() ? vector<vector<float>>{} : a.in[0], flatT = a.is3D || a.inT.empty() ? vector<vector<float>>{} : a.inT[0];
    const auto flat0 = flat, flatT0 = flatT;
    std::unique_ptr<Data> d;
    std::string what;
    const bool thrown = vh::throws([&] {
        if (a.is3D) d = a.same ? std::make_unique<Data>(a.p, in, out, a.n, a.recurrences) : std::make_unique<Data>(a.p, in, out, inT, outT, a.n, a.recurrences);
        else d = a.same ? std::make_unique<Data>(a.p, flat, out, a.n, a.recurrences) : std::make_unique<Data>(a.p, flat, out, flatT, outT, a.n, a.recurrences);
    }, &what);
    c.nontrivial(vh::hashStr(text));
    c.sample(text + (why.empty() ? " accepted" : " rejected: " + why));
    if (!why.empty())
    {
        if (!thrown) c.fail("data-accepted", vh::str(text, " is accepted although: ", why));
        c.count("data rejected");
        c.count("rejected: " + why);
        return;
    }
    if (thrown) { c.fail("data-rejected", vh::str(text, " is rejected: ", what)); return; }
    c.count("data accepted");
    const auto unchanged = [&] { return out == a.out && outT == a.outT && flat == flat0 && flatT == flatT0 && in == a.in && inT == a.inT; };
    if (!unchanged()) { c.fail("data-changed", text + ": the data of the caller are changed"); return; }
    if (r.chance(0.3))
    {
        // the same vectors can be used for other data, and for both sets
        std::unique_ptr<Data> e;
        const bool both = a.same || r.chance(0.3);
        if (vh::throws([&] {
            if (a.is3D) e = both ? std::make_unique<Data>(a.p, in, out, in, out, a.n, a.recurrences) : std::make_unique<Data>(a.p, in, out, inT, outT, a.n, a.recurrences);
            else e = both ? std::make_unique<Data>(a.p, flat, out, flat, out, a.n, a.recurrences) : std::make_unique<Data>(a.p, flat, out, flatT, outT, a.n, a.recurrences);
        }, &what)) { c.fail("data-rejected", vh::str(text, both ? ": the same vectors for both sets are rejected: " : ": a second time is rejected: ", what)); return; }
        bool ok = e->sizeOfData == d->sizeOfData && e->numberOfLabels == d->numberOfLabels && e->sets[snn::training].inputs == d->sets[snn::training].inputs && e->sets[snn::training].labels == d->sets[snn::training].labels;
        ok = ok && e->sets[snn::testing].inputs == d->sets[both && !a.same ? snn::training : snn::testing].inputs && e->sets[snn::testing].size == static_cast<int>(e->sets[snn::testing].inputs.size());
        if (!ok) { c.fail("data-content", text + (both ? ": the same vectors for both sets" : ": built a second time")); return; }
        e->normalize(-1, 1);
        e->shuffle();
        if (!unchanged()) { c.fail("data-changed", text + ": the data of the caller are changed by what the library does with its own"); return; }
        c.count("vectors used again");
    }
    vector<vector<float>> x[2];
    vector<bool> first[2], last[2];
    for (int t = 0; t < 2; ++t)
        for (auto& s : t && !a.same ? a.inT : a.in)
            for (size_t i = 0; i < s.size(); ++i) { x[t].push_back(s[i]); first[t].push_back(i == 0); last[t].push_back(i + 1 == s.size()); }
    const auto& y0 = a.out;
    const auto& y1 = a.same ? a.out : a.outT;
    if (d->sizeOfData != nIn || d->numberOfLabels != nOut)
    {
        // the sizes are those of the rows
        if (d->sizeOfData != static_cast<int>(x[0][0].size()) || d->numberOfLabels != static_cast<int>(y0[0].size())) { c.fail("data-sizes", vh::str(text, ": ", d->sizeOfData, " inputs and ", d->numberOfLabels, " labels")); return; }
    }
    if (d->sets[snn::training].size != static_cast<int>(x[0].size()) || d->sets[snn::testing].size != static_cast<int>(x[1].size())) { c.fail("data-sizes", vh::str(text, ": ", d->sets[snn::training].size, " and ", d->sets[snn::testing].size, " data")); return; }
    if (d->typeOfProblem != a.p || d->typeOfTemporal != a.n || d->isValid() != 0) { c.fail("data-kind", text); return; }
    for (int i = 0; i < static_cast<int>(x[0].size()); ++i)
    {
        const auto k = static_cast<size_t>(i);
        if (!vh::sameBits(d->getTrainingData(i), x[0][k]) || !vh::sameBits(d->getTrainingOutputs(i), y0[k]) || !vh::sameBits(d->getData(snn::training, i), x[0][k]) || !vh::sameBits(d->getOutputs(snn::training, i), y0[k]))
        { c.fail("data-content", vh::str(text, ": training data ", i)); return; }
        if (a.n != nature::timeSeries && d->isFirstTrainingDataOfTemporalSequence(i) != (a.n == nature::nonTemporal || first[0][k])) { c.fail("data-sequences", vh::str(text, ": training data ", i)); return; }
        const bool labelled = std::ranges::count(y0[k], 1.0f) > 0;
        if (a.p == problem::classification && !labelled) { if (!vh::throws([&] { (void)d->getTrainingLabel(i); })) c.fail("data-label", vh::str(text, ": label of a training data without any")); }
        else if (a.p == problem::classification && (y0[k][static_cast<size_t>(d->getTrainingLabel(i))] != 1 || d->getLabel(snn::training, i) != d->getTrainingLabel(i))) { c.fail("data-label", vh::str(text, ": training data ", i)); return; }
    }
    for (int i = 0; i < static_cast<int>(x[1].size()); ++i)
    {
        const auto k = static_cast<size_t>(i);
        if (!vh::sameBits(d->getTestingData(i), x[1][k]) || !vh::sameBits(d->getData(snn::testing, i), x[1][k])) { c.fail("data-content", vh::str(text, ": testing data ", i)); return; }
        if (a.p != problem::classification && (!vh::sameBits(d->getTestingOutputs(i), y1[k]) || !vh::sameBits(d->getOutputs(snn::testing, i), y1[k]))) { c.fail("data-content", vh::str(text, ": testing target ", i)); return; }
        const bool labelled = std::ranges::count(y1[k], 1.0f) > 0;
        if (a.p == problem::classification && !labelled) { if (!vh::throws([&] { (void)d->getTestingLabel(i); })) c.fail("data-label", vh::str(text, ": label of a testing data without any")); }
        else if (a.p == problem::classification && (y1[k][static_cast<size_t>(d->getTestingLabel(i))] != 1 || d->getLabel(snn::testing, i) != d->getTestingLabel(i))) { c.fail("data-label", vh::str(text, ": testing data ", i)); return; }
        const bool expectedFirst = a.n == nature::nonTemporal || (a.n == nature::timeSeries ? i == 0 : first[1][k]);
        if (d->isFirstTestingDataOfTemporalSequence(i) != expectedFirst) { c.fail("data-sequences", vh::str(text, ": testing data ", i)); return; }
        const bool expectedEval = a.n != nature::sequential || last[1][k];
        if (d->needToEvaluateOnTestingData(i) != expectedEval) { c.fail("data-sequences", vh::str(text, ": evaluation of testing data ", i)); return; }
    }
    // what another problem uses is refused
    const bool reg = a.p == problem::regression, cls = a.p == problem::classification;
    const float p = r.uniform(0, 1);
    auto expect = [&](const char* name, bool refused, auto&& f) {
        if (vh::throws(f) != refused) c.fail("data-access", vh::str(text, ": ", name, refused ? " is not refused" : " is refused"));
    };
    expect("setPrecision", !reg, [&] { d->setPrecision(p); });
    expect("getPrecision", !reg, [&] { if (d->getPrecision() != p) c.fail("data-access", text + ": precision"); });
    expect("setSeparator", reg, [&] { d->setSeparator(p); });
    expect("getSeparator", reg, [&] { if (d->getSeparator() != p) c.fail("data-access", text + ": separator"); });
    if (!cls || std::ranges::count(y0[0], 1.0f) > 0) expect("getTrainingLabel", !cls, [&] { (void)d->getTrainingLabel(0); });
    if (!cls || std::ranges::count(y1[0], 1.0f) > 0) expect("getTestingLabel", !cls, [&] { (void)d->getTestingLabel(0); });
    expect("getTestingOutputs", cls, [&] { (void)d->getTestingOutputs(0); });
    // and it is the data that was given, whatever becomes of the vectors of the caller
    for (auto& v : flat) for (auto& f : v) f = 99;
    flatT.clear(); out.clear(); outT.clear();
    if (!vh::sameBits(d->getTrainingData(0), x[0][0]) || !vh::sameBits(d->getTestingData(0), x[1][0]) || !vh::sameBits(d->getTrainingOutputs(0), y0[0])) c.fail("data-content", text + ": shared with the caller");
}

// ------------------------------------------------------------------------------ use by a network
static void mismatchCase(vh::Ctx& c)
{
    auto& r = c.rng;
    GenOptions go;
    go.opts = r.chance(0.4);
    go.dropout = true;
    const Arch a = ref::gen(r, go);
    auto net = build(a);
    const int nIn = net->getNumberOfInputs(), nOut = net->getNumberOfOutputs();
    const vector<DataSpec> sets{gen::data(r, nIn, nOut, 6), gen::data(r, nIn, nOut, 6)};
    for (int i = r.below(5); i > 0; --i) apply(*net, step(r, nIn, nOut, sets));
    if (!sane(*net, a)) { c.count("vague"); return; }
    SNN twin(*net);
    const auto text = str(a);
    c.sample(text);
    const auto dir = c.scratch();
    int rejected = 0;
    for (int k = r.range(2, 8); k > 0 && !c.failed(); --k)
    {
        std::string what;
        auto expect = [&](const std::string& name, bool refused, auto&& f) {
            std::string message;
            const bool thrown = vh::throws(f, &message);
            if (thrown != refused) { c.fail(refused ? "use-accepted" : "use-rejected", vh::str(text, ": ", name, refused ? " is accepted" : " is rejected: " + message)); return; }
            if (net->isTraining()) { c.fail("not-idle", vh::str(text, ": training after the rejected ", name)); net->stopTrainingAsync(); }
            ++rejected;
            c.count("rejected: " + name.substr(0, name.find(" (")));
        };
        const int which = r.below(10);
        if (which < 6)
        {
            int i = nIn, o = nOut, batch = 1;
            DataSpec s = r.pick(sets);
            const int wrong = r.below(4);
            if (wrong == 0) i = r.pick(vector<int>{nIn + 1, nIn - 1, nIn + r.range(1, 5), 2 * nIn, 1});
            if (wrong == 1) o = r.pick(vector<int>{nOut + 1, nOut - 1, nOut + r.range(1, 5), 2 * nOut, 1});
            if (i < 1) i = nIn + 1;
            if (o < 1) o = nOut + 1;
            if (i == nIn && o == nOut)
            {
                const int n = static_cast<int>(s.in.size());
                if (s.n != nature::nonTemporal) batch = r.pick(vector<int>{2, 0, -1, n, n + 1, std::numeric_limits<int>::max()});
                else batch = r.pick(vector<int>{0, -1, -n, n + 1, n + 1, n + r.range(1, 9), std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
                if (batch == 1) batch = 0;
            }
            else
                s = gen::data(r, i, o, 6);
            auto d = s.make();
            const auto name = vh::str(" (", s.str(), " for ", nIn, "->", nOut, ", batch ", batch, ")");
            const bool matches = i == nIn && o == nOut;
            switch (matches ? r.below(2) : r.below(5))
            {
            case 0: expect("train" + name, true, [&] { net->train(*d, epochs(1), batch, r.below(2)); }); break;
            case 1: expect("startTrainingAsync" + name, true, [&] { net->startTrainingAsync(*d, batch, r.below(2)); }); break;
            case 2: expect("evaluate" + name, true, [&] { net->evaluate(*d); }); break;
            case 3: expect("saveData2DAsBitmap" + name, true, [&] { net->saveData2DAsBitmap(dir + "/d", *d, 0); }); break;
            default: expect("saveFilterLayersAsBitmap" + name, true, [&] { net->saveFilterLayersAsBitmap(dir + "/f", *d, 0); });
            }
        }
        else
        {
            const int i = r.chance(0.5) ? std::max(0, nIn + r.pick(vector<int>{-1, 1, -2, 7})) : r.chance(0.5) ? 0 : 2 * nIn;
            const int o = r.chance(0.5) ? std::max(0, nOut + r.pick(vector<int>{-1, 1, 3})) : 0;
            switch (r.below(4))
            {
            case 0: expect("computeOutput", true, [&] { net->computeOutput(vector<float>(static_cast<size_t>(i), 0.5f), r.chance(0.5)); }); break;
            case 1: expect("computeCluster", true, [&] { net->computeCluster(vector<float>(static_cast<size_t>(i), 0.5f), r.chance(0.5)); }); break;
            case 2: expect("trainOnce", true, [&] { net->trainOnce(vector<float>(static_cast<size_t>(i), 0.5f), vector<float>(static_cast<size_t>(nOut), 0.5f), r.chance(0.5)); }); break;
            default: expect("trainOnce", true, [&] { net->trainOnce(vector<float>(static_cast<size_t>(nIn), 0.5f), vector<float>(static_cast<size_t>(o), 0.5f), r.chance(0.5)); });
            }
        }
        const auto d = compareState(*net, twin, a);
        if (!d.empty()) c.fail("use-changed", vh::str(text, ": ", d));
        if (*net != twin) c.fail("use-changed", text + ": not equal any more");
    }
    if (!std::filesystem::is_empty(dir)) c.fail("use-wrote", text + ": a rejected export wrote a file");
    // the same future, and the limits that are accepted
    for (int k = 0; k < 3 && !c.failed(); ++k)
    {
        auto s = step(r, nIn, nOut, sets);
        if (s.kind == 3 && s.data->n == nature::nonTemporal && r.chance(0.5)) s.batch = static_cast<int>(s.data->in.size());
        const auto x = apply(*net, s), y = apply(twin, s);
        if (!vh::sameBits(x, y)) { c.fail("use-changed", vh::str(text, ": later ", s.str(), " gives ", vh::vecStr(x), " and ", vh::vecStr(y))); return; }
        const auto d = compareState(*net, twin, a);
        if (!d.empty()) { c.fail("use-changed", vh::str(text, ": after a later ", s.str(), ": ", d)); return; }
    }
    c.count("uses rejected", rejected);
    c.nontrivial(vh::hashStr(text));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"normalize", 20000, 200000, normalizeCase},
        {"construction", 40000, 400000, construction},
        {"mismatch", 4000, 40000, mismatchCase},
    });
}
