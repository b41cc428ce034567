// C23: bitmap exports show the values they export
#define VH_MAIN
#include <array>
#include "gen.hpp"
using namespace gen;

namespace
{
    struct Image
    {
        int w = 0, h = 0;
        vector<std::array<double, 3>> px; // red, green, blue, top row first
        std::array<double, 3>& at(int x, int y) { return px[static_cast<size_t>(y) * static_cast<size_t>(w) + static_cast<size_t>(x)]; }
        Image() = default;
        Image(int w, int h) : w(w), h(h), px(static_cast<size_t>(w) * static_cast<size_t>(h)) {}
    };

    // 24 bits uncompressed bitmap; empty text when read
    std::string read(const std::string& path, Image& im)
    {
        std::ifstream f(path, std::ios::binary);
        const std::string s((std::istreambuf_iterator<char>(f)), {});
        auto u = [&](size_t o, size_t n) { vh::u64 v = 0; for (size_t i = 0; i < n; ++i) v |= static_cast<vh::u64>(static_cast<unsigned char>(s[o + i])) << (8 * i); return v; };
        if (s.size() < 54 || s[0] != 'B' || s[1] != 'M') return "no bitmap";
        const auto off = u(10, 4);
        const int w = static_cast<int>(u(18, 4)), h = static_cast<int>(u(22, 4));
        if (u(28, 2) != 24 || u(30, 4) != 0 || w <= 0 || h <= 0 || w > 100000 || h > 100000) return "no uncompressed 24 bits bitmap";
        const size_t row = (static_cast<size_t>(w) * 3 + 3) / 4 * 4;
        if (s.size() != off + row * static_cast<size_t>(h)) return vh::str("a file of ", s.size(), " bytes for ", w, "x", h, " pixels");
        im = Image(w, h);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                for (size_t c = 0; c < 3; ++c)
                    im.at(x, h - 1 - y)[2 - c] = static_cast<double>(u(off + static_cast<size_t>(y) * row + static_cast<size_t>(x) * 3 + c, 1));
        return "";
    }

    std::string compare(Image& want, Image& got)
    {
        if (want.w != got.w || want.h != got.h) return vh::str(got.w, "x", got.h, " pixels instead of ", want.w, "x", want.h);
        for (int y = 0; y < want.h; ++y)
            for (int x = 0; x < want.w; ++x)
                for (size_t c = 0; c < 3; ++c)
                    if (std::abs(want.at(x, y)[c] - got.at(x, y)[c]) > 1.001)
                        return vh::str("pixel ", x, ",", y, " channel ", c, " is ", got.at(x, y)[c], " instead of ", want.at(x, y)[c]);
        return "";
    }

    double level(double v) { return std::min(std::max(v, 0.0), 1.0) * 255; }

    // the smallest grid at least as wide as high
    struct Grid { int columns, rows; };
    Grid gridOf(int n)
    {
        int columns = 1;
        while (columns * columns < n) ++columns;
        return {columns, (n + columns - 1) / columns};
    }
}

static void exports(vh::Ctx& c)
{
    auto& r = c.rng;
    const int channels = r.pick(vector<int>{1, 1, 2, 3, 3, 4, 5}), X = r.sized(1, 9, 40), Y = r.sized(1, 9, 40);
    Arch a;
    GenOptions go;
    const bool flat = r.chance(0.12); // data that are not 2D
    a.in = flat ? (r.chance(0.5) ? vector<int>{X * 2} : vector<int>{channels, X}) : vector<int>{channels, X, Y};
    vector<int> shape = filterShape(a.in);
    bool filters = true;
    for (int i = r.sized(1, 3, 15, 0.03); i > 0; --i)
    {
        L l{snn::fullyConnected};
        if (filters && r.chance(0.85))
        {
            l.type = r.pick(vector<layerType>{snn::maxPooling, snn::locallyConnected, snn::locallyConnected, snn::convolution, snn::convolution});
            int most = shape[1];
            for (size_t d = 1; d < shape.size(); ++d) most = std::min(most, shape[d]);
            l.k = r.range(1, std::min(most, 4));
            l.n = l.type == snn::maxPooling ? 0 : r.chance(0.8) ? r.range(1, 5) : r.sized(6, 13, 40, 0.1);
            for (size_t d = 1; d < shape.size(); ++d) shape[d] = l.type == snn::convolution ? shape[d] - l.k + 1 : (shape[d] + l.k - 1) / l.k;
            if (l.type != snn::maxPooling) shape[0] = l.n;
        }
        else
        {
            l.n = r.range(1, 4);
            filters = false;
        }
        l.act = r.pick(vector<activation>{activation::identity, activation::sigmoid, activation::tanh, activation::ReLU, activation::gaussian});
        if (l.type != snn::maxPooling && r.chance(0.25)) l.opts = genOpts(r, true);
        a.layers.push_back(l);
    }
    auto net = build(a);
    // weights of any size, so that colors go from one end to the other
    const float amp = r.pick(vector<float>{0.5f, 2.0f, 6.0f});
    for (size_t i = 0; i < a.layers.size(); ++i)
    {
        auto w = layerWeights(*net->layers[i], a.layers[i].type);
        for (auto& n : w) for (auto& x : n) x = r.uniform(-amp, amp);
        setLayerWeights(*net->layers[i], a.layers[i].type, w);
    }
    const int nIn = net->getNumberOfInputs(), nOut = net->getNumberOfOutputs();
    vector<vector<float>> in, out;
    for (int i = r.sized(1, 4, 60); i > 0; --i)
    {
        in.push_back(genInput(r, nIn, 1.5f));
        if (r.chance(0.5)) for (auto& x : in.back()) x = static_cast<float>(r.unit());
        out.push_back(target(r, problem::regression, nOut));
    }
    auto inCopy = in, outCopy = out;
    vector<vector<float>> first{genInput(r, nIn)}, firstOut{target(r, problem::regression, nOut)};
    Data d(problem::regression, first, firstOut, inCopy, outCopy);
    const auto text = str(a);
    const auto dir = c.scratch();
    std::map<std::string, Image> want;
    const int which = r.below(static_cast<int>(in.size()));
    // the input
    net->saveData2DAsBitmap(dir + "/in", d, which);
    if (!flat && isFilter(a.layers[0].type))
    {
        Image im(X, Y);
        for (int y = 0; y < Y; ++y)
            for (int x = 0; x < X; ++x)
                for (int ch = 0; ch < 3; ++ch)
                {
                    const int from = channels == 1 ? 0 : ch;
                    im.at(x, y)[static_cast<size_t>(ch)] = from < channels ? level(in[static_cast<size_t>(which)][static_cast<size_t>((y * X + x) * channels + from)]) : 0;
                }
        want[vh::str("in_input", which, ".bmp")] = im;
    }
    // the outputs and the filters of each layer
    net->saveFilterLayersAsBitmap(dir + "/out", d, which);
    net->saveFeatureMapsAsBitmap(dir + "/map");
    SNN twin(*net);
    auto y = in[static_cast<size_t>(which)];
    for (size_t i = 0; i < a.layers.size(); ++i)
    {
        const auto sIn = twin.layers[i]->getShapeOfInput();
        const auto w = layerWeights(*twin.layers[i], a.layers[i].type);
        y = twin.layers[i]->output(y, true);
        const auto sOut = twin.layers[i]->getShapeOfOutput();
        const auto& l = a.layers[i];
        if (!isFilter(l.type) || sOut.size() != 3) continue;
        const int n = sOut[0];
        const auto g = gridOf(n);
        Image im((sOut[1] + 1) * g.columns - 1, (sOut[2] + 1) * g.rows - 1);
        for (int f = 0; f < n; ++f)
            for (int py = 0; py < sOut[2]; ++py)
                for (int px = 0; px < sOut[1]; ++px)
                {
                    const double v = level(y[static_cast<size_t>((py * sOut[1] + px) * n + f)]);
                    im.at(f % g.columns * (sOut[1] + 1) + px, f / g.columns * (sOut[2] + 1) + py) = {v, v, v};
                }
        want[vh::str("out_layer_", i, ".bmp")] = im;
        if (l.type == snn::maxPooling) continue;
        // each pixel of the input, and the weights that it meets
        Image map((sIn[1] + 1) * g.columns - 1, (sIn[2] + 1) * g.rows - 1);
        for (int f = 0; f < n; ++f)
        {
            vector<double> sum(static_cast<size_t>(sIn[1] * sIn[2]));
            for (int p = 0; p < sOut[1] * sOut[2]; ++p)
            {
                const bool conv = l.type == snn::convolution;
                const auto& wn = w[static_cast<size_t>(conv ? f : p * n + f)];
                const int x0 = p % sOut[1] * (conv ? 1 : l.k), y0 = p / sOut[1] * (conv ? 1 : l.k);
                for (int ky = 0; ky < l.k; ++ky)
                    for (int kx = 0; kx < l.k; ++kx)
                        for (int ch = 0; ch < sIn[0]; ++ch)
                            if (x0 + kx < sIn[1] && y0 + ky < sIn[2])
                                sum[static_cast<size_t>((y0 + ky) * sIn[1] + x0 + kx)] += wn[static_cast<size_t>((ky * l.k + kx) * sIn[0] + ch)];
            }
            for (int py = 0; py < sIn[2]; ++py)
                for (int px = 0; px < sIn[1]; ++px)
                {
                    const double v = (std::tanh(sum[static_cast<size_t>(py * sIn[1] + px)] / 2) + 1) * 127.5;
                    map.at(f % g.columns * (sIn[1] + 1) + px, f / g.columns * (sIn[2] + 1) + py) = {v, v, v};
                }
        }
        want[vh::str("map_layer_", i, ".bmp")] = map;
    }
    for (auto& e : std::filesystem::directory_iterator(dir))
        if (!want.count(e.path().filename().string())) { c.fail("bitmap-extra", vh::str(text, ": ", e.path().filename().string(), " is written")); return; }
    for (auto& [name, im] : want)
    {
        Image got;
        auto why = read(dir + "/" + name, got);
        if (why.empty()) why = compare(im, got);
        if (!why.empty()) { c.fail("bitmap-" + name.substr(0, name.find('_')), vh::str(text, ": ", name, ": ", why)); return; }
        c.count("pixels compared", im.w * im.h);
        c.count("bitmaps of " + name.substr(0, name.find('_')));
    }
    if (want.empty()) c.count("exports that write nothing");
    else c.nontrivial(vh::mix(vh::hashStr(text) ^ vh::hashVec(in[0])));
    c.sample(text);
}

// refused during a training, which goes on
static void training(vh::Ctx& c)
{
    auto& r = c.rng;
    Arch a;
    a.in = {1, 4, 5};
    a.layers = {L{snn::convolution, 2, 2, activation::sigmoid}, L{snn::fullyConnected, 2, 0, activation::sigmoid}};
    auto net = build(a);
    auto spec = gen::data(r, 20, 2, 6, 0);
    auto d = spec.make();
    const auto dir = c.scratch();
    net->startTrainingAsync(*d, 1, r.below(2));
    if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::milliseconds(r.below(3)));
    const bool m = vh::throws([&] { net->saveFeatureMapsAsBitmap(dir + "/m"); });
    const bool f = vh::throws([&] { net->saveFilterLayersAsBitmap(dir + "/f", *d, 0); });
    const bool going = net->isTraining();
    net->stopTrainingAsync();
    if (!m || !f) c.fail("bitmap-training", vh::str("export of the ", m ? "outputs" : "filters", " during a training"));
    if (!going) c.fail("bitmap-training", "the training was ended by an export");
    if (!std::filesystem::is_empty(dir)) c.fail("bitmap-training", "a refused export wrote a file");
    net->saveFeatureMapsAsBitmap(dir + "/m");
    net->saveFilterLayersAsBitmap(dir + "/f", *d, 0);
    if (!std::filesystem::exists(dir + "/m_layer_0.bmp") || !std::filesystem::exists(dir + "/f_layer_0.bmp")) c.fail("bitmap-training", "nothing is exported after the training");
    c.count("exports refused during a training", 2);
    c.nontrivial(vh::mix(static_cast<vh::u64>(c.index)));
}

int main(int argc, char** argv)
{
    return vh::runAll(argc, argv, {
        {"exports", 12000, 120000, exports},
        {"training", 100, 1000, training},
    });
}
