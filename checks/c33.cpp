// C33: the samples' datasets.
#include <sys/stat.h>
#include <filesystem>
#include <set>
#include "samples.hpp"
#include "images.hpp"
namespace fs = std::filesystem;
namespace {
struct Dir { std::string p; Dir() { static int n; p = scratch_dir() + "/set" + std::to_string(n++); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } };
Bytes plain_png(int w, int h, int ch, const Bytes& px) {
    Bytes f; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop info = png_create_info_struct(p);
    std::vector<png_bytep> rows(h); for (int y = 0; y < h; ++y) rows[y] = const_cast<png_bytep>(px.data()) + size_t(y) * w * ch;
    if (setjmp(png_jmpbuf(p))) throw std::runtime_error("harness: png encoder failed");
    png_set_write_fn(p, &f, [](png_structp q, png_bytep d, png_size_t n) { auto* o = static_cast<Bytes*>(png_get_io_ptr(q)); o->insert(o->end(), d, d + n); }, nullptr);
    png_set_IHDR(p, info, w, h, 8, ch == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_GRAY, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    png_set_compression_level(p, 1); png_write_info(p, info); png_write_image(p, rows.data()); png_write_end(p, info); png_destroy_write_struct(&p, &info);
    return f;
}
struct Sample { std::vector<float> x; float y; };
// pull in some order (directly into views or through a loader), every sample exactly once
void consume(Case& c, dw::IDataset& d, std::shared_ptr<dw::IDataset> sp, const std::vector<Sample>& want, const dw::Shape& xs, bool ordered, bool labels = true, std::vector<std::pair<int, float>>* got = nullptr) {
    c.check(d.size() == want.size(), "size() is " + std::to_string(d.size()) + ", the files hold " + std::to_string(want.size()));
    c.check(d.shape() == dw::IDataset::OutShape(xs, dw::Shape{1}), "shape() is not " + str(xs) + " and [1]");
    std::vector<int> taken(want.size(), 0); size_t n = 1; for (int k : xs) n *= size_t(k);
    auto match = [&](int idx, const float* x, float y) {
        int hit = -1; auto eq = [&](size_t i) { for (size_t j = 0; j < n; ++j) if (std::fabs(x[j] - want[i].x[j]) > 1e-6f * std::max(1.f, std::fabs(want[i].x[j]))) return false; return true; };
        if (ordered) { c.check(eq(size_t(idx)), "sample " + std::to_string(idx) + " does not hold the features of its line"); hit = idx; }
        else { for (size_t i = 0; i < want.size(); ++i) if (!taken[i] && eq(i)) { hit = int(i); break; } c.check(hit >= 0, "sample " + std::to_string(idx) + " matches no (remaining) file"); taken[hit] = 1; }
        if (labels) c.check(y == want[hit].y, "sample " + std::to_string(idx) + " (file " + std::to_string(hit) + ") has label " + fstr(y) + ", expected " + fstr(want[hit].y));
        if (got) got->push_back({hit, y});
    };
    if (sp && c.flag()) {
        int B = int(c.integer(1, std::max<int64_t>(1, int64_t(want.size())))); c.desc << "loader " << B << "; "; c.publish();
        dw::DataLoader l(sp, B, false); dw::Tensor X, y; int k = 0;
        while (l.pull(X, y)) { for (int r = 0; r < B; ++r) match(k * B + r, X.data() + size_t(r) * n, y.data()[r]); ++k; }
        c.check(k == int(want.size()) / B, "the loader delivered " + std::to_string(k) + " batches");
    } else {
        std::vector<int> order(want.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = int(i);
        c.shuffle(order.begin(), order.end()); c.desc << "direct; "; c.publish();
        for (int i : order) { GT X(c, xs), y(c, {1}); d.pull(i, X.t, y.t); c.check(X.t.shape() == xs, "pull changed the shape"); match(i, X.data(), y.data()[0]); c.check(X.guards_ok() && y.guards_ok(), "pull wrote outside the given tensors"); }
    }
}
void iris(Case& c) {
    Dir dir; int N = int(c.sized(0, 6, 40)); std::vector<Sample> want; std::ostringstream f;
    f << c.pick(std::vector<std::string>{"sepal.length,sepal.width,petal.length,petal.width,variety", "a,b,c,d,e", "\"x\",1,2,3,setosa"}) << "\n";
    static const char* sp[] = {"setosa", "versicolor", "virginica"};
    for (int i = 0; i < N; ++i) {
        Sample s;
        for (int k = 0; k < 4; ++k) {
            char b[40]; double v = double(c.integer(0, 99)) / 10;
            switch (c.draw(6)) { case 0: snprintf(b, sizeof b, "%.1f", v); break; case 1: snprintf(b, sizeof b, "%g", v); break; case 2: snprintf(b, sizeof b, "%.3e", v * 17); break; case 3: snprintf(b, sizeof b, "-%.2f", v); break; case 4: snprintf(b, sizeof b, "%d", int(v)); break; default: snprintf(b, sizeof b, " %.4f", v * 1.37); }
            f << b << ","; s.x.push_back(float(atof(b)));
        }
        int l = int(c.draw(3)); s.y = float(l); f << sp[l]; if (i + 1 < N || c.flag()) f << "\n"; want.push_back(s);
    }
    c.desc << "iris " << N << " rows "; c.publish();
    std::string p = dir.p + "/iris.csv"; auto t = f.str(); put(p, Bytes(t.begin(), t.end()));
    auto d = std::make_shared<custom_iris::IrisCSVDataset>(p); consume(c, *d, d, want, {4}, true);
    c.nontrivial(N > 1);
}
template <class D> void images(Case& c, const std::string& which, int side, int ch, const dw::Shape& xs, const std::vector<std::string>& classes, const std::vector<int>& label) {
    Dir dir; std::vector<Sample> want; int k = int(c.integer(1, 4)); std::vector<std::string> cls = classes; c.shuffle(cls.begin(), cls.end()); if (int(cls.size()) > k) cls.resize(k);
    std::vector<std::string> owner;
    for (auto& name : cls) {
        std::string d = dir.p + "/" + name; fs::create_directories(d); int m = int(c.sized(0, 3, 8));
        for (int i = 0; i < m; ++i) {
            Bytes px(size_t(side) * side * ch); gen_pixels(c, px); /* tells the files apart */ px[0] = (unsigned char)want.size(); Sample s; s.x.resize(px.size());
            for (size_t q = 0; q < px.size(); ++q) { size_t pos = ch == 1 ? q : (q % ch) * size_t(side) * side + q / ch; s.x[pos] = float(px[q]) / 255.f; }
            for (size_t q = 0; q < classes.size(); ++q) if (classes[q] == name) s.y = label.empty() ? -1.f : float(label[q]);
            put(d + "/" + c.pick(std::vector<std::string>{"a", "img.7_", "0", "x y"}) + std::to_string(i) + ".png", plain_png(side, side, ch, px));
            want.push_back(s); owner.push_back(name);
        }
    }
    c.desc << which << " " << cls.size() << " classes, " << want.size() << " files; "; c.publish();
    auto d = std::make_shared<D>(dir.p); std::vector<std::pair<int, float>> got;
    consume(c, *d, d, want, xs, false, !label.empty(), &got);
    if (label.empty()) {                     // labels are assigned: one per class name, for the whole process
        static std::map<std::string, float> seen;
        for (auto& g : got) {
            auto& name = owner[g.first]; 
            c.check(g.second >= 0 && g.second == std::floor(g.second) && g.second < float(classes.size()), "label " + fstr(g.second) + " is not a class number");
            if (seen.count(name)) c.check(seen[name] == g.second, "class " + name + " has label " + fstr(g.second) + " and had " + fstr(seen[name])); else { for (auto& kv : seen) c.check(kv.second != g.second, "classes " + name + " and " + kv.first + " have the same label"); seen[name] = g.second; }
        }
    }
    c.nontrivial(want.size() > 1 && cls.size() > 1);
}
}
PBT_PROPERTY("C33", "generated CSV files and image directories read through the four sample datasets, directly in any order and through a loader; non-trivial = several samples (images: of several classes)") {
    pbt::facet("iris", 4000, iris, 12, 100);
    pbt::facet("mnist", 400, [](Case& c) { images<custom_mnist::Dataset>(c, "mnist", 28, 1, {784}, {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}); }, 6, 40);
    pbt::facet("cifar10", 400, [](Case& c) { images<custom_cifar10::CIFAR10Dataset>(c, "cifar10", 32, 3, {3, 32, 32}, {"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}); }, 6, 40);
    pbt::facet("cifar100", 400, [](Case& c) { images<custom_cifar100::CIFAR100Dataset>(c, "cifar100", 32, 3, {3, 32, 32}, {"apple", "bee", "cloud", "dinosaur", "elephant", "fox"}, {}); }, 6, 40);
}
