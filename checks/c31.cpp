// C31: thread count and races.
#include "zoo.hpp"
#include <atomic>
#include <thread>
namespace {
GT clone(Case& c, const GT& g) { GT k(c, g.t.shape()); memcpy(k.data(), g.data(), 4 * g.size()); k.take(); return k; }
ref::Shape wide_shape(Case& c, const Spec& sp) {
    auto s = gen_in_shape(c, sp); if (!pbt::big() || s.size() == 4) s[0] = int(c.sized(1, 12, 40, 20)); return s;     // around and above the thread count
}
void run(Case& c, int kind) {
    Spec sp = gen_spec(c, kind, kind == K_DROP ? 0.f : -1);
    auto s = wide_shape(c, sp); int T = int(c.sized(2, 8, 20, 10));
    bool alias = kind == K_ADD && c.flag(40);
    bool share = kind == K_ADD && c.flag(30);
    auto make = [&] { dw::Placeholders in; for (int i = 0; i < sp.arity(); ++i) in.emplace_back(s); return rig_of(sp.direct(in, "l")); };
    c.desc << sp.str() << " " << str(s) << " threads=" << T << (alias ? " one gradient tensor" : ""); c.publish();
    Rig A = make(), B = make(); randomize_params(c, A); copy_state(A, B);
    bool train = !(kind == K_BN1 || kind == K_BN2) || c.flag(80); A.train(train); B.train(train);
    int rounds = int(c.integer(1, 3));
    for (int r = 0; r < rounds; ++r) {
        if (r && c.flag(40)) { auto t = s; s = resize_in(c, sp, s); if (s.size() == t.size() && c.flag()) s = t; }
        std::vector<GT> xa, xb; for (int i = 0; i < sp.arity(); ++i) { if (i && share) xa.push_back(xa[0]); else xa.push_back(gen_tensor(c, s, gen_style(c, {UNIT, INTS, TIES}))); }
        for (auto& g : xa) xb.push_back(clone(c, g));
        Call fa, fb;
        omp_set_num_threads(1); fa.forward(c, A, xa, sp.out(s));
        omp_set_num_threads(T); fb.forward(c, B, xb, sp.out(s));
        near(c, fb.y.t, fa.y.t, "output with " + std::to_string(T) + " threads, compared with one thread", 1e-4);
        for (auto& kv : A.info.buffers()) near(c, B.info.buffers().at(kv.first), kv.second, "buffer " + kv.first + " with " + std::to_string(T) + " threads", 1e-4);
        if (!train) continue;
        fa.go = gen_tensor(c, sp.out(s), gen_style(c, {UNIT, INTS})); fb.go = clone(c, fa.go);
        bool prior = c.flag(); dirty_grads(c, B);
        omp_set_num_threads(1); fa.run_backward(c, A, alias, 0);
        omp_set_num_threads(T); fb.run_backward(c, B, alias, 0);
        (void)prior;
        for (size_t i = 0; i < fa.gi.size(); ++i) near(c, fb.gi[i].t, fa.gi[i].t, "input gradient with " + std::to_string(T) + " threads, compared with one thread", 1e-4);
        for (auto& kv : A.info.params()) if (kv.first != "mask") near(c, B.info.params().at(kv.first).grad(), kv.second.grad(), "gradient of " + kv.first + " with " + std::to_string(T) + " threads, compared with one thread", 1e-4);
    }
    c.nontrivial(s[0] > 1 && ref::total(s) > 1); if (s[0] > T) c.label("batch>threads"); if (s[0] < T) c.label("batch<threads");
}
// independent layer objects run from several threads of the user at the same time
struct Job {
    Spec sp; ref::Shape s; Rig A, B; bool train = true; int omp = 1; std::string err;
    struct Round { std::vector<GT> x; GT go, ya, yb; std::vector<GT> ga, gb; }; std::vector<Round> rounds;
    void step(Rig& r, Round& q, GT& y, std::vector<GT>& gi) {
        std::vector<dw::Tensor> in, out{y.t}, go{q.go.t}, gis; for (auto& t : q.x) in.push_back(t.t); for (auto& t : gi) gis.push_back(t.t);
        r.layer->forward(in, out);
        if (train) { r.layer->updateGradients(in, go); r.layer->backward(in, out, go, gis); }
    }
};
void concurrent(Case& c) {
    int n = int(c.integer(2, 4)); std::vector<std::unique_ptr<Job>> js; bool same = c.flag(50); int kind = int(c.draw(K_COUNT));
    for (int k = 0; k < n; ++k) {
        auto j = std::make_unique<Job>(); if (!same) kind = int(c.draw(K_COUNT));
        j->sp = gen_spec(c, kind, kind == K_DROP ? 0.f : -1); j->s = gen_in_shape(c, j->sp); j->omp = int(c.integer(1, 3));
        auto make = [&] { dw::Placeholders in; for (int i = 0; i < j->sp.arity(); ++i) in.emplace_back(j->s); return rig_of(j->sp.direct(in, "l")); };
        j->A = make(); j->B = make(); randomize_params(c, j->A); copy_state(j->A, j->B);
        j->train = kind != K_DROP && (!(kind == K_BN1 || kind == K_BN2) || c.flag(75)); j->A.train(j->train); j->B.train(j->train);     // dropout draws from one shared generator
        int rounds = int(c.integer(1, 3)); auto s = j->s;
        for (int r = 0; r < rounds; ++r) {
            if (r && kind != K_DROP && c.flag(40)) s = resize_in(c, j->sp, s);
            Job::Round q; for (int i = 0; i < j->sp.arity(); ++i) q.x.push_back(gen_tensor(c, s, gen_style(c, {UNIT, INTS, TIES})));
            q.go = gen_tensor(c, j->sp.out(s), UNIT); q.ya = GT(c, j->sp.out(s)); q.yb = GT(c, j->sp.out(s));
            for (int i = 0; i < j->sp.arity(); ++i) { q.ga.emplace_back(c, s); q.gb.emplace_back(c, s); std::fill_n(q.ga.back().data(), q.ga.back().size(), 0.f); std::fill_n(q.gb.back().data(), q.gb.back().size(), 0.f); }
            j->rounds.push_back(std::move(q));
        }
        c.desc << j->sp.str() << " " << str(j->s) << " x" << rounds << "; "; js.push_back(std::move(j));
    }
    c.publish();
    omp_set_num_threads(1);
    for (auto& j : js) for (auto& q : j->rounds) j->step(j->A, q, q.ya, q.ga);
    std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (auto& p : js) th.emplace_back([&, j = p.get()] {
        omp_set_num_threads(j->omp); ready.fetch_add(1, std::memory_order_relaxed);
        for (int spin = 0; spin < 100000 && ready.load(std::memory_order_relaxed) < n; ++spin) std::this_thread::yield();
        try { for (auto& q : j->rounds) j->step(j->B, q, q.yb, q.gb); } catch (const std::exception& e) { j->err = e.what(); }
    });
    for (auto& t : th) t.join();
    for (auto& j : js) {
        c.check(j->err.empty(), j->sp.str() + " raised while other layers ran: " + j->err);
        std::string w = " of " + j->sp.str() + " run while other threads run other layers, compared with running alone";
        for (auto& q : j->rounds) {
            near(c, q.yb.t, q.ya.t, "output" + w, 1e-4);
            if (j->train) for (size_t i = 0; i < q.ga.size(); ++i) near(c, q.gb[i].t, q.ga[i].t, "input gradient" + w, 1e-4);
        }
        for (auto& kv : j->A.info.buffers()) near(c, j->B.info.buffers().at(kv.first), kv.second, "buffer " + kv.first + w, 1e-4);
        if (j->train) for (auto& kv : j->A.info.params()) if (kv.first != "mask") near(c, j->B.info.params().at(kv.first).grad(), kv.second.grad(), "gradient of " + kv.first + w, 1e-4);
    }
    c.nontrivial();
}
}
PBT_PROPERTY("C31", "every layer type, forward and backward, once with one thread and once with 2-20, batch sizes 1-40; independent layer objects run by 2-4 user threads at once, compared with running alone; the same cases under ThreadSanitizer with an instrumented OpenMP runtime; non-trivial = more than one sample") {
    pbt::Registry::get().assumptions.push_back("GCC's libgomp cannot be seen by ThreadSanitizer, so the tsan build links a stand-in runtime (checks/gomp_shim.cpp) giving exactly OpenMP's ordering; Eigen's own internal parallel products are disabled there");
    pbt::facet("concurrent-layers", 1500, concurrent, 12, 15);
    for (int k = 0; k < K_COUNT; ++k) { bool par = k == K_CONV || k == K_ADD; pbt::large_facet(std::string(kind_name(k)) + "-large", par ? 60 : 20, [k](Case& c) { run(c, k); }); pbt::facet(kind_name(k), par ? 2400 : 400, [k](Case& c) { run(c, k); }, 12, 20, true); }
}
