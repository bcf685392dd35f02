// C16: a layer object that has processed anything before behaves like a fresh one.
#include "zoo.hpp"
namespace {
struct Probe { std::vector<GT> x; GT go; std::vector<float> gi0; };
GT clone(Case& c, const GT& g) { GT k(c, g.t.shape()); memcpy(k.data(), g.data(), 4 * g.size()); k.take(); return k; }
void run(Case& c, int kind) {
    set_threads(c);
    Spec sp = gen_spec(c, kind, kind == K_DROP ? (c.flag() ? 0.f : 0.5f) : -1);
    bool drop_eval = kind == K_DROP && sp.a > 0;             // a random mask only in evaluation mode
    auto s0 = gen_in_shape(c, sp), s = s0;
    auto build = [&] { dw::Placeholders in; for (int i = 0; i < sp.arity(); ++i) in.emplace_back(s0); return rig_of(sp.direct(in, "l")); };
    auto gen_x = [&] { std::vector<GT> v; for (int i = 0; i < sp.arity(); ++i) v.push_back(gen_tensor(c, s, gen_style(c, {UNIT, INTS, TIES, WIDE, SPARSE, TINY}))); return v; };
    Rig A = build(); randomize_params(c, A);
    if (drop_eval) A.train(false);
    c.desc << sp.str() << " " << str(s0) << ":";
    bool bn = kind == K_BN1 || kind == K_BN2;
    int legs = pbt::marathon() ? int(c.integer(10, 40)) : 1; bool nontriv = false;
    for (int leg = 0; leg < legs; ++leg) {
    bool train = !drop_eval; if (drop_eval) A.train(false);
    int before = int(c.integer(1, pbt::marathon() ? 12 : 4)); int resized = 0;
    std::vector<GT> last;
    for (int k = 0; k < before; ++k) {                       // the past
        if (c.flag(60)) { auto t = resize_in(c, sp, s); resized += t != s; s = t; }
        if (bn) { train = c.flag(70); A.train(train); }
        if (c.flag(8) && (kind == K_RELU || kind == K_LEAKY || kind == K_ELU || kind == K_SIGMOID || kind == K_SOFTMAX || bn || kind == K_LINEAR)) {   // a call that is rejected
            std::vector<dw::Tensor> x{dw::Tensor::constant(s, 0.75f)}, y{dw::Tensor::constant(sp.out(s), 4.f)};
            if (c.flag()) y.push_back(y[0]); else y[0] = dw::Tensor::constant(kind == K_LINEAR || sp.out(s).size() == 1 ? ref::Shape{int(ref::total(sp.out(s))) + 1} : ref::Shape{int(ref::total(sp.out(s)))}, 4.f);
            bool threw = false; try { A.layer->forward(x, y); } catch (const std::exception&) { threw = true; }
            c.check(threw, "a wrong number of outputs or a wrongly shaped output was accepted"); c.desc << " rejected"; c.label("rejected-call");
        }
        Call f; c.desc << " " << str(s) << (train ? "" : "e"); c.publish();
        last = gen_x(); f.forward(c, A, last, sp.out(s));
        if (train && c.flag(60)) { f.backward(c, A, UNIT, sp.arity() == 2 && c.flag(20)); c.desc << "b"; }
    }
    // the same tensors again with a few elements of the input or of a parameter changed in place
    bool edit = c.flag(30); auto poke = [&](dw::Tensor t) { int k = int(c.integer(1, 2)); for (int q = 0; q < k && t.total(); ++q) { float& v = t.data()[c.draw(t.total())]; v = v > 0 ? v - 2.5f : v + 3.f; } };
    if (!edit && c.flag(60)) { auto t = resize_in(c, sp, s); resized += t != s; s = t; }
    if (bn) { train = c.flag(75); A.train(train); }
    bool reuse = false;
    if (edit) {
        std::map<std::string, dw::Tensor> ps; for (auto& kv : A.info.impl().params) if (kv.first != "mask") ps[kv.first] = kv.second.data();
        bool par = !ps.empty() && c.flag(); if (par) { auto it = ps.begin(); std::advance(it, c.draw(ps.size())); poke(it->second); }
        reuse = !par || c.flag(70); if (reuse && (!par || c.flag(30))) poke(last[c.draw(last.size())].t);
        c.label(par ? "parameter-edited" : "input-edited");
    } else if (c.flag(40)) randomize_params(c, A);
    Rig B = build(); copy_state(A, B);                        // the fresh object
    Rig C = build(); randomize_params(c, C); if (drop_eval) C.train(false);
    auto xa = reuse ? last : gen_x(); for (auto& t : xa) t.take(); std::vector<GT> xb; for (auto& t : xa) xb.push_back(clone(c, t));
    c.desc << " | " << str(s) << (train ? "" : "e"); c.publish();
    Call fa, fb;
    fb.forward(c, B, xb, sp.out(s));
    if (train) { fb.go = gen_tensor(c, sp.out(s), gen_style(c, {UNIT, INTS, SPARSE, TINY})); fb.run_backward(c, B, false, 0); }   // finished before anything else runs
    ParamSnap sa(A);
    fa.forward(c, A, xa, sp.out(s));
    bool interleave = c.flag(40);
    auto disturb = [&] {
        auto keep = s; if (c.flag()) s = resize_in(c, sp, s0);
        Call f; f.forward(c, C, gen_x(), sp.out(s)); if (!drop_eval) f.backward(c, C, UNIT); s = keep; c.label("interleaved");
    };
    if (interleave) disturb();
    near(c, fa.y.t, fb.y.t, "output of a used layer vs a fresh one");
    for (auto& kv : A.info.buffers()) near(c, kv.second, B.info.buffers().at(kv.first), "buffer " + kv.first + " of a used layer vs a fresh one");
    if (!train || !bn) { ParamSnap now(A); if (kind != K_DROP) sa.same(c, A, "a call"); }
    if (train) {
        fa.go = clone(c, fb.go);
        dirty_grads(c, A);
        fa.run_backward(c, A, false, 0);
        for (size_t i = 0; i < fa.gi.size(); ++i) near(c, fa.gi[i].t, fb.gi[i].t, "input gradient of a used layer vs a fresh one");
        for (auto& kv : A.info.params()) if (kv.first != "mask") near(c, kv.second.grad(), B.info.params().at(kv.first).grad(), "gradient of " + kv.first + " of a used layer vs a fresh one");
    } else {
        ParamSnap p(A); Call again; std::vector<GT> xr; for (auto& t : xa) xr.push_back(clone(c, t));
        again.forward(c, A, xr, sp.out(s));
        near(c, again.y.t, fa.y.t, "repeated evaluation", 1e-5); p.same(c, A, "evaluation");
    }
    c.label("resizes", resized); c.label("past-calls", before); nontriv |= ref::total(s) > 1;
    }
    c.nontrivial(nontriv);
}
}
PBT_PROPERTY("C16", "for each of the 13 layer types: 1-4 random past calls (changing sizes, modes, backward passes) on one object, then one call compared with a fresh object holding the same parameters, optionally with a third object of the same type used in between; non-trivial = more than one element in the compared call") {
    for (int k = 0; k < K_COUNT; ++k) pbt::large_facet(std::string(kind_name(k)) + "-large", 30, [k](Case& c) { run(c, k); });
    for (int k = 0; k < K_COUNT; ++k) pbt::marathon_facet(std::string(kind_name(k)) + "-marathon", 20, [k](Case& c) { run(c, k); });
    for (int k = 0; k < K_COUNT; ++k) pbt::facet(kind_name(k), 2500, [k](Case& c) { run(c, k); }, 15, 50);
}
