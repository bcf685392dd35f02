#pragma once
#include "layerutil.hpp"
struct Act { int kind; float alpha; };
inline const char* act_name(int k) { static const char* n[] = {"ReLU", "LeakyReLU", "ELU", "Sigmoid"}; return n[k]; }
inline Act gen_act(Case& c, int kind) {
    static const float al[] = {0.01f, 0.1f, 0.25f, 1.f, 0.5f, 2.f, 0.f, 1.6733f, -0.5f, 10.f};
    Act a{kind, 0.f};
    if (kind == 1 || kind == 2) a.alpha = c.flag(30) ? float(c.flag(20) ? c.real(-3, 100) : c.real(0, 3)) : al[c.draw(10)];
    return a;
}
inline Rig make_act(const Act& a, const std::vector<int>& s) {
    switch (a.kind) {
    case 0: return Rig::make(dw::ReLU("l"), s);
    case 1: return Rig::make(dw::LeakyReLU(a.alpha, "l"), s);
    case 2: return Rig::make(dw::ELU(a.alpha, "l"), s);
    default: return Rig::make(dw::Sigmoid("l"), s);
    }
}
