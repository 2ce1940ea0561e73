#include "common.h"
static inline OTF::TYPE ty(int t) { switch (t) { case 0: return OTF::LINEAR; case 1: return OTF::GAMMA; case 2: return OTF::SRGB; case 3: return OTF::BT709; case 4: return OTF::ST2084; case 5: return OTF::SLOG; case 6: return OTF::SLOG2; case 7: return OTF::SLOG3; default: return OTF::HLG; } }
W c_toScreen(int t, const float *a, float g, float *o) { O(o, OTF::toScreen(ty(t), T(a), g)); }
W c_toScene(int t, const float *a, float g, float *o) { O(o, OTF::toScene(ty(t), T(a), g)); }
W c_toScreen1(int t, const float *a, float *o) { O(o, OTF::toScreen(ty(t), T(a))); }
W c_toScene1(int t, const float *a, float *o) { O(o, OTF::toScene(ty(t), T(a))); }
W c_round(int t, const float *a, float g, float *o) { O(o, OTF::toScene(ty(t), OTF::toScreen(ty(t), T(a), g), g)); }
