#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include "common.h"
// entry points taking 12 floats: used to look for definite data on which an uncounted loop or recursion does not end
typedef Tristimulus Q;
static inline std::vector<Tristimulus> VT(const float *p, int n) { std::vector<Tristimulus> v; for (int i = 0; i < n; i++) v.push_back(T(p + (3 * i) % 10)); return v; }
static inline Spectrum SP(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i % 12]; return Spectrum(a); }
static inline void OS(float *o, const Spectrum &s) { o[0] = s[0]; o[1] = s[399]; }
W t_tohsv(const float *p, float *o) { O(o, Q::toHSV(T(p))); }
W t_fromhsv(const float *p, float *o) { O(o, Q::fromHSV(T(p))); }
W t_hsvatan(const float *p, float *o) { O(o, Q::toHSV_atan(T(p))); }
W t_tolab(const float *p, float *o) { O(o, Q::toCIELAB(T(p), T(p + 3))); O(o + 3, T(p).toCIELAB()); }
W t_fromlab(const float *p, float *o) { O(o, Q::fromCIELAB(T(p), T(p + 3))); O(o + 3, T(p).fromCIELAB()); }
W t_yxy(const float *p, float *o) { O(o, T(p).toYxy()); O(o, T(p).fromYxy()); O(o, T(p).toYuv()); O(o, T(p).fromYuv()); }
W t_otf0(const float *p, float *o) { O(o, OTF::toScreen(OTF::LINEAR, T(p), p[3])); O(o, OTF::toScreen(OTF::GAMMA, T(p), p[3])); O(o, OTF::toScreen(OTF::SRGB, T(p), p[3])); O(o, OTF::toScreen(OTF::BT709, T(p), p[3])); }
W t_otf1(const float *p, float *o) { O(o, OTF::toScreen(OTF::ST2084, T(p), p[3])); O(o, OTF::toScreen(OTF::SLOG, T(p), p[3])); O(o, OTF::toScreen(OTF::SLOG2, T(p), p[3])); O(o, OTF::toScreen(OTF::SLOG3, T(p), p[3])); O(o, OTF::toScreen(OTF::HLG, T(p), p[3])); }
W t_otf2(const float *p, float *o) { O(o, OTF::toScene(OTF::LINEAR, T(p), p[3])); O(o, OTF::toScene(OTF::GAMMA, T(p), p[3])); O(o, OTF::toScene(OTF::SRGB, T(p), p[3])); O(o, OTF::toScene(OTF::BT709, T(p), p[3])); }
W t_otf3(const float *p, float *o) { O(o, OTF::toScene(OTF::ST2084, T(p), p[3])); O(o, OTF::toScene(OTF::SLOG, T(p), p[3])); O(o, OTF::toScene(OTF::SLOG2, T(p), p[3])); O(o, OTF::toScene(OTF::SLOG3, T(p), p[3])); O(o, OTF::toScene(OTF::HLG, T(p), p[3])); }
W t_delta(const float *p, float *o) { o[0] = Delta::UV(T(p), T(p + 3)) + Delta::E76(T(p), T(p + 3)) + Delta::ICtCp(T(p), T(p + 3)); }
W t_e00(const float *p, float *o) { o[0] = Delta::E00(T(p), T(p + 3), p[6], p[7], p[8]); }
W t_pl(const float *p, float *o) { O(o, Q::fromPlanckianLocus(p[0], p[1])); }
W t_ct(const float *p, float *o) { O(o, Q::fromCT(p[0], p[1])); }
W t_cct(const float *p, float *o) { O(o, Q::fromCCT(p[0], p[1], p[2])); }
W t_sqrt(const float *p, float *o) { o[0] = util::sqrtf(p[0]); }
W t_fetch(const float *p, float *o) { o[0] = Spectrum::fetch(p + 3, 5, p[0], p[1], p[2]); }
W t_sctor(const float *p, float *o) { OS(o, Spectrum(p + 2, 5, p[0], p[1])); }
W t_planck(const float *p, float *o) { o[0] = (float)Spectrum::planck(p[0], p[1]); }
W t_bb(const float *p, float *o) { OS(o, Spectrum::blackbody(p[0])); }
W t_spec(const float *p, float *o) { Spectrum a = SP(p), b = SP(p + 0); OS(o, Spectrum::mul(a, b)); OS(o, Spectrum::mul(a, p[0])); OS(o, Spectrum::add(a, b)); OS(o, Spectrum::E(p[1])); o[2] = a.sum() + a.dot(b) + Spectrum::dot3(a, b, a); }
W t_obs(const float *p, float *o) { O(o, CIE1931.xyz(p[0])); o[3] = CIE1931.lumensFromMonochromaticFlux(p[0], p[1]); O(o, CIE1931.candellasFromMonochromaticRadiance(p[0], p[1])); }
W t_oklab(const float *p, float *o) { O(o, XYZ_to_OKLAB(T(p))); O(o, OKLAB_to_XYZ(T(p))); }
W t_ictcp(const float *p, float *o) { O(o, XYZ_to_ICtCp(T(p))); O(o, ICtCp_to_XYZ(T(p))); }
W t_brad(const float *p, float *o) { O(o, Bradford(T(p), T(p + 3))); }
W t_mat(const float *p, float *o) { Matrix3 m = M(p); O(o, m.invert()); O(o, m.mul(m)); o[0] = m.det(); O(o, Matrix3::crosstalk(p[0])); O(o, Matrix3::crosstalkInvert(p[0])); }
W t_gamut(const float *p, float *o) { Gamut g("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); O(o, g.toXYZ()); O(o, g.fromXYZ()); O(o, g.primaryWhite()); O(o, GamutConvert(g, Rec709)); }
W t_arith(const float *p, float *o) { Tristimulus a = T(p), b = T(p + 3); O(o, a + b); O(o, a * b); O(o, a * p[0]); O(o, a / p[0]); O(o, a.clip(p[6], p[7])); O(o, a.positive()); o[0] = a.min3() + a.max3() + a.dot(b) + a.hasNegative(); }
W t_solve(const float *p, float *o) { O(o, Corrector::solve(VT(p, 3), VT(p + 1, 3))); }
W t_stream(const float *p, float *o) { MemoryStream s; s.putFloat(p[0]); s.putDouble(p[1]); s.putString("ab"); s.fseek(0, MemoryStream::TOP); o[0] = s.getFloat(); o[1] = (float)s.getDouble(); }
// entry points taking integers: p[0] = buffer size, p[1] = cursor, p[2] = argument
#define ST static const uint8_t zz[8] = {44, 1, 0, 0, 44, 1, 0, 0}; MemoryStream s; for (int i = 0; i < p[0]; i++) s.buffer().push_back(zz[i & 7]); s.fseek(p[1], MemoryStream::TOP); int x = p[2]
#define DN o[0] = (float)s.ftell() + (float)s.buffer().size()
W i_align(const int *p, float *o) { ST; s.align(x); DN; }
W i_getsub(const int *p, float *o) { ST; o[1] = (float)s.getSubstr(x).size(); DN; }
W i_getstr(const int *p, float *o) { ST; o[1] = (float)s.get_string().size() + x; DN; }
W i_putsub(const int *p, float *o) { ST; s.putSubstr(std::string("abcdefgh"), (size_t)x); DN; }
W i_putstr(const int *p, float *o) { ST; s.putString(std::string((size_t)x, 'q')); DN; }
W i_read(const int *p, float *o) { ST; std::vector<uint8_t> t(x + 1); o[1] = (float)s.read(t.data(), (size_t)x); DN; }
W i_write(const int *p, float *o) { ST; std::vector<uint8_t> t(x + 1); o[1] = (float)s.write(t.data(), (size_t)x); DN; }
W i_fetch(const int *p, float *o) { std::vector<float> t(p[2] + 2); o[0] = Spectrum::fetch(t.data(), p[2] + 2, 0.f, 1.f, p[1] * .01f); }
W i_num(const int *p, float *o) { ST; s.putInt8((int8_t)x); s.putInt16((int16_t)x); s.putInt32(x); s.putInt64(x); s.putUint64(x); s.fseek(p[1], MemoryStream::TOP); o[1] = s.getInt8() + s.getInt16() + s.getInt32() + s.getInt64() + s.getUint64(); size_t a = s.putPointer32(); s.adjustPointer32(a); a = s.putPointer64(); s.adjustPointer64(a); DN; }
W i_at(const int *p, float *o) { ST; o[1] = s.get_at((size_t)x); s.put_at((size_t)(x & 1023), 1); s.seekTo((size_t)(x & 3)); DN; }
// p[2] = number of rows or patches
W i_rows(const int *p, float *o) { int n = p[2]; SOLVER::Matrix a(n, 1); SOLVER::Vector b(n), x(1); for (int i = 0; i < n; i++) { a[i][0] = (float)(i % 5 + 1); b[i] = 1.f; } o[1] = (float)SOLVER::solve(a, b, x); o[0] = x[0]; }
W i_patch(const int *p, float *o) { std::vector<Tristimulus> a, b; for (int i = 0; i < p[2]; i++) { a.push_back(Tristimulus((float)(i % 5), (float)(i % 3), (float)(i % 7))); b.push_back(a.back()); } O(o, Corrector::solve(a, b)); }
