#include "common.h"
W c_ill(float *o) { O(o, Illuminant_A); O(o + 3, Illuminant_B); O(o + 6, Illuminant_C); O(o + 9, Illuminant_D50); O(o + 12, Illuminant_D55); O(o + 15, Illuminant_D60); O(o + 18, Illuminant_D65); O(o + 21, Illuminant_D75); O(o + 24, Illuminant_E); O(o + 27, Illuminant_F2); O(o + 30, Illuminant_F7); O(o + 33, Illuminant_F11); }
#define G(n) W c_##n(float *o) { O(o, n.toXYZ()); O(o + 9, n.fromXYZ()); O(o + 18, n.primaryRed()); O(o + 21, n.primaryGreen()); O(o + 24, n.primaryBlue()); O(o + 27, n.primaryWhite()); O(o + 30, n.toXYZ(Tristimulus(1.f, 1.f, 1.f))); O(o + 33, n.fromXYZ(Tristimulus(1.f, 1.f, 1.f))); }
G(AdobeRGB) G(Rec709) G(Rec2020) G(DCI_P3) G(S_Gamut) G(S_Gamut3_Cine) G(ACEScg) G(ACES2065) G(LMS) G(XYZ)
W c_lab(float *o) { O(o, Illuminant_D50.toCIELAB()); O(o + 3, Tristimulus(100.f, 0.f, 0.f).fromCIELAB()); }
