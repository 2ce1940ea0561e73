#include "common.h"
// generated from data/tables.json
static inline void OS(float *o, const Spectrum &s) { for (int i = 0; i < 400; i++) o[i] = s[i]; }
W c_CIE1931_X(float *o) { OS(o, CIE1931_X); }
W c_CIE1931_Y(float *o) { OS(o, CIE1931_Y); }
W c_CIE1931_Z(float *o) { OS(o, CIE1931_Z); }
W c_CIE2012_X(float *o) { OS(o, CIE2012_X); }
W c_CIE2012_Y(float *o) { OS(o, CIE2012_Y); }
W c_CIE2012_Z(float *o) { OS(o, CIE2012_Z); }
W c_CIE1931_JuddVos_X(float *o) { OS(o, CIE1931_JuddVos_X); }
W c_CIE1931_JuddVos_Y(float *o) { OS(o, CIE1931_JuddVos_Y); }
W c_CIE1931_JuddVos_Z(float *o) { OS(o, CIE1931_JuddVos_Z); }
W c_CIE_D65(float *o) { OS(o, CIE_D65); }
W c_CES01(float *o) { OS(o, TM_30_15::CES01); }
W c_CES02(float *o) { OS(o, TM_30_15::CES02); }
W c_CES03(float *o) { OS(o, TM_30_15::CES03); }
W c_CES04(float *o) { OS(o, TM_30_15::CES04); }
W c_CES05(float *o) { OS(o, TM_30_15::CES05); }
W c_CES06(float *o) { OS(o, TM_30_15::CES06); }
W c_CES07(float *o) { OS(o, TM_30_15::CES07); }
W c_CES08(float *o) { OS(o, TM_30_15::CES08); }
W c_CES09(float *o) { OS(o, TM_30_15::CES09); }
W c_CES10(float *o) { OS(o, TM_30_15::CES10); }
W c_CES11(float *o) { OS(o, TM_30_15::CES11); }
W c_CES12(float *o) { OS(o, TM_30_15::CES12); }
W c_CES13(float *o) { OS(o, TM_30_15::CES13); }
W c_CES14(float *o) { OS(o, TM_30_15::CES14); }
W c_CES15(float *o) { OS(o, TM_30_15::CES15); }
W c_CES16(float *o) { OS(o, TM_30_15::CES16); }
W c_CES17(float *o) { OS(o, TM_30_15::CES17); }
W c_CES18(float *o) { OS(o, TM_30_15::CES18); }
W c_CES19(float *o) { OS(o, TM_30_15::CES19); }
W c_CES20(float *o) { OS(o, TM_30_15::CES20); }
W c_CES21(float *o) { OS(o, TM_30_15::CES21); }
W c_CES22(float *o) { OS(o, TM_30_15::CES22); }
W c_CES23(float *o) { OS(o, TM_30_15::CES23); }
W c_CES24(float *o) { OS(o, TM_30_15::CES24); }
W c_CES25(float *o) { OS(o, TM_30_15::CES25); }
W c_CES26(float *o) { OS(o, TM_30_15::CES26); }
W c_CES27(float *o) { OS(o, TM_30_15::CES27); }
W c_CES28(float *o) { OS(o, TM_30_15::CES28); }
W c_CES29(float *o) { OS(o, TM_30_15::CES29); }
W c_CES30(float *o) { OS(o, TM_30_15::CES30); }
W c_CES31(float *o) { OS(o, TM_30_15::CES31); }
W c_CES32(float *o) { OS(o, TM_30_15::CES32); }
W c_CES33(float *o) { OS(o, TM_30_15::CES33); }
W c_CES34(float *o) { OS(o, TM_30_15::CES34); }
W c_CES35(float *o) { OS(o, TM_30_15::CES35); }
W c_CES36(float *o) { OS(o, TM_30_15::CES36); }
W c_CES37(float *o) { OS(o, TM_30_15::CES37); }
W c_CES38(float *o) { OS(o, TM_30_15::CES38); }
W c_CES39(float *o) { OS(o, TM_30_15::CES39); }
W c_CES40(float *o) { OS(o, TM_30_15::CES40); }
W c_CES41(float *o) { OS(o, TM_30_15::CES41); }
W c_CES42(float *o) { OS(o, TM_30_15::CES42); }
W c_CES43(float *o) { OS(o, TM_30_15::CES43); }
W c_CES44(float *o) { OS(o, TM_30_15::CES44); }
W c_CES45(float *o) { OS(o, TM_30_15::CES45); }
W c_CES46(float *o) { OS(o, TM_30_15::CES46); }
W c_CES47(float *o) { OS(o, TM_30_15::CES47); }
W c_CES48(float *o) { OS(o, TM_30_15::CES48); }
W c_CES49(float *o) { OS(o, TM_30_15::CES49); }
W c_CES50(float *o) { OS(o, TM_30_15::CES50); }
W c_CES51(float *o) { OS(o, TM_30_15::CES51); }
W c_CES52(float *o) { OS(o, TM_30_15::CES52); }
W c_CES53(float *o) { OS(o, TM_30_15::CES53); }
W c_CES54(float *o) { OS(o, TM_30_15::CES54); }
W c_CES55(float *o) { OS(o, TM_30_15::CES55); }
W c_CES56(float *o) { OS(o, TM_30_15::CES56); }
W c_CES57(float *o) { OS(o, TM_30_15::CES57); }
W c_CES58(float *o) { OS(o, TM_30_15::CES58); }
W c_CES59(float *o) { OS(o, TM_30_15::CES59); }
W c_CES60(float *o) { OS(o, TM_30_15::CES60); }
W c_CES61(float *o) { OS(o, TM_30_15::CES61); }
W c_CES62(float *o) { OS(o, TM_30_15::CES62); }
W c_CES63(float *o) { OS(o, TM_30_15::CES63); }
W c_CES64(float *o) { OS(o, TM_30_15::CES64); }
W c_CES65(float *o) { OS(o, TM_30_15::CES65); }
W c_CES66(float *o) { OS(o, TM_30_15::CES66); }
W c_CES67(float *o) { OS(o, TM_30_15::CES67); }
W c_CES68(float *o) { OS(o, TM_30_15::CES68); }
W c_CES69(float *o) { OS(o, TM_30_15::CES69); }
W c_CES70(float *o) { OS(o, TM_30_15::CES70); }
W c_CES71(float *o) { OS(o, TM_30_15::CES71); }
W c_CES72(float *o) { OS(o, TM_30_15::CES72); }
W c_CES73(float *o) { OS(o, TM_30_15::CES73); }
W c_CES74(float *o) { OS(o, TM_30_15::CES74); }
W c_CES75(float *o) { OS(o, TM_30_15::CES75); }
W c_CES76(float *o) { OS(o, TM_30_15::CES76); }
W c_CES77(float *o) { OS(o, TM_30_15::CES77); }
W c_CES78(float *o) { OS(o, TM_30_15::CES78); }
W c_CES79(float *o) { OS(o, TM_30_15::CES79); }
W c_CES80(float *o) { OS(o, TM_30_15::CES80); }
W c_CES81(float *o) { OS(o, TM_30_15::CES81); }
W c_CES82(float *o) { OS(o, TM_30_15::CES82); }
W c_CES83(float *o) { OS(o, TM_30_15::CES83); }
W c_CES84(float *o) { OS(o, TM_30_15::CES84); }
W c_CES85(float *o) { OS(o, TM_30_15::CES85); }
W c_CES86(float *o) { OS(o, TM_30_15::CES86); }
W c_CES87(float *o) { OS(o, TM_30_15::CES87); }
W c_CES88(float *o) { OS(o, TM_30_15::CES88); }
W c_CES89(float *o) { OS(o, TM_30_15::CES89); }
W c_CES90(float *o) { OS(o, TM_30_15::CES90); }
W c_CES91(float *o) { OS(o, TM_30_15::CES91); }
W c_CES92(float *o) { OS(o, TM_30_15::CES92); }
W c_CES93(float *o) { OS(o, TM_30_15::CES93); }
W c_CES94(float *o) { OS(o, TM_30_15::CES94); }
W c_CES95(float *o) { OS(o, TM_30_15::CES95); }
W c_CES96(float *o) { OS(o, TM_30_15::CES96); }
W c_CES97(float *o) { OS(o, TM_30_15::CES97); }
W c_CES98(float *o) { OS(o, TM_30_15::CES98); }
W c_CES99(float *o) { OS(o, TM_30_15::CES99); }
W c_Macbeth01(float *o) { OS(o, Macbeth::Macbeth01); }
W c_Macbeth02(float *o) { OS(o, Macbeth::Macbeth02); }
W c_Macbeth03(float *o) { OS(o, Macbeth::Macbeth03); }
W c_Macbeth04(float *o) { OS(o, Macbeth::Macbeth04); }
W c_Macbeth05(float *o) { OS(o, Macbeth::Macbeth05); }
W c_Macbeth06(float *o) { OS(o, Macbeth::Macbeth06); }
W c_Macbeth11(float *o) { OS(o, Macbeth::Macbeth11); }
W c_Macbeth12(float *o) { OS(o, Macbeth::Macbeth12); }
W c_Macbeth13(float *o) { OS(o, Macbeth::Macbeth13); }
W c_Macbeth14(float *o) { OS(o, Macbeth::Macbeth14); }
W c_Macbeth15(float *o) { OS(o, Macbeth::Macbeth15); }
W c_Macbeth16(float *o) { OS(o, Macbeth::Macbeth16); }
W c_Macbeth21(float *o) { OS(o, Macbeth::Macbeth21); }
W c_Macbeth22(float *o) { OS(o, Macbeth::Macbeth22); }
W c_Macbeth23(float *o) { OS(o, Macbeth::Macbeth23); }
W c_Macbeth24(float *o) { OS(o, Macbeth::Macbeth24); }
W c_Macbeth25(float *o) { OS(o, Macbeth::Macbeth25); }
W c_Macbeth26(float *o) { OS(o, Macbeth::Macbeth26); }
W c_Macbeth31(float *o) { OS(o, Macbeth::Macbeth31); }
W c_Macbeth32(float *o) { OS(o, Macbeth::Macbeth32); }
W c_Macbeth33(float *o) { OS(o, Macbeth::Macbeth33); }
W c_Macbeth34(float *o) { OS(o, Macbeth::Macbeth34); }
W c_Macbeth35(float *o) { OS(o, Macbeth::Macbeth35); }
W c_Macbeth36(float *o) { OS(o, Macbeth::Macbeth36); }
W c_lists(float *o, int *n) { n[0] = (int)TM_30_15::sample.size(); n[1] = (int)Macbeth::Patch.size();
    for (int k = 0; k < 99; k++) OS(o + 400 * k, TM_30_15::sample[k]);
    for (int k = 0; k < 24; k++) OS(o + 400 * (99 + k), Macbeth::Patch[k]); }
W c_obs(float *o) {
    OS(o, CIE1931.X_); OS(o + 400, CIE1931.Y_); OS(o + 800, CIE1931.Z_);
    OS(o + 1200, CIE31JV.X_); OS(o + 1600, CIE31JV.Y_); OS(o + 2000, CIE31JV.Z_);
    OS(o + 2400, CIE2012.X_); OS(o + 2800, CIE2012.Y_); OS(o + 3200, CIE2012.Z_); }
