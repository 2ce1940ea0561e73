from harness import *
from concurrent.futures import ThreadPoolExecutor
TEXT = ('Type-level witnesses: translation units that include only this header are type-checked by both installed compilers in three language versions; static_assert witnesses put every named constant and every '
        'promised operation in a constant expression and require the constants not to be assignable; the symbols the header defines are read from the object file (none may be strong) and two units are linked.')
COMP = [('g++', s) for s in ('c++14', 'c++17', 'c++20')] + [('clang++-18', s) for s in ('c++14', 'c++17', 'c++20')]
ILL = ['Illuminant_' + x for x in 'A B C D50 D55 D60 D65 D75 E F2 F7 F11'.split()]
GAM = 'AdobeRGB Rec709 Rec2020 DCI_P3 S_Gamut S_Gamut3_Cine ACEScg ACES2065 LMS XYZ'.split()
OBS = ['CIE1931', 'CIE31JV', 'CIE2012']
SPE = ['CIE1931_X', 'CIE1931_Y', 'CIE1931_Z', 'CIE2012_X', 'CIE2012_Y', 'CIE2012_Z', 'CIE1931_JuddVos_X', 'CIE1931_JuddVos_Y', 'CIE1931_JuddVos_Z', 'CIE_D65']
TM = ['TM_30_15::CES%02d' % i for i in range(1, 100)]
MAC = ['Macbeth::Macbeth%d%d' % (a, b) for a in range(4) for b in range(1, 7)]
HEAD = '#include "colorsystem.hpp"\nnamespace CS = ColorSystem;\nnamespace wit_units {\ntemplate <class T> constexpr bool ok(T) { return true; }\n'
LATER = {'observers sampled in constant expressions', 'spectrum sampling in constant expressions'}   # std::array::data is constexpr only from C++17
ASG = '#include <type_traits>\n'


NAMES = 'PI pi E e M N I J K L X Y Z A B C D F G H S T U V W x y z a b c d f g h i j k l m n o p q r s t u v w min max abs swap clamp lerp sign sq gamma lambda scale mix dot add mul det row col inline_ constant_ array vector string data size count begin end top bottom left right first last red green blue white black light spectrum gamut matrix observer stream buffer cursor endian EPS EPSILON TOP BOTTOM BIG LITTLE MIN MAX ABS SIGN SQR SQ CLAMP LERP GAMMA LINEAR'.split()


def finite(e): return 'static_assert(ok(%s), "not a constant");\n' % e


def units():
    U = {}
    U['header alone'] = '#include "colorsystem.hpp"\n'
    U['header included twice'] = '#include "colorsystem.hpp"\n#include "colorsystem.hpp"\nint x;\n'
    U['header included twice without pragma once'] = None
    U['header before and after standard headers'] = '#include "colorsystem.hpp"\n#include <cmath>\n#include <cstring>\n#include <iostream>\n#include <vector>\nint x;\n'
    U['header after using namespace std'] = '#include <cmath>\n#include <algorithm>\nusing namespace std;\n#include "colorsystem.hpp"\nint x;\n'
    # the header may not turn ordinary names into macros: user code that declares them itself, after the header
    U['names of user code after the header'] = '#include "colorsystem.hpp"\n' + ''.join('namespace user_%s { struct %s { int %s_; }; inline int f(%s a) { return a.%s_; } }\n' % (n, n, n, n, n) for n in NAMES) + ''.join(
        '#ifdef %s\n#error "macro %s"\n#endif\n' % (n, n) for n in NAMES)
    U['standard headers after the header'] = '#include "colorsystem.hpp"\n' + ''.join('#include <%s>\n' % h for h in 'algorithm array bitset chrono cmath complex deque functional iomanip iostream iterator limits list locale map memory mutex numeric queue random set sstream stack stdexcept string thread tuple type_traits unordered_map utility valarray vector'.split())
    U['illuminants in constant expressions'] = HEAD + ''.join(finite('CS::%s[%d]' % (n, i)) for n in ILL for i in range(3))
    U['gamuts in constant expressions'] = HEAD + ''.join(finite('CS::%s.toXYZ()[%d]' % (n, i)) + finite('CS::%s.fromXYZ()[%d]' % (n, i)) for n in GAM for i in (0, 4, 8))
    U['observers in constant expressions'] = HEAD + ''.join(finite('CS::%s.fromSpectrum(CS::CIE_D65)[%d]' % (n, i)) for n in OBS for i in range(3))
    U['spectra in constant expressions'] = HEAD + ''.join(finite('CS::%s[%d]' % (n, i)) for n in SPE + TM + MAC for i in (0, 399)) + finite('CS::Macbeth::Patch.size()') 
    V3 = 'constexpr CS::Vector3 v(1,2,3);\nconstexpr CS::Matrix3 a(1,2,3,0,1,4,5,6,0), b(2,0,0,0,3,0,0,0,4);\nconstexpr CS::Tristimulus t(.2f,.3f,.4f), u(.5f,.1f,.9f);\n'
    U['matrix operations in constant expressions'] = HEAD + V3 + '''
constexpr CS::Matrix3 m1 = a.mul(b), m2 = CS::Matrix3::mul(a, b), m3 = a.transpose(), m4 = a.invert(), m5 = a.add(b), m6 = a.mul(2.f), m7 = a.div(2.f), m8 = CS::Matrix3::diag(v),
  m9 = CS::Matrix3::crosstalk(.1f), m10 = CS::Matrix3::crosstalkInvert(.1f);
constexpr CS::Vector3 r0 = a.row(1), c0 = a.col(2), p0 = a.apply(v);
static_assert(a.det() != 0.f && v.dot(v) == 14.f && CS::Vector3::dot(v, v) == 14.f && m1[0] == m2[0] && m3[1] == 0.f && m4[0] != 99.f && m5[0] == 3.f && m6[0] == 2.f && m7[0] == .5f && m8[0] == 1.f, "");
static_assert(r0[0] == 0.f && c0[0] == 3.f && p0[0] == 14.f && m9[0] < 1.f && m10[0] > 1.f, "");
'''
    U['static matrix operations in constant expressions'] = HEAD + V3 + '''
constexpr float arr[9] = {1,2,3,4,5,6,7,8,10};
constexpr CS::Matrix3 s1 = CS::Matrix3::transpose(a), s2 = CS::Matrix3::mul(a, 2.f), s3 = CS::Matrix3::div(a, 2.f), s4 = CS::Matrix3::add(a, b), s5 = CS::Matrix3::invert(a), s6 = CS::Matrix3::fromArray(arr), s7;
constexpr CS::Vector3 s8 = CS::Matrix3::apply(a, v);
static_assert(CS::Matrix3::det(a) != 0.f && s1[0] > 0.f && s2[0] > 0.f && s3[0] > 0.f && s4[0] > 0.f && s5[0] != 0.f && s6[0] == 1.f && s7[0] == 1.f && s8[0] > 0.f && v.x() == 1.f && v.y() == 2.f && v.z() == 3.f && v.size() == 3 && a.size() == 9, "");
'''
    U['static tristimulus operations in constant expressions'] = HEAD + V3 + '''
typedef CS::Tristimulus TT;
constexpr TT b1 = TT::scale(t, 2.f), b2 = TT::apply(t, a), b3 = TT::add(t, u), b4 = TT::mul(t, u), b5 = TT::min(t, u), b6 = TT::max(t, u), b7 = TT::clip(t, 0.f, 1.f), b8 = TT::positive(t), b9(.5f), b10(v), b11;
static_assert(TT::dot(t, u) > 0.f && !TT::hasNegative(t) && TT::mini(1.f, 2.f) == 1.f && TT::maxi(1.f, 2.f) == 2.f && t.a() > 0.f && t.b() > 0.f && t.c() > 0.f && t.vec3()[0] > 0.f && t.size() == 3, "");
static_assert(b1[0] > 0.f && b2[0] > 0.f && b3[0] > 0.f && b4[0] > 0.f && b5[0] > 0.f && b6[0] > 0.f && b7[0] > 0.f && b8[0] > 0.f && b9[0] > 0.f && b10[0] > 0.f && b11[0] == 0.f, "");
'''
    U['HSV, square root and colour temperature in constant expressions'] = HEAD + V3 + '''
constexpr CS::Tristimulus h1 = t.toHSV(), h2 = h1.fromHSV(), h3 = CS::Tristimulus::toHSV(u), h4 = CS::Tristimulus::fromHSV(h3), h5 = CS::Tristimulus::fromPlanckianLocus(5000.f), h6 = CS::Tristimulus::fromCT(5000.f), h7 = CS::Tristimulus::fromCCT(5000.f, .01f);
static_assert(CS::util::sqrtf(2.f) > 1.f && CS::util::sqrtf(0.f) == 0.f && h2[0] > 0.f && h4[0] > 0.f && h5[0] > 0.f && h6[0] > 0.f && h7[0] > 0.f, "");
'''
    U['tristimulus operations in constant expressions'] = HEAD + V3 + '''
constexpr CS::Tristimulus a1 = t + u, a2 = t * u, a3 = t * 2.f, a4 = t / 2.f, a5 = t.min(u), a6 = t.max(u), a7 = t.clip(0.f, .3f), a8 = t.positive(), a9 = t.apply(a), a10 = t.add(u), a11 = t.mul(u), a12 = t.scale(2.f);
static_assert(t.dot(u) > 0.f && t.min3() == .2f && t.max3() == .4f && !t.hasNegative() && a7[2] == .3f, "");
static_assert(a1[0] == a10[0] && a2[0] == a11[0] && a3[0] == a12[0] && a4[0] == .1f && a5[0] == .2f && a6[0] == .5f && a8[0] == .2f && a9[0] != 0.f, "");
'''
    U['Yxy and uv conversions in constant expressions'] = HEAD + V3 + '''
constexpr CS::Tristimulus y1 = t.toYxy(), y2 = y1.fromYxy(), y3 = t.toYuv(), y4 = y3.fromYuv(), y5 = CS::Tristimulus::toYxy(t), y6 = CS::Tristimulus::fromYxy(1.f, .3f, .3f), y7 = CS::Tristimulus::toYuv(t), y8 = CS::Tristimulus::YxyToYuv(y1), y9 = CS::Tristimulus::YuvToYxy(y8);
constexpr CS::Tristimulus y10 = CS::Tristimulus::toYxy(.2f, .3f, .4f), y11 = CS::Tristimulus::fromYxy(y1), y12 = CS::Tristimulus::toYuv(.2f, .3f, .4f), y13 = CS::Tristimulus::fromYuv(y7), y14 = CS::Tristimulus::fromYuv(1.f, .2f, .3f);
static_assert(y1[0] == y5[0] && y2[1] > 0.f && y4[1] > 0.f && y6[1] == 1.f && y7[0] == y3[0] && y9[0] == y1[0], "");
'''
    U['gamut operations in constant expressions'] = HEAD + V3 + '''
constexpr CS::Gamut g("g", 0.64f, 0.33f, 0.21f, 0.71f, 0.15f, 0.06f, 0.3127f, 0.3290f), h("h", a);
constexpr CS::Tristimulus q1 = g.toXYZ(t), q2 = g.fromXYZ(q1), q3 = g.primaryWhite(), q4 = g.primaryRed(), q5 = g.primaryGreen(), q6 = g.primaryBlue();
constexpr CS::Matrix3 c1 = CS::GamutConvert(CS::AdobeRGB, CS::Rec2020), c2 = CS::GamutConvert(g, h), c3 = g.primaryMatrix(), c4 = CS::Gamut::fromPrimaries(0.64f, 0.33f, 0.21f, 0.71f, 0.15f, 0.06f, 0.3127f, 0.3290f), c5 = CS::Gamut::primMat(0.64f, 0.33f, 0.21f, 0.71f, 0.15f, 0.06f), c6 = CS::Gamut::mulDiag(a, v);
constexpr CS::Vector3 q7 = g.primaryVector();
static_assert(c3[0] > 0.f && c4[0] > 0.f && c5[0] > 0.f && c6[0] != 99.f && q7[0] > 0.f && q2[0] > 0.f && q3[0] > 0.f && q4[0] > 0.f && q5[0] > 0.f && q6[0] > 0.f && c1[0] != 0.f && c2[0] == c2[0], "");
'''
    U['spectrum sum and dot in constant expressions'] = HEAD + '''
constexpr CS::Spectrum z;
static_assert(z.sum() == 0.f && CS::CIE_D65.sum() > 0.f && CS::Spectrum::sum(CS::CIE_D65) == CS::CIE_D65.sum(), "");
static_assert(CS::CIE_D65.dot(CS::CIE1931_Y) > 0.f && CS::Spectrum::dot(CS::CIE_D65, z) == 0.f && CS::Spectrum::dot3(CS::CIE_D65, CS::CIE1931_Y, CS::Macbeth::Macbeth01) > 0.f, "");
static_assert(CS::CIE_D65[0] > 0.f, "");
'''
    U['spectrum sampling in constant expressions'] = HEAD + 'static_assert(CS::CIE_D65.fetch(555.5f) > 0.f, "");\n'
    U['observer operations in constant expressions'] = HEAD + '''
constexpr CS::Tristimulus o1 = CS::CIE1931.fromSpectrum(CS::CIE_D65), o2 = CS::CIE2012.fromReflectanceAndLight(CS::Macbeth::Macbeth01, CS::CIE_D65);
constexpr CS::Observer mine(CS::CIE1931_X, CS::CIE1931_Y, CS::CIE1931_Z);
static_assert(o1[1] > 0.f && o2[1] > 0.f && mine.fromSpectrum(CS::CIE_D65)[1] == o1[1], "");
'''
    U['observers sampled in constant expressions'] = HEAD + '''
constexpr CS::Tristimulus o3 = CS::CIE31JV.xyz(500.f), o4 = CS::CIE1931.candellasFromMonochromaticRadiance(555.f, 1.f);
constexpr float o5 = CS::CIE1931.lumensFromMonochromaticFlux(555.f, 1.f);
static_assert(o3[1] > 0.f && o4[1] > 0.f && o5 > 600.f, "");
'''
    U['named constants cannot be assigned'] = ASG + HEAD + ''.join('static_assert(!std::is_assignable<decltype((CS::%s)), decltype(CS::%s)>::value, "assignable");\n' % (n, n) for n in ILL + GAM + OBS + SPE + TM + MAC + ['Macbeth::Patch'])
    U['named constants have constant type'] = ASG + HEAD + ''.join('static_assert(std::is_const<decltype(CS::%s)>::value, "not const");\n' % n for n in ILL + GAM + OBS + SPE + TM + MAC + ['Macbeth::Patch'])
    for k in U:
        if U[k] and 'wit_units {' in U[k]: U[k] += '}\n'
        # only constancy is asserted here, never the value: each operand is evaluated at compile time and accepted whatever it is
        if U[k]: U[k] = re.sub(r'(?m)^static_assert\((?!ok|!?std::)(.*), ""\);$', lambda m: 'static_assert(' + ' && '.join('ok(%s)' % x for x in m.group(1).split(' && ')) + ', "");', U[k])
    return U


def check(cx):
    inc = os.path.join(REPO, 'include')
    U = units()
    src = open(os.path.join(inc, 'colorsystem.hpp')).read()
    d2 = os.path.join(cx.tmp, 'nopragma')
    os.makedirs(d2)
    open(os.path.join(d2, 'colorsystem.hpp'), 'w').write(re.sub(r'(?m)^\s*#\s*pragma\s+once.*$', '', src))
    U['header included twice without pragma once'] = '#include "colorsystem.hpp"\n#include "colorsystem.hpp"\nint x;\n'
    open(os.path.join(cx.tmp, 'copy.hpp'), 'w').write('')
    jobs = []
    for k, (name, text) in enumerate(U.items()):
        p = os.path.join(cx.tmp, 'u%d.cpp' % k)
        open(p, 'w').write(text)
        for c, s in COMP:
            if name in LATER and s == 'c++14': continue
            # an include guard or pragma once is enough; the variant without the pragma matters only if a guard exists
            i = d2 if 'without pragma' in name else inc
            if 'without pragma' in name and not re.search(r'#ifndef\s+(\w+)\s*\n\s*#define\s+\1', src): continue
            jobs.append((name, c, s, [c, '-std=' + s, '-fsyntax-only', '-w', '-I' + i, p]))

    def run(j):
        r = subprocess.run(j[3], capture_output=True, text=True)
        return j, r.returncode, r.stderr
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: res = list(ex.map(run, jobs))
    for (name, c, s, _), rc, err in res:
        t = '%s (%s %s)' % (name, c.split('-')[0], s)
        if rc == 0: cx.holds(t, 'accepted by the compiler')
        else:
            m = re.search(r'(?m)^[^\n]*?colorsystem\.hpp:(\d+)', err)
            e = re.search(r'(?m)^.*\berror: .*$', err)
            w = e.group(0) if e else err[:300]
            mw = re.search(r'u\d+\.cpp:(\d+)', w)
            if mw:
                k = int(mw.group(1))
                w += ' -- in `%s`' % U[name].split('\n')[k - 1][:200]
            cx.violation(t, 'rejected: %s' % w[:600], [('include/colorsystem.hpp', int(m.group(1)) if m else 1, 'header')])
    # symbols defined by the header and linking of several units
    for c, s in COMP:
        objs = []
        tag = '%s %s' % (c.split('-')[0], s)
        for k in range(2):
            p = os.path.join(cx.tmp, 'l%d.cpp' % k)
            open(p, 'w').write(LINK % dict(k=k) + ('int main() { return (int)f0() + (int)f1(); }\n' if k == 0 else ''))
            o = os.path.join(cx.tmp, 'l%d_%s_%s.o' % (k, c, s))
            objs.append((p, o))
        cmds = [[c, '-std=' + s, '-w', '-c', '-I' + inc] + (['-femit-all-decls'] if 'clang' in c else ['-fkeep-inline-functions', '-fkeep-static-functions']) + [p, '-o', o] for p, o in objs]
        with ThreadPoolExecutor(max_workers=2) as ex: rr = list(ex.map(lambda q: subprocess.run(q, capture_output=True, text=True), cmds))
        if any(r.returncode for r in rr):
            e = rr[0].stderr or rr[1].stderr
            cx.violation('two units using the header compile (%s)' % tag, 'rejected: %s' % e[:500]); continue
        bad = []
        n = 0
        r = subprocess.run(['nm', '-C', '--defined-only', objs[1][1]], capture_output=True, text=True)
        for L in r.stdout.split('\n'):
            q = L.split(None, 2)
            if len(q) == 3:
                n += 1
                if q[1] in 'TDBRCG' and q[2] not in ('f1()',) : bad.append(q[2])
        cx.expect('the header defines no strong symbol (%s)' % tag, not bad, 'strong symbols %s would clash between units' % ', '.join(bad[:5]), how='symbol table', symbols=n)
        r = subprocess.run([c] + [o for _, o in objs] + ['-o', os.path.join(cx.tmp, 'prog')], capture_output=True, text=True)
        cx.expect('two units link into one program (%s)' % tag, r.returncode == 0, 'link error: %s' % r.stderr[:500], how='linked, not run')
    cx.extra['compilations'] = len(jobs) + 2 * len(COMP)


LINK = '''#include "colorsystem.hpp"
using namespace ColorSystem;
float f0(); float f1();
float f%(k)d() {
  std::vector<Tristimulus> p(24, Tristimulus(.1f, .2f, .3f));
  MemoryStream s; s.putString("x"); s.putDouble(1.); s.fseek(0, MemoryStream::TOP);
  Tristimulus t = OTF::toScreen(OTF::SRGB, OTF::toScene(OTF::HLG, Tristimulus(.1f)));
  return Corrector::solve(p)[0] + Delta::E00(t, t) + Delta::E76(t, t) + Delta::UV(t, t) + Delta::ICtCp(t, t) + (float)s.get_string().size() + Spectrum::blackbody(5000.f).sum() + Bradford(Illuminant_A, Illuminant_D65)[0]
    + XYZ_to_OKLAB(t)[0] + OKLAB_to_XYZ(t)[0] + t.toHSV()[0] + t.toCIELAB(Illuminant_D50)[0] + Macbeth::reference(CIE_D65)[0][0] + (float)TM_30_15::CES01[0] + util::sqrtf(2.f) + Tristimulus::fromCCT(5000.f, .01f)[0];
}
'''
