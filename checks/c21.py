from .bq import *

META = dict(
    title="Chebyshev designs realise the Chebyshev filter of the specification",
    statement="For every sampling frequency, pass and stop frequency and attenuation, the type 1 and type 2 low-pass and high-pass designs have the smallest order that meets the specification, report its parameters, and consist of the bilinear transforms of the first- and second-order sections of that analog Chebyshev prototype. The type 1 response peaks at 1 and is at the bottom of the pass-band ripple at zero frequency (low-pass) for an even order. A cascade made from a design holds exactly its sections, in order, with cleared state.",
    over=["inputs", "configurations"],
    text="type 1 and 2, low-pass and high-pass, orders 1..24 (thorough: 1..60), all frequencies and attenuations (including the clamp of small ones), parameters in double, float and mixed types; cascades of 0..6, 12 and 20 sections",
    why="A wrong pole or gain still gives some low-pass filter; a test would have to know the right one for each order.",
    files=["include/dsp/chebyshev-design.hpp", "include/dsp/filter-design.hpp"],
    mechanism=[("chebyshev1_lp_hp(), chebyshev2_lp_hp()", "include/dsp/chebyshev-design.hpp"), ("make_biquad_cascade()", "include/dsp/chebyshev-design.hpp")],
    how="the inputs are split by the order the design computes; for each order every coefficient is compared with the bilinear transform of the analog Chebyshev section, and the quantity that is rounded up to the order with its definition",
    note="real-number semantics; desktop; orders above the bound are not analysed; attenuations below 0.01 dB count as 0.01 dB; the band-stop design is an empty stub",
    technique=VF)

PRE = '#include "dsp/chebyshev-design.hpp"\n#include <cstdlib>\nusing namespace dsp;\n'

SPEC = """
using T=%(T)s; T const PI=T(3.14159265358979323846264338327950288L); int const N=%(N)d;
T const fs=fsmp, fp=fpass, ft=fstop, Ap=apass<T(0.01)?T(0.01):T(apass), As=astop<T(0.01)?T(0.01):T(astop);
if(!(fp<fs/2)) abort(); if(!(ft<fs/2)) abort();
bool const hp=%(hp)d; T const s=hp?-1:1;
T const tp=__builtin_tan(PI*fp/fs), tt=__builtin_tan(PI*ft/fs);
T const Wp=hp?1/tp:tp, Wt=hp?1/tt:tt;
T const ep=__builtin_sqrt(__builtin_exp(Ap/10*__builtin_log(T(10)))-1), es=__builtin_sqrt(__builtin_exp(As/10*__builtin_log(T(10)))-1);
T const Nex=__builtin_acosh(es/ep)/__builtin_acosh(Wt/Wp);
(void)int(__builtin_ceil(Nex));
auto const ch=[](T x, T k){ return x<1 ? __builtin_cos(__builtin_acos(x)/k) : x>1 ? __builtin_cosh(__builtin_acosh(x)/k) : T(1); };
"""
TYPE1 = """
T const a=__builtin_asinh(1/ep)/N, sh=__builtin_sinh(a), W3=Wp*ch(1/ep,N);
T const f3=fs/PI*(hp?__builtin_atan(1/W3):__builtin_atan(W3));
auto const sec=[&](int k, T*n, T*d){ T const w0=sh*Wp;
  if(k==0) { n[0]=w0; n[1]=0; n[2]=0; d[0]=w0; d[1]=1; d[2]=0; }
  else { T const th=PI*(N-1+2*k)/(2*N), wi=Wp*__builtin_sin(th), g=(k==1&&N%%2==0)?1/__builtin_sqrt(1+ep*ep):T(1);
    n[0]=g*(w0*w0+wi*wi); n[1]=n[2]=0; d[0]=w0*w0+wi*wi; d[1]=-2*w0*__builtin_cos(th); d[2]=1; } };
"""
TYPE2 = """
T const a=__builtin_asinh(es)/N, sh=__builtin_sinh(a), W3=Wt/ch(es,N);
T const f3=fs/PI*(hp?__builtin_atan(1/W3):__builtin_atan(W3));
auto const sec=[&](int k, T*n, T*d){ T const w0=sh/Wt;
  if(k==0) { n[0]=1; n[1]=n[2]=0; d[0]=1; d[1]=w0; d[2]=0; }
  else { T const th=PI*(N-1+2*k)/(2*N), wi=__builtin_sin(th)/Wt;
    n[0]=1; n[1]=0; n[2]=wi*wi; d[0]=1; d[1]=-2*w0*__builtin_cos(th); d[2]=w0*w0+wi*wi; } };
"""
TAIL = """
inf[0]=Wp;inf[1]=Wt;inf[2]=ep;inf[3]=es;inf[4]=Nex;inf[5]=f3;inf[6]=a; n[0]=N; n[1]=n[2]=(N+1)/2;
int at=0;
if(N%%2) { T p[3],q[3]; sec(0,p,q); T const D=q[0]+q[1]; c[0]=(p[0]+p[1])/D; c[1]=s*(p[0]-p[1])/D; c[2]=0; c[3]=s*(q[0]-q[1])/D; c[4]=0; at=5; }
for(int k=1;k<=N/2;++k) { T p[3],q[3]; sec(k,p,q); T const D=q[0]+q[1]+q[2];
  c[at]=(p[0]+p[1]+p[2])/D; c[at+1]=s*2*(p[0]-p[2])/D; c[at+2]=(p[0]-p[1]+p[2])/D; c[at+3]=s*2*(q[0]-q[2])/D; c[at+4]=(q[0]-q[1]+q[2])/D; at+=5; }
"""
CODE = """
auto const r=chebyshev%(typ)d_lp_hp(FilterResponse::%(kind)s, fsmp, fpass, fstop, apass, astop);
static_assert(sizeof(r.b[0].b0)==sizeof(%(T)s),"");
auto const & i=r.info; inf[0]=i.Wpass;inf[1]=i.Wstop;inf[2]=i.epass;inf[3]=i.estop;inf[4]=i.Nex;inf[5]=i.f3;inf[6]=i.a; n[0]=i.N; n[1]=r.size(); n[2]=r.a.size();
for(int k=0;k<%(L)d;++k) { c[5*k]=r.b[k].b0;c[5*k+1]=r.b[k].b1;c[5*k+2]=r.b[k].b2;c[5*k+3]=r.a[k].a1;c[5*k+4]=r.a[k].a2; }
"""
NAMES = ("fsmp", "fpass", "fstop", "apass", "astop")


def check(ctx):
    pr = []
    for typ in (1, 2):
        for kind in ("low_pass", "high_pass"):
            for tag, T, ty, top in (("d", "double", ("double",) * 5, 24 if ctx.tier == "quick" else 60), ("f", "float", ("float",) * 5, 9), ("m", "double", ("int", "double", "float", "float", "int"), 4), ("i", "float", ("int",) * 5, 3)):
                for N in range(1, top + 1):
                    L = (N + 1) // 2
                    v = dict(typ=typ, kind=kind, T=T, N=N, L=L, hp=int(kind == "high_pass"))
                    pr.append(Probe("c%d%s%s%d" % (typ, kind[0], tag, N), [S(n, t) for n, t in zip(NAMES, ty)] + [OUT("inf", T, 7), OUT("n", "int", 3), OUT("c", T, 5 * L)],
                                    CODE % v, (SPEC + (TYPE1 if typ == 1 else TYPE2) + TAIL) % v, "Chebyshev type %d %s of order %d (%s)" % (typ, kind, N, ", ".join(ty)), partition=N))
    # cascades of given sections, and of a whole design
    ca = []
    for T in ("double", "float"):
        for m in list(range(0, 7)) + [12, 20]:
            for cap in sorted({m or 1, m + 1 if m > 5 else 6}):
                mk = "DigitalCoeffT<%s> r; " % T + "".join("r.b.emplace_back(c[%d],c[%d],c[%d]); r.a.emplace_back(c[%d],c[%d]); " % tuple(range(5 * k, 5 * k + 5)) for k in range(m))
                ca.append(Probe("casc_%s_%d_%d" % (T, m, cap), [IN("c", T, 5 * max(m, 1)), OUT("n", "int", 2), OUT("o", T, 7 * max(m, 1))],
                                "using T=%s; for(int k=0;k<7*%d;++k) o[k]=0; %s auto const q=make_biquad_cascade<%d>(r); n[0]=q.size(); n[1]=q.reserved();" % (T, max(m, 1), mk, cap) +
                                "".join("{ auto const ca=q.coeff_a(%d); auto const cb=q.coeff_b(%d); auto const w=q.state(%d); T*d=o+%d; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2;d[5]=w.v1;d[6]=w.v2; }" % (i, i, i, 7 * i) for i in range(m)),
                                "for(int k=0;k<7*%d;++k) o[k]=0; n[0]=%d; n[1]=%d; for(int j=0;j<%d;++j) { for(int k=0;k<5;++k) o[7*j+k]=c[5*j+k]; }" % (max(m, 1), m, cap, m), "cascade of %d designed sections, capacity %d (%s)" % (m, cap, T)))
    for typ in (1, 2):
        for kind in ("low_pass", "high_pass"):
            for N in range(1, 13):
                L = (N + 1) // 2
                v = dict(typ=typ, kind=kind, T="double", N=N, L=L, hp=int(kind == "high_pass"))
                ca.append(Probe("pipe%d%s%d" % (typ, kind[0], N), [S(n, "double") for n in NAMES] + [OUT("n", "int", 3), OUT("c", "double", 5 * L)],
                                "auto const q=make_biquad_cascade<%d>(chebyshev%d_lp_hp(FilterResponse::%s, fsmp, fpass, fstop, apass, astop)); n[0]=%d; n[1]=n[2]=q.size();" % (L + 1, typ, kind, N) +
                                "for(int i=0;i<%d;++i) { auto const ca=q.coeff_a(i); auto const cb=q.coeff_b(i); double*d=c+5*i; d[0]=cb.b0;d[1]=cb.b1;d[2]=cb.b2;d[3]=ca.a1;d[4]=ca.a2; }" % L,
                                ("double inf[7]; " + SPEC + (TYPE1 if typ == 1 else TYPE2) + TAIL) % v, "cascade of a Chebyshev type %d %s design of order %d" % (typ, kind, N), partition=N))
    ctx.run_suites([Suite("cheby", PRE, pr), Suite("cascade", PRE, ca)])
    return ctx.finish(META)
