"""bi-quad probes"""
from sa.probe import *
from sa import history
from .mx import suites, T2

VF = "abstract interpretation of the compiler's IR (gated value-flow / value numbering) against an independent definition"
BPRE = '#include "dsp/biquad.hpp"\nusing namespace dsp;\n'
CPRE = '#include "dsp/biquad-cascade.hpp"\nusing namespace dsp;\n'


def bq(T, name="q", b="b", a="a", S_=None):
    B = "BiQuadT<%s%s>" % (T, "" if S_ is None else "," + S_)
    return "%s %s({%s[0],%s[1],%s[2]},{%s[0],%s[1]});" % (B, name, b, b, b, a, a)


def coef(name, i, dst="c"):
    """observe the coefficients of a bi-quad"""
    return "{ auto const ca=%s.coeff_a(); auto const cb=%s.coeff_b(); %s[%d]=cb.b0; %s[%d]=cb.b1; %s[%d]=cb.b2; %s[%d]=ca.a1; %s[%d]=ca.a2; }\n" % (
        name, name, dst, i, dst, i + 1, dst, i + 2, dst, i + 3, dst, i + 4)


def state(name, i, dst="w"):
    return "{ auto const s=%s.state(); %s[%d]=s.v1; %s[%d]=s.v2; }\n" % (name, dst, i, dst, i + 1)


FORMS = ("step", "step_df2", "step_df2_transposed")

# filters far into their history

LCO = "T const b_[3]={T(0.5),T(-0.25),T(0.75)}, a_[2]={T(0.375),T(-0.125)}, d_[3]={T(1.25),T(0.625),T(-0.5)}, e_[2]={T(-0.25),T(0.1875)};"
LSEC = "BiQuadT<T> s1({b_[0],b_[1],b_[2]},{a_[0],a_[1]}), s2({d_[0],d_[1],d_[2]},{e_[0],e_[1]});"


def df(b, a, x, y):
    """what the difference equation asks for from the two inputs and outputs before"""
    return "(%s[0]*%s0+%s[1]*%s1+%s[2]*%s2-%s[0]*%s1-%s[1]*%s2)" % (b, x, b, x, b, x, a, y, a, y)
