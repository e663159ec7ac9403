"""Kalman estimator probes"""
from .mx import *
from sa import history

KPRE = '#include "dsp/kalman.hpp"\nusing namespace num;\n'
LPRE = KPRE + history.DECL


def args(T, S_, M, U, n=1, sym=False):
    a = [S("dt", T), IN("a", T, S_ * S_), IN("b", T, S_ * U), IN("h", T, M * S_), IN("q", T, 3 if sym else S_ * S_), IN("r", T, (3 if M == 2 else 1) if sym else M * M),
         IN("p", T, 3 if sym else S_ * S_), IN("x", T, S_), IN("u", T, n * U), IN("z", T, n * M)]
    return a


def build(T, S_, M, U, sym=False, name="k"):
    s = mk(T, S_, S_, "A", "a") + mk(T, S_, U, "B", "b") + mk(T, M, S_, "H", "h")
    if sym:
        sy = lambda v, src: "matrix<%s,2,2> %s{%s[0],%s[1],%s[1],%s[2]};" % (T, v, src, src, src, src)
        s += sy("Q", "q") + sy("P", "p") + (sy("R", "r") if M == 2 else "matrix<%s,1,1> R(r[0]);" % T)
    else:
        s += mk(T, S_, S_, "Q", "q") + mk(T, M, M, "R", "r") + mk(T, S_, S_, "P", "p")
    s += mk(T, S_, 1, "X", "x")
    return s + "kalman<%s,%d,%d,%d> %s(dt,A,B,H,Q,R,P,X);" % (T, S_, M, U, name)


def upd(T, S_, M, U, i, name="k"):
    return "{ matrix<%s,%d,1> uu((%s)0); matrix<%s,%d,1> zz((%s)0); for(int i=0;i<%d;++i) uu.at(i)=u[%d+i]; for(int i=0;i<%d;++i) zz.at(i)=z[%d+i]; %s.update(uu,zz); }\n" % (
        T, U, T, T, M, T, U, i * U, M, i * M, name)


def outs(T, S_, M, name="k", pre=""):
    return ("{{ auto const s={k}.system_state(); for(int i=0;i<{S};++i) {p}ox[i]=s.at(i); auto const g={k}.kalman_gain(); for(int i=0;i<{SM};++i) {p}ok[i]=g.at(i);"
            "auto const e={k}.estimation_error_covariance(); for(int i=0;i<{SS};++i) {p}op[i]=e.at(i); {p}ot[0]={k}.time(); }}\n").format(k=name, S=S_, SM=S_ * M, SS=S_ * S_, p=pre)


def oargs(T, S_, M, pre=""):
    return [OUT(pre + "ox", T, S_), OUT(pre + "ok", T, S_ * M), OUT(pre + "op", T, S_ * S_), OUT(pre + "ot", T, 1)]


def spec_init(T, S_, M, U, sym=False):
    s = "{T} x_[{S}], P_[{S}][{S}], K_[{S}][{M}], Q_[{S}][{S}], R_[{M}][{M}], t_=0;\n".format(T=T, S=S_, M=M)
    s += "for(int i=0;i<%d;++i) x_[i]=x[i];\n" % S_
    if sym:
        s += "P_[0][0]=p[0];P_[0][1]=P_[1][0]=p[1];P_[1][1]=p[2];Q_[0][0]=q[0];Q_[0][1]=Q_[1][0]=q[1];Q_[1][1]=q[2];"
        s += "R_[0][0]=r[0];" + ("R_[0][1]=R_[1][0]=r[1];R_[1][1]=r[2];" if M == 2 else "")
    else:
        s += "for(int i=0;i<{S};++i) for(int j=0;j<{S};++j){{ P_[i][j]=p[i*{S}+j]; Q_[i][j]=q[i*{S}+j]; }} for(int i=0;i<{M};++i) for(int j=0;j<{M};++j) R_[i][j]=r[i*{M}+j];".format(S=S_, M=M)
    return s + "for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) K_[i][j]=0;\n" % (S_, M)


def spec_step(T, S_, M, U, i):
    """the textbook recursion, written out"""
    s = """{{
 {T} xp[{S}], AP[{S}][{S}], Pp[{S}][{S}], PH[{S}][{M}], V[{M}][{M}], W[{M}][{M}], y[{M}];
 t_=t_+dt;
 for(int i=0;i<{S};++i){{ {T} s=0; for(int j=0;j<{S};++j) s=s+a[i*{S}+j]*x_[j]; for(int j=0;j<{U};++j) s=s+b[i*{U}+j]*u[{k}*{U}+j]; xp[i]=s; }}
 for(int i=0;i<{S};++i) for(int j=0;j<{S};++j){{ {T} s=0; for(int l=0;l<{S};++l) s=s+a[i*{S}+l]*P_[l][j]; AP[i][j]=s; }}
 for(int i=0;i<{S};++i) for(int j=0;j<{S};++j){{ {T} s=Q_[i][j]; for(int l=0;l<{S};++l) s=s+AP[i][l]*a[j*{S}+l]; Pp[i][j]=s; }}
 for(int i=0;i<{S};++i) for(int j=0;j<{M};++j){{ {T} s=0; for(int l=0;l<{S};++l) s=s+Pp[i][l]*h[j*{S}+l]; PH[i][j]=s; }}
 for(int i=0;i<{M};++i) for(int j=0;j<{M};++j){{ {T} s=R_[i][j]; for(int l=0;l<{S};++l) s=s+h[i*{S}+l]*PH[l][j]; V[i][j]=s; }}
""".format(T=T, S=S_, M=M, U=U, k=i)
    if M == 1:
        s += " W[0][0] = V[0][0]==0 ? (%s)0 : 1/V[0][0];\n" % T
    else:
        s += " { %s d=V[0][0]*V[1][1]-V[0][1]*V[1][0]; W[0][0]=V[1][1]/d; W[0][1]=-V[0][1]/d; W[1][0]=-V[1][0]/d; W[1][1]=V[0][0]/d; }\n" % T
    s += """ for(int i=0;i<{S};++i) for(int j=0;j<{M};++j){{ {T} s=0; for(int l=0;l<{M};++l) s=s+PH[i][l]*W[l][j]; K_[i][j]=s; }}
 for(int i=0;i<{M};++i){{ {T} s=z[{k}*{M}+i]; for(int l=0;l<{S};++l) s=s-h[i*{S}+l]*xp[l]; y[i]=s; }}
 for(int i=0;i<{S};++i){{ {T} s=xp[i]; for(int l=0;l<{M};++l) s=s+K_[i][l]*y[l]; x_[i]=s; }}
 for(int i=0;i<{S};++i) for(int j=0;j<{S};++j){{ {T} s=Pp[i][j]; for(int l=0;l<{M};++l) for(int n=0;n<{S};++n) s=s-K_[i][l]*h[l*{S}+n]*Pp[n][j]; P_[i][j]=s; }}
}}
""".format(T=T, S=S_, M=M, k=i)
    return s


def spec_out(T, S_, M, pre=""):
    return "for(int i=0;i<{S};++i) {p}ox[i]=x_[i]; for(int i=0;i<{S};++i) for(int j=0;j<{M};++j) {p}ok[i*{M}+j]=K_[i][j]; for(int i=0;i<{S};++i) for(int j=0;j<{S};++j) {p}op[i*{S}+j]=P_[i][j]; {p}ot[0]=t_;\n".format(S=S_, M=M, p=pre)


def later(T, M, U, between="", what="after one more update, whatever their number before"):
    """updates far into the history of an estimator: each from the state observed before it"""
    c = lambda n, o: "{" + ",".join(str((7 * (i + o) % 11 + 3 + o) / 8.) for i in range(n)) + "}"
    loc = "%s const dt=0.375, a[4]={0.75,0.5,-0.25,0.625}, b[%d]=%s, h[%d]=%s, q[4]=%s, r[%d]=%s, p[4]=%s, x[2]={1.25,-2}, u[%d]=%s, z[%d]=%s;\n" % (
        T, 2 * U, c(2 * U, 1), 2 * M, c(2 * M, 2), "{1.5,0.25,0.75,2.5}" if M == 1 else "{1.5,0.25,0.25,2.5}", M * M, "{3}" if M == 1 else "{3,0.5,0.5,2}", "{3,0.5,-0.25,2}" if M == 1 else "{3,0.5,0.5,2}", U, c(U, 3), M, c(M, 4))
    one = upd(T, 2, M, U, 0)
    code = loc + build(T, 2, M, U) + history.later_code("k", one + between)
    code += "T_ x_[2], P_[2][2], K_[2][%d], Q_[2][2], R_[%d][%d], t_, ox[2], ok[%d], op[4], ot[1];\n".replace("T_", T) % (M, M, M, 2 * M)
    code += "for(int i=0;i<2;++i) for(int j=0;j<2;++j) Q_[i][j]=q[i*2+j]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) R_[i][j]=r[i*%d+j];" % (M, M, M)
    for n in range(2):
        code += outs(T, 2, M) + "x_[0]=ox[0];x_[1]=ox[1];P_[0][0]=op[0];P_[0][1]=op[1];P_[1][0]=op[2];P_[1][1]=op[3];t_=ot[0];" + one + between + spec_step(T, 2, M, U, 0) + outs(T, 2, M)
        code += "{int n=%d; for(int i=0;i<2;++i) o[n++]=ox[i]-x_[i]; for(int i=0;i<2;++i) for(int j=0;j<2;++j) o[n++]=op[2*i+j]-P_[i][j]; for(int i=0;i<2;++i) for(int j=0;j<%d;++j) o[n++]=ok[%d*i+j]-K_[i][j]; o[n]=ot[0]-t_; }\n" % (n * (7 + 2 * M), M, M)
    N = 2 * (7 + 2 * M)
    return Probe("later_%s_m%d_u%d" % (T, M, U), [OUT("o", T, N)], code, "for(int i=0;i<%d;++i) o[i]=0;" % N, "state, gain, covariance and time %s [%s, %d measurement(s), %d control(s)]" % (what, T, M, U))
