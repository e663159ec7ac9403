"""Does the analysis tell equal from different programs?  Each pair (code, spec) has a known verdict."""
import threading
from sa.probe import *
from sa import history

PAIRS = [
    # name, args, code, spec, number of violations expected
    ("sum_loop", [IN("a", "double", 5), OUT("o", "double", 1)], "double s=0; for(int i=0;i<5;++i) s+=a[i]; *o=s;", "*o=((a[4]+a[3])+(a[2]+a[1]))+a[0];", 0),
    ("sum_off", [IN("a", "double", 5), OUT("o", "double", 1)], "double s=0; for(int i=0;i<4;++i) s+=a[i]; *o=s;", "*o=((a[4]+a[3])+(a[2]+a[1]))+a[0];", 1),
    ("oob", [IN("a", "double", 5), OUT("o", "double", 1)], "double s=0; for(int i=0;i<=5;++i) s+=a[i]; *o=a[0];", "*o=a[0];", 1),
    ("uninit", [S("x", "double"), OUT("o", "double", 1)], "double s; if(x>0) s=1; *o=s;", "*o= x>0 ? 1 : 0;", 1),
    ("branch", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "if(x<y) *o=x; else *o=y;", "*o= y<=x ? y : x;", 0),
    ("branch_bad", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "if(x<y) *o=x; else *o=y;", "*o= y<x ? x : y;", 1),
    ("ratio", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "*o=(x*x-y*y)/(x-y);", "*o=x+y;", 0),
    ("shift", [S("x", "int"), OUT("o", "int", 1)], "*o=(x>>3)*8;", "*o=x&~7;", 0),
    ("shift_bad", [S("x", "int"), OUT("o", "int", 1)], "*o=(x/8)*8;", "*o=x&~7;", 1),
    ("wrap", [S("x", "short"), S("y", "short"), OUT("o", "short", 1)], "*o=(short)(x*2+y);", "short t=(short)(x+y); *o=(short)(t+x);", 0),
    ("narrow", [S("x", "double"), OUT("o", "double", 1)], "*o=(float)x;", "*o=x;", 1),
    ("global", [S("x", "int"), OUT("o", "int", 1)], "static int n=0; n=x; *o=x;", "*o=x;", 1),
    ("input", [IO("a", "int", 2), OUT("o", "int", 1)], "*o=a[0]; a[1]=0;", "*o=a[0];", 1),
    ("abort", [S("x", "int"), OUT("o", "int", 1)], "if(x>4) __builtin_abort(); *o=x;", "if(!(x<5)) __builtin_abort(); *o=x;", 0),
    ("abort_bad", [S("x", "int"), OUT("o", "int", 1)], "if(x>=4) __builtin_abort(); *o=x;", "if(!(x<5)) __builtin_abort(); *o=x;", 1),
    ("mem", [IN("a", "double", 4), OUT("o", "double", 4)], "struct P{double x,y;}; P p[2]; __builtin_memcpy(p,a,sizeof p); P q=p[1]; p[1]=p[0]; p[0]=q; __builtin_memcpy(o,p,sizeof p);",
     "o[0]=a[2];o[1]=a[3];o[2]=a[0];o[3]=a[1];", 0),
    ("sqrt", [S("x", "double"), OUT("o", "double", 1)], "double r=__builtin_sqrt(x); *o=r*r;", "*o=x;", 0),
    ("hang", [S("x", "int"), OUT("o", "int", 1)], "int y=x; while(y>3) {} *o=1;", "*o=1;", 1),
    ("recurse", [S("x", "int"), OUT("o", "int", 1)], "struct R{static int f(int n){return n>3?f(n):n;}}; *o=R::f(x);", "*o=x;", 1),
    ("recurse_ok", [S("x", "int"), OUT("o", "int", 1)], "struct R{static int f(int n){return n?1+f(n-1):0;}}; *o=x+R::f(60);", "*o=x+60;", 0),
    ("long_loop", [S("x", "int"), OUT("o", "int", 1)], "int i=0; for(;i<900;++i) {} *o=i;", "*o=900;", 0),
    ("static_const", [S("x", "double"), OUT("o", "double", 1)], "static const double h=__builtin_sqrt(2.0); *o=h*h*x;", "*o=2*x;", 0),
    ("static_first", [S("x", "double"), OUT("o", "double", 1)], "static const double h=x; *o=h;", "*o=x;", 1),
    ("hyperbolic", [S("x", "double"), S("y", "double"), OUT("o", "double", 3)], "double e=__builtin_exp(x); o[0]=(e-1/e)/2; o[1]=(e+1/e)/2; o[2]=(e*e-1)/(e*e+1);", "o[0]=__builtin_sinh(x); o[1]=__builtin_cosh(x); o[2]=__builtin_tanh(x);", 0),
    ("hyperbolic_bad", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "double e=__builtin_exp(x); *o=(e+1/e)/2;", "*o=__builtin_sinh(x);", 1),
    ("area", [S("x", "double"), OUT("o", "double", 2)], "o[0]=__builtin_log(x+__builtin_sqrt(x*x+1)); o[1]=__builtin_log(x+__builtin_sqrt(x*x-1));", "o[0]=__builtin_asinh(x); o[1]=__builtin_acosh(x);", 0),
    ("area_bad", [S("x", "double"), OUT("o", "double", 1)], "*o=__builtin_log(x+__builtin_sqrt(x*x-1));", "*o=__builtin_asinh(x);", 1),
    ("angles", [S("x", "double"), S("y", "double"), OUT("o", "double", 2)], "o[0]=__builtin_sin(2*x)*__builtin_cos(y)-__builtin_cos(2*x)*__builtin_sin(y); o[1]=__builtin_cos(x+3*y);", "o[0]=__builtin_sin(2*x-y); o[1]=__builtin_cos(x)*__builtin_cos(3*y)-__builtin_sin(x)*__builtin_sin(3*y);", 0),
    ("angles_bad", [S("x", "double"), S("y", "double"), OUT("o", "double", 1)], "*o=__builtin_cos(x-y);", "*o=__builtin_cos(x)*__builtin_cos(y)-__builtin_sin(x)*__builtin_sin(y);", 1),
    ("member_ptr", [S("x", "double"), OUT("o", "double", 1)], "struct Q{double a; double f(double v){return a+=v;}}; Q q{1}; double (Q::*m)(double)=&Q::f; (q.*m)(x); *o=(q.*m)(x);", "*o=1+2*x;", 0),
    ("later", [OUT("o", "int", 1)], "struct Q{unsigned n; int t; int f(){ ++n; t= t==3 ? 0 : t+1; return n%2==0 && n%2==1 ? 5 : t;}}; Q q{0,0};" + history.later_code("q", "q.f()") + "int const a=q.t; *o=q.f()-(a==3?0:a+1);", "*o=0;", 0),
    ("later_bad", [OUT("o", "int", 1)], "struct Q{unsigned n; int f(){ return ++n==50000;}}; Q q{0};" + history.later_code("q", "q.f()") + "*o=q.f();", "*o=0;", 1),
    ("pow", [S("x", "double"), OUT("o", "double", 1)], "*o=__builtin_pow(x,2.0);", "*o=x*x;", 0),
]


def work(res):
    ctx = Ctx("C00", "quick", 1)
    try:
        for target in ("desktop", "avr"):
            for name, al, code, spec, n in PAIRS:
                if target == "avr" and name in ("narrow", "abort", "abort_bad", "hang", "recurse"):
                    continue
                ctx.viol.clear()
                ctx.run_suites([Suite("self", history.DECL, [Probe(name, al, code, spec, name)], target=target)])
                if (len(ctx.viol) > 0) != (n > 0):
                    print("selftest %s/%s: %d report(s), expected %s" % (target, name, len(ctx.viol), n or "none"), [v["text"] for v in ctx.viol])
                    res.append(1)
                else:
                    res.append(0)
        ctx.viol.clear()
        ctx.witnesses("", [("good", "static_assert(sizeof(char)==1,\"\");", True, ""), ("bad", "int * p = 1.5;", False, "")], ("desktop", "avr"))
        res.append(len(ctx.viol))
        ctx.witnesses("", [("bad", "static_assert(sizeof(char)==1,\"\");", False, "")])
        res.append(len(ctx.viol) != 1)
    except Exception as e:
        print("selftest failed:", repr(e))
        res.append(1)
    finally:
        ctx.close()


def main():
    res = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work, args=(res,))
    t.start()
    t.join()
    print("selftest: %d cases, %d wrong" % (len(res), sum(map(bool, res))))
    return 1 if any(res) or not res else 0
