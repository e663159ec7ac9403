"""headers: each on its own, any combination, several translation units"""
import glob, itertools, re
from sa.probe import *
from sa import probe as P

META = dict(
    title="Every header stands alone and combines with all others, on its targets",
    statement="Each public header can be included on its own, repeatedly, and before or after any other header, and what it offers can then be used, on every target it is meant for, in C++17 and, on the desktop, in the later standards. Including headers in several translation units of one program does not define anything twice.",
    over=['programs'],
    text="all headers under include/, one by one, twice, before and after all others (thorough: every ordered pair), clang and gcc for the desktop (C++17, 20, 23), clang and avr-gcc for the AVR; the linkage of every symbol they define",
    why="A test program includes each header in one fixed order after others that happen to provide what it forgot, and in a single translation unit.",
    files=['include/core', 'include/dsp', 'include/mcu', 'include/num', 'include/std'],
    mechanism=[('include guards and includes of each header', 'include/')],
    how="the compilers' verdict on a translation unit that includes the header (first, twice, before/after others) and uses what it offers; every function and object the headers define must have a linkage that several translation units may share",
    note="one use per header; what a header offers is decided by the use fragments in the check, headers unknown to it are required to compile on at least one target",
    technique="compile-pass witnesses; linkage query over the compiler's IR",
)

# header -> (targets, a use of it)
MAT = "num::matrix<float,2,2> m_(1); m_=m_*m_+m_; auto t_=num::transposed(m_); (void)t_; auto e_=num::eye<float,2>(); (void)e_; char const *v_=matrix_VERSION; (void)v_;"
BQD = "dsp::BiQuadT<float> q_({1,2,3},{4,5}); q_.step(1); q_.step_df2(1); q_.step_df2_transposed(1); q_.reset(); auto s_=q_.is_stable(); (void)s_; auto p_=q_.poles(); (void)p_; auto z_=q_.zeros(); (void)z_; auto r_=dsp::response(q_,0.1f); (void)r_; auto g_=q_; q_.swap(g_);"
USE = {
    "core/core-io.hpp": ("d", "std::vector<int> v_{1,2}; std::cout << v_;"),
    "core/core.hpp": ("d", "for(auto i_:core::range(3,5)) (void)i_; auto t_=core::line(3); (void)t_; int a_=core::as<int>(3.5); (void)a_; core::identity_t<int> i_=3; (void)i_;"),
    "core/range.hpp": ("d", "int a_[3]={}; for(auto i_:core::range(0,5,2)) (void)i_; for(auto i_:core::indices(a_)) (void)i_; for(auto i_:core::range(1)) { (void)i_; break; }"),
    "core/shims.hpp": ("da", "int a_=core::as<int>(3.5); (void)a_;"),
    "core/text.hpp": ("d", "core::Text t_=core::line(3,'x'); t_=core::replaced(t_,\"x\",\"y\");"),
    "core/traits.hpp": ("da", "core::identity_t<int> i_=3; (void)i_;"),
    "core/vector-io.hpp": ("d", "std::vector<int> v_{1,2}; std::cout << v_;"),
    "dsp/biquad-cascade-io.hpp": ("d", "dsp::BiQuadCascadeT<double,3> c_; std::cout << c_;"),
    "dsp/biquad-cascade.hpp": ("da", "dsp::BiQuadCascadeT<float,3> c_; c_.append(dsp::BiQuadT<float>()); c_.insert(0,dsp::BiQuadT<float>()); c_.remove(0); step(c_,1.0f); reset(c_); auto s_=is_stable(c_); (void)s_; auto r_=response(c_,0.1f); (void)r_;"),
    "dsp/biquad-design.hpp": ("d", "auto c_=dsp::biquad_design<dsp::FilterResponse::peak_band_eq>(1.0,2.0,9.0,0.7); auto b_=dsp::make_biquad(c_); b_.step(1);"),
    "dsp/biquad-io.hpp": ("d", "dsp::BiQuadT<double> q_; std::cout << q_ << q_.coeff_a() << q_.coeff_b() << q_.state() << q_.poles();"),
    "dsp/biquad.hpp": ("da", BQD),
    "dsp/chebyshev-design-io.hpp": ("d", "auto c_=dsp::chebyshev1_lp_hp(dsp::FilterResponse::low_pass,20,4,5,0.5,10); std::cout << c_.info;"),
    "dsp/chebyshev-design.hpp": ("d", "auto c_=dsp::chebyshev1_lp_hp(dsp::FilterResponse::low_pass,20,4,5,0.5,10); auto d_=dsp::chebyshev2_lp_hp(dsp::FilterResponse::high_pass,20.0,5.0,4.0,0.5,10.0); auto b_=dsp::make_biquad_cascade<8>(c_); (void)b_; (void)d_;"),
    "dsp/filter-design.hpp": ("d", "auto a_=dsp::prewarp(1.0,4.0)+dsp::dbP(1.0,2.0)+dsp::dbV(1.0,2.0)+dsp::dbP_factor(3.0)+dsp::dbV_factor(3.0); (void)a_;"),
    "dsp/filter.hpp": ("d", "dsp::Lpf<double> l_(1,10,0.7); dsp::Hpf<double> h_(1,10,0.7); l_(1)+h_(2);"),
    "dsp/kalman-io.hpp": ("d", "num::matrix<float,2,2> m_(1); std::cout << m_;"),
    "dsp/kalman.hpp": ("da", "using F_=num::kalman<float,2,1,1>; F_ f_(0.1f,F_::A_t(1),F_::B_t(1),F_::H_t(1),F_::Q_t(1),F_::R_t(1),F_::P_t(1),F_::xhat_t(0)); f_.update(F_::u_t(1),F_::z_t(1)); auto s_=f_.system_state(); (void)s_; char const *v_=kalman_VERSION; (void)v_;"),
    "dsp/onepole-design.hpp": ("d", "auto c_=dsp::onepole_design<dsp::FilterResponse::low_pass>(1.0,10.0); auto o_=dsp::make_onepole(c_); o_.step(1);"),
    "dsp/onepole-io.hpp": ("d", "dsp::OnePoleT<double> q_; std::cout << q_ << q_.coeff_a() << q_.coeff_b() << q_.state() << q_.poles();"),
    "dsp/onepole.hpp": ("da", "dsp::OnePoleT<float> o_({1},{2}); o_.step(1); o_.reset(); auto s_=o_.is_stable(); (void)s_; auto r_=dsp::response(o_,0.1f); (void)r_;"),
    "mcu/atmega328.hpp": ("a", "mcu::atmega328::core::scoped_sreg g_; set(mcu::atmega328::adc::input::channel::ch1); mcu::atmega328::led<mcu::atmega328::port::B,5>::on();"),
    "mcu/register.hpp": ("a", "using R_=mcu::register8_t<mcu::rw_t,0x25>; R_::write(R_::read()); mcu::scoped_interrupt_guard g_;"),
    "num/constants.hpp": ("da", "constexpr float p_=num::pi<float>; (void)p_;"),
    "num/fixed-point-io.hpp": ("d", "num::fixed_point<int,8> x_(3); std::cout << x_;"),
    "num/fixed-point.hpp": ("da", "using F_=num::fixed_point<std20::int16_t,8>; F_ a_(1), b_(2.5f); a_=a_*b_/b_+a_-b_; auto l_=a_<b_; (void)l_; char const *v_=fixed_point_VERSION; (void)v_;"),
    "num/matrix-io.hpp": ("d", "num::matrix<float,2,2> m_(1); std::cout << m_;"),
    "num/matrix.hpp": ("da", MAT),
    "std/algorithm.hpp": ("da", "int a_[2]={1,2}, b_[2]={}; std20::copy(a_,a_+2,b_); std20::fill(b_,b_+2,1); auto e_=std20::equal(a_,a_+2,b_); (void)e_;"),
    "std/complex.hpp": ("da", "std20::complex<float> z_(1,2); z_=z_*z_+z_/z_-z_; auto a_=abs(z_)+z_.real(); (void)a_; z_=sqrt(z_); z_=std20::polar(1.0f,2.0f);"),
    "std/cstdint.hpp": ("da", "std20::int8_t a_=1; std20::int16_t b_=2; std20::int32_t c_=3; std20::int64_t d_=4; (void)a_;(void)b_;(void)c_;(void)d_;"),
    "std/limits.hpp": ("da", "auto a_=std20::numeric_limits<int>::max(); (void)a_;"),
    "std/tuple.hpp": ("da", "std20::ignore=3;"),
    "std/type_traits.hpp": ("da", "static_assert(std20::is_signed_v<int> && std20::is_integral_v<int>,\"\");"),
    "std/utility.hpp": ("da", "int a_=1,b_=2; std20::swap(a_,b_); int c_=std20::move(a_); (void)c_; for(auto i_:{1,2}) (void)i_;"),
}
CC = {"d": [("clang++", "desktop", None), ("g++", "desktop", "g++")], "a": [("clang++ --target=avr", "avr", None), ("avr-g++", "avr", "avr-g++")]}
GPP = {"desktop": ["-std=c++17"], "avr": ["-std=c++17", "-mmcu=atmega328p", "-DF_CPU=16000000L", "-DF_CPU_HZ=16000000L", "-fno-exceptions", "-fno-threadsafe-statics"]}


def check(ctx):
    hs = sorted(p[len(P.INC) + 1:] for p in glob.glob(P.INC + "/**/*.hpp", recursive=True) + glob.glob(P.INC + "/**/*.h", recursive=True))
    for h in sorted(USE):
        if h not in hs:
            ctx.report("exists", "exists/" + h, "the header %s no longer exists" % h, "include/" + h)
    on = {t: [h for h in hs if h in USE and t in USE[h][0]] for t in "da"}
    inc = lambda *l: "".join('#include "%s"\n' % h for h in l)
    use = lambda *l: "".join("namespace { inline void use_%d() { %s } }\n" % (i, USE[h][1]) for i, h in enumerate(l))
    jobs = []          # (key, what, where, source, compiler)
    for t in "da":
        for h in on[t]:
            others = [x for x in on[t] if x != h]
            for cc in CC[t]:
                jobs.append(("alone", h, "%s, included on its own, does not compile or does not offer what it should" % h, inc(h) + use(h), cc))
                jobs.append(("last", h, "%s, included after all other headers" % h, inc(*others, h) + use(*others, h), cc))
                jobs.append(("first", h, "%s, included before all other headers in reverse order" % h, inc(h, *reversed(others)) + use(h, *others), cc))
            if t == "d":
                for std in ("c++20", "c++23"):
                    jobs.append(("alone", h, "%s, included on its own, does not compile as " % h + std, inc(h) + use(h), ("clang++ -std=" + std, "desktop", None, "-std=" + std)))
                    jobs.append(("last", h, "%s, included after all other headers, does not compile as " % h + std, inc(*others, h) + use(*others, h), ("g++ -std=" + std, "desktop", "g++", "-std=" + std)))
            jobs.append(("twice", h, "%s, included twice" % h, inc(h, h) + use(h), CC[t][0]))
        if ctx.tier == "thorough":
            for a, b in itertools.permutations(on[t], 2):
                jobs.append(("pair", a + "+" + b, "%s before %s" % (a, b), inc(a, b) + use(a, b), CC[t][0]))
    for h in hs:
        if h not in USE:
            jobs.append(("new", h, "%s, included on its own, compiles on no target" % h, inc(h, h), None))

    def one(k):
        i, (kind, h, what, src, cc) = k
        r = None
        for name, target, exe, *std in ([cc] if cc else [CC["d"][0], CC["a"][0]]):
            p = "%s/h%d_%s.cpp" % (ctx.tmp, i, target)
            with open(p, "w") as f:
                f.write(src)
            cmd = [CLANG, *TARGET[target], "-fsyntax-only", "-w", "-ferror-limit=3", *std, p] if exe is None else [exe, *GPP[target], "-I" + P.INC, "-fsyntax-only", "-w", "-fmax-errors=3", *std, p]
            r = run(cmd)
            if r.returncode == 0:
                return None
        return errline(r.stdout), errloc(r.stdout)
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    bad = set()
    for (kind, h, what, src, cc), r in zip(jobs, res):
        if r is None:
            ctx.ok("accepted by the compiler")
            continue
        if h in bad and kind != "alone":
            continue
        bad.add(h)
        e, loc = r
        loc = loc.replace(P.INC + "/", "include/")
        ctx.report("accepted by the compiler", "%s/%s/%s" % (kind, h, cc[0] if cc else "any"), "%s [%s]: %s" % (what, cc[0] if cc else "any target", e.replace(P.INC + "/", "include/")),
                   loc if loc.startswith("include/") else "include/" + h.split("+")[0], e)
    ctx.sample("each of %d headers compiled alone, first, last and twice" % len(hs))
    # linkage
    for t, tgt in (("d", "desktop"), ("a", "avr")):
        src = inc(*on[t]) + use(*on[t]) + "void all_() { %s }\n" % " ".join("use_%d();" % i for i in range(len(on[t])))
        o, log = ctx.compile(src, "linkage_" + tgt, tgt, (), "ir")
        if o is None:
            continue                       # reported above
        r = run([CLANG, *TARGET[tgt], "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", "-w", "-fno-exceptions", "%s/linkage_%s.cpp" % (ctx.tmp, tgt), "-o", "-"])
        n = 0
        for l in r.stdout.splitlines():
            m = re.match(r'define (.*?)@("[^"]+"|[\w.$]+)\(', l)
            g = m or re.match(r'@("[^"]+"|[\w.$]+) = (.*?)(?:global|constant) ', l)
            if not g:
                continue
            name = (g.group(2) if m else g.group(1)).strip('"')
            q = g.group(1) if m else g.group(2)
            if name.startswith("llvm.") or demangle(name).startswith("all_("):
                continue
            n += 1
            if re.search(r"\b(linkonce_odr|linkonce|internal|private|weak_odr|weak|available_externally|external)\b", q):
                ctx.ok("shareable linkage")
            else:
                ctx.report("shareable linkage", "linkage/%s/%s" % (tgt, demangle(name)), "%s '%s' is defined with external linkage in a header: two translation units that include it do not link (%s)" % (
                    "function" if m else "object", demangle(name), tgt), "include/: " + demangle(name), "external")
        ctx.extra.setdefault("symbols_examined", {})[tgt] = n
    ctx.extra["headers"] = len(hs)
    return ctx.finish(META)
