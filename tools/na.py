"""properties that static analysis cannot decide here"""
NA = {
 "C90": dict(title="The Kalman filter converges and keeps a valid covariance under rounding",
   statement="Over long histories the estimation error covariance stays symmetric and positive semi-definite and the estimate converges for observable models, in the floating-point arithmetic actually used.",
   over=["histories", "inputs"], text="unbounded update histories and all observable models, in IEEE arithmetic",
   why="A bounded run with one model says nothing about accumulated rounding over other models and longer histories.",
   files=["include/dsp/kalman.hpp"], mechanism=[("covariance update P = P - K H P", "include/dsp/kalman.hpp: update")],
   reason="a statement about accumulated rounding over unbounded histories and about spectra of run-time matrices: no dataflow, typestate or type-level argument bounds them; the exact recursion itself is decided as C06"),
 "C91": dict(title="Fixed-point filters stay within a rounding-error bound of the exact filter",
   statement="A filter run in fixed-point arithmetic differs from the exact filter by no more than a bound proportional to its resolution, for every input sequence that does not overflow.",
   over=["histories", "inputs"], text="all input sequences and all stable coefficient sets, unbounded length",
   why="Sampled sequences reach neither limit cycles nor worst-case accumulation.",
   files=["include/num/fixed-point.hpp", "include/dsp/biquad.hpp", "include/dsp/kalman.hpp"], mechanism=[("truncating multiplication", "include/num/fixed-point.hpp: operator*=")],
   reason="the bound depends on the run-time coefficients and on accumulated truncation over unbounded histories; the single operations are decided exactly as C08-C10"),
 "C92": dict(title="Designed filters meet their attenuation specification numerically",
   statement="The frequency response of a designed filter, evaluated in floating point, stays within its pass-band ripple and stop-band attenuation at every frequency.",
   over=["inputs", "configurations"], text="all orders, ripples and cut-off frequencies, all frequencies",
   why="A test samples a few frequencies of a few designs.",
   files=["include/dsp/biquad-design.hpp", "include/dsp/chebyshev-design.hpp"], mechanism=[("bilinear transform of analog prototypes", "include/dsp/biquad-design.hpp")],
   reason="an inequality between transcendental functions over a continuum in rounded arithmetic; what static analysis can decide, that the coefficients are the published closed forms, is C19 and C21"),
 "C93": dict(title="Microcontroller programs meet their sampling deadlines",
   statement="The interrupt-driven example programs process each sample before the next one arrives.",
   over=["schedules"], text="all interrupt arrival patterns on the target at its clock frequency",
   why="There is no target hardware or timing model in the tests.",
   files=["example/avr", "include/mcu"], mechanism=[("interrupt service routines of the examples", "example/avr")],
   reason="needs a cycle-accurate worst-case execution time model of generated AVR code (none is installed); the interrupt and atomicity protocols themselves are decided as C32"),
}
