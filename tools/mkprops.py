#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if "observe_at" in kw: kw["observe_at"]=[kw["observe_at"]]
    if "state" in kw: kw["state"]=[{"name":"abstract state","meaning":kw["state"]}]
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
KF="include/dsp/kalman.hpp"; MF="include/num/matrix.hpp"; XF="include/num/fixed-point.hpp"
BF="include/dsp/biquad.hpp"; CF="include/dsp/biquad-cascade.hpp"; RF="include/mcu/register.hpp"; AF="include/mcu/atmega328.hpp"
p("K01","Every Kalman update is one step of the discrete Kalman recursion",
"For a linear model given by its dynamics, control, measurement, process-noise and measurement-noise matrices, every update moves the estimator from its current estimate and covariance to exactly the state, covariance and gain that the discrete Kalman filter equations prescribe for the supplied control and measurement (predict with the model and control, gain from the predicted covariance, correct with the innovation, shrink the covariance). For exact arithmetic the result is exact, for floating point it is within rounding error; covariance matrices are symmetric and the innovation covariance is invertible.",
["inputs","histories","configurations"],"all models with state dimension 2 and 1 or 2 measurements and 1, 2 or 3 control inputs, all symmetric P0/Q/R, all control/measurement sequences of any length, exact and floating arithmetic",
"The test suite contains no estimator test at all (only a commented-out simulation); no finite set of samples separates a wrong recursion that agrees on a scalar measurement, a diagonal matrix or a zero control.",
[KF,MF],[("predict and correct step","kalman::update"),("matrix products, transposition, inversion","num::operator*, transposed, inverted")],observe_at="system_state(), estimation_error_covariance(), kalman_gain() after construction and after each update()")
p("K02","Estimator time, observers and instances are well-behaved over any history",
"The estimator starts with exactly the given estimate and covariance at time zero, and after k updates its time is k times the time step, whatever the inputs. Observing the estimator never changes it. Estimators (including copies) are independent of each other and of the objects they were constructed from: equal histories give equal results, and updating one never affects another.",
["histories"],"all interleavings of construct, copy, observe and update over several estimators of the same and of different types, histories of thousands of steps",
"Needs interleaved multi-instance histories and long runs; no existing test drives the estimator.",
[KF],[("time keeping","kalman::update"),("observers","kalman::system_state, kalman_gain, estimation_error_covariance, time")],observe_at="public observers, before and after every call")
p("K03","The estimation error covariance stays valid and is shrunk by measurements",
"Starting from a symmetric positive semi-definite initial covariance, with symmetric positive semi-definite process noise and positive definite measurement noise, the reported covariance remains symmetric and positive semi-definite after every update and is never larger than the covariance predicted by the model for that step; for a stable observable constant model it converges to the steady state of the Riccati recursion and does not depend on the controls, the measurements or the initial estimate.",
["inputs","histories","configurations"],"all valid models and all input histories, including thousands of steps, semi-definite P0/Q, perfectly correlated and very unequal noise",
"An inductive property over unbounded histories; no test runs the estimator.",
[KF],[("covariance projection and measurement update","kalman::update")],observe_at="estimation_error_covariance() after each update")
p("K04","A fixed-point estimator follows the recursion within quantization error",
"Instantiated with a fixed-point number type, the estimator gives after each update the state, gain and covariance of the Kalman recursion for the quantized model, up to the accumulated quantization error of the operations of one step, as long as no intermediate value exceeds the range of the type; time is exact.",
["inputs","histories","configurations"],"all models and histories whose intermediate values stay in range, for 16 and 32 bit formats, measured per step from the observed state",
"Fixed-point use on the microcontroller is what the library is for, but no test combines the two.",
[KF,XF,MF],[("template instantiation kalman<fixed_point>","kalman::update"),("fixed-point product and quotient","fixed_point::operator*=, operator/=")],observe_at="public observers")
p("X01","Fixed-point construction and conversion preserve the value they can represent",
"Constructing a fixed-point number from an integer is exact, from a floating-point number yields the nearest representable value with ties away from zero, and from a raw representation yields that representation; converting back to floating point is exact, conversion to an integer truncates toward zero, and the representation helpers round-trip. This holds for every in-range value of every format, and the reported minimum, maximum and digit counts are those of the format.",
["inputs","configurations"],"all representable and in-range values (all 256 of 8-bit formats with 0..7 fractional bits, boundaries and samples for 16 and 32 bit)",
"The tests use a handful of values in two formats.",
[XF],[("converting constructors","fixed_point::fixed_point"),("as, as_double, to_rep, from_rep, from_value","fixed_point")],observe_at="underlying_value(), as<>(), as_double(), min(), max()")
p("X02","Fixed-point arithmetic is exact up to one defined rounding",
"When the mathematical result is in range, sum, difference and negation are exact, a product is the exact product rounded down (toward minus infinity) to the resolution of the format, and a quotient is the exact quotient truncated toward zero; intermediate overflow never disturbs an in-range result. Compound assignments modify their left operand to the same value as the binary operators return, and operators leave their other operands unchanged.",
["inputs","configurations"],"all operand pairs whose result is in range: exhaustive for 8-bit formats with every split of bits, boundary-directed and sampled for 16 and 32 bit formats, mixed integer/floating operands",
"65536 operand pairs per 8-bit format and eight formats; the tests check one or two pairs per operator.",
[XF],[("arithmetic operators","fixed_point::operator+= -= *= /= and friends"),("promotion to double width","detail::promote")],observe_at="underlying_value() of result and operands")
p("X03","Fixed-point comparison is the order of the represented values",
"The six comparison operators on two fixed-point numbers of the same format, also with an integer or floating operand on either side (which is first converted to the format), agree with the order of the real values they represent, so they form a total order consistent with equality, with subtraction and with conversion to floating point.",
["inputs","configurations"],"all pairs of values: exhaustive for 8-bit formats, boundary-directed and sampled for 16 and 32 bit",
"Tests compare a few fixed pairs.",
[XF],[("comparison operators","fixed_point friend operators == != < <= > >=")],observe_at="results of comparison operators")
p("M01","Matrix arithmetic is the linear algebra it denotes for every conforming shape",
"Sums, differences, scalar operations and products of matrices, row vectors and column vectors (including dot and outer products and one-by-one matrices) have the shape and the entries that linear algebra defines, for every combination of shapes that conforms, and leave their operands unchanged.",
["inputs","configurations"],"all conforming operand shapes up to 3x3 including non-square, all entries, exact arithmetic; aliasing operands",
"Tests use one square 2x2 example per operator; non-square products read and wrote out of bounds undetected.",
[MF],[("matrix operators","num::operator+ - *")],observe_at="entries of results and operands")
p("M02","A matrix is a row-major store in which elements are independent",
"Matrices report their dimensions; every access path (row/column, flat index, subscripting, iteration, initializer list, fill, copy, assignment) reads and writes the same row-major elements, a write changes exactly the addressed element, and copies are independent of their source. The identity matrix has ones exactly on the diagonal.",
["histories","configurations"],"all sequences of element writes through any access path, copies and assignments, on all shapes up to 3x3",
"Tests check individual accessors, not interleavings of writes through different access paths and copies.",
[MF,"include/std/algorithm.hpp"],[("element access and iteration","matrix::at, operator(), operator[], begin, end"),("construction","matrix::matrix"),("copy, fill","std20::copy, std20::fill")],observe_at="element accessors")
p("M03","Transposition and inversion are involutive and mutually consistent",
"Transposing a row vector, column vector or 2x2 matrix exchanges rows and columns and twice gives the original; inverting an invertible scalar or 2x2 matrix gives the matrix whose product with the original, on either side, is the identity, and the scalar inverse of zero is zero.",
["inputs"],"all vectors, all 2x2 matrices with non-zero determinant, exact arithmetic",
"The single inversion test pins one matrix and its expected value is the transposed inverse.",
[MF],[("transposition","num::transposed"),("inversion","num::inverted")],observe_at="entries of results")
p("B01","A biquad section realizes its difference equation for every input history",
"From a cleared state and for any coefficients, the outputs of a biquad section stepped in direct form 2 (the default) or in transposed direct form 2 are those of the difference equation y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], so both realizations agree with each other at every sample; coefficients never change while filtering.",
["inputs","histories"],"all coefficient sets, all input sequences of any length (including after long silence, extremes and sign changes), exact and floating arithmetic, separate coefficient type",
"Tests compare a short step response of one or two filters to stored numbers with tolerance.",
[BF],[("step functions","BiQuadT::step, step_df2, step_df2_transposed")],observe_at="return values of step, coeff_a(), coeff_b()")
p("B02","Resetting, copying and swapping biquads moves exactly the filter and its state",
"Resetting a section at any point makes its future outputs those of a freshly constructed section with the same coefficients; a copy continues independently from the same point; swapping two sections exchanges their coefficients and states completely and nothing else; observing a section does not change it.",
["histories"],"all interleavings of step, reset, copy, assign, swap and observe on several sections, also self-swap",
"Tests reset or swap once from one state.",
[BF,"include/std/utility.hpp"],[("reset, swap, state","BiQuadT::reset, swap, state"),("swap","std20::swap")],observe_at="state(), coeff_a(), coeff_b(), subsequent outputs")
p("B03","Poles, zeros, gain and stability of a biquad describe its transfer function",
"The reported poles and zeros are the roots of the denominator and numerator polynomials, the section is reported stable exactly when no pole lies outside the unit circle, and a section constructed from zeros, poles and gain has the coefficients of the transfer function with those roots and gain (real pairs or complex-conjugate pairs).",
["inputs"],"all coefficient sets (leading coefficient non-zero), real, double, complex-conjugate and zero roots; roots within rounding distance of the unit circle are not judged",
"Tests check a few hand-computed roots.",
[BF],[("quadratic roots","biquad::solve"),("stability","BiQuadT::is_stable"),("ZPK construction","BiQuadT::BiQuadT(z,p,k), to_coeff")],observe_at="poles(), zeros(), is_stable(), coeff_a(), coeff_b()")
p("B04","Frequency response functions evaluate the transfer function on the unit circle",
"For any normalized frequency, the response of a one-pole section, of a biquad section, and of a cascade is the value of its transfer function at that frequency, the response of a cascade being the product over its active sections (one for an empty cascade); responses are independent of and do not change the filter state.",
["inputs","configurations"],"all coefficient sets without a pole at the evaluated point, all frequencies in [0, 1/2] and aliases, any number of sections",
"Tests compare response at a few frequencies of a few filters with stored values.",
[BF,CF,"include/dsp/onepole.hpp"],[("response","dsp::biquad::response, dsp::biquad_cascade::response, dsp::onepole::response")],observe_at="returned complex response")
p("C01","A biquad cascade is a bounded sequence of sections under every edit history",
"Appending, inserting, removing, replacing and clearing sections change the cascade exactly as the corresponding operations on a sequence bounded by its capacity: all other sections keep their order, coefficients and filter state, replace returns the previous section with its state, size, iteration and per-index observers describe exactly the current sequence, and copies are independent.",
["histories"],"all valid operation sequences (indices in range, capacity not exceeded) up to full capacity, interleaved with filtering",
"Tests perform each edit once on a fresh cascade and do not check state of the surviving sections.",
[CF],[("editing operations","BiQuadCascadeT::append, insert, remove, replace, clear"),("observers","size, reserved, coeff_a, coeff_b, state, begin, end")],state="sequence of (coefficients, state)",observe_at="size(), coeff_a(i), coeff_b(i), state(i), iteration")
p("C02","Stepping a cascade filters through exactly its active sections in order",
"Each step of a cascade (in any of the three realizations) feeds the input through every active section exactly once, in sequence order, each section receiving the previous one's output, and returns the last output (the input itself when empty); resetting clears the state of every active section and keeps the coefficients; the cascade is stable exactly when all active sections are.",
["histories","inputs"],"all interleavings of edits, steps in all realizations and resets on cascades of 0 to 4 sections",
"Tests step a cascade of a fixed composition.",
[CF,BF],[("cascade algorithms","biquad_cascade::step, step_df2, step_df2_transposed, reset, is_stable")],observe_at="return values, state(i)")
p("C03","Requests outside the bounds of a cascade or design are stopped",
"With assertions enabled, a cascade executes exactly the requests that its current size and capacity allow: appending to or inserting into a full cascade, and inserting, removing, replacing or observing at an index at which there is no section, ends in an assertion (or exception) before anything outside the cascade is read or written, in whatever state its edit history left it, while every request inside the bounds is executed. Likewise a Chebyshev design is made exactly when low-pass or high-pass is asked for and both frequencies lie below half the sample rate, and a cascade is made from a design exactly when it can hold its sections.",
["inputs","histories"],"all requests with any index in every size that an edit history can reach, for every capacity; all design kinds and frequencies",
"A test that triggers an assertion ends the test program; no test asks for anything outside the bounds.",
[CF,"include/dsp/chebyshev-design.hpp"],[("preconditions of the cascade","BiQuadCascadeT::append, insert, remove, replace, coeff_a, coeff_b, state"),("preconditions of the designs","chebyshev1_lp_hp_impl, chebyshev2_lp_hp_impl, make_biquad_cascade")],observe_at="whether a request returns or the process is stopped; memory around the cascade")
p("O01","A one-pole section realizes its difference equation and reports its pole",
"From a cleared state a one-pole section's outputs satisfy y[n] = b0 x[n] - a1 y[n-1] for any coefficients and input history; reset, copy and swap move exactly the filter and its state; the reported pole is the root of the denominator, the section is stable exactly when the pole is not outside the unit circle, and zero-pole-gain construction gives the section with that pole and gain.",
["inputs","histories"],"all coefficients, input histories and interleavings of step, reset, copy, swap",
"There is no test for one-pole sections.",
["include/dsp/onepole.hpp"],[("step","OnePoleT::step"),("pole and stability","OnePoleT::poles, is_stable, solve")],observe_at="return values, state(), poles(), is_stable()")
p("D01","Biquad designs meet their defining gains for every frequency, Q and gain",
"For every cutoff or centre frequency strictly between zero and half the sample rate and every Q > 0 the designed section is stable and has the defining gains of its kind: low pass 1 at DC, 0 at Nyquist and Q at the cutoff; high pass 0, 1 and Q; band pass 0, 0 and 1 at the centre; band stop 1, 1 and 0; band pass and band stop have half power at the two band edges (the pre-warped frequencies W with |W^2 - K^2| = W K/Q, K the pre-warped centre). For shelves and peaking equalizers the gain in dB is the requested gain in the shelf region (low: DC, high: Nyquist, peak: centre frequency) and 0 dB at the unaffected end(s), at the shelf frequency and at the band edges of a boosting equalizer the power gain is the mean of the two levels, and the design for the negated gain is the inverse filter, so boost and cut cancel.",
["inputs","configurations"],"all frequencies, sample rates, Q values and gains (boost, cut, zero), parameters of mixed integer and floating types",
"There is no test of the designs.",
["include/dsp/biquad-design.hpp","include/dsp/filter-design.hpp"],[("designs","biquad_design_method<...>::design"),("entry point and conversion","biquad_design, make_biquad"),("gain and frequency helpers","dbV_factor, prewarp")],observe_at="coeff_a(), coeff_b() of make_biquad(biquad_design<...>(...))")
p("D02","Chebyshev designs meet the requested pass-band and stop-band attenuation",
"For every feasible low-pass or high-pass specification, the type 1 and type 2 designs are stable, have an order that is the smallest integer meeting the specification, one section per two orders (rounded up), never exceed unity gain, attenuate by at most the allowed amount throughout the pass band and by at least the required amount throughout the stop band, and report the frequency at which the attenuation is 3 dB; the constructed cascade has exactly the designed sections in order.",
["inputs","configurations"],"all sample rates, pass and stop edges, attenuations (orders 1 to about 16), low and high pass, both types, mixed parameter types",
"Tests contain no design; they filter with stored coefficients. Type 1 violated its stop band by 30 dB without any test failing.",
["include/dsp/chebyshev-design.hpp"],[("designs","chebyshev1_lp_hp_impl, chebyshev2_lp_hp_impl"),("cascade","make_biquad_cascade")],observe_at="returned coefficients and info, response computed from coefficients")
p("D03","Decibel and pre-warp helpers are consistent inverses",
"Power and voltage decibels are 10 log10 and 20 log10 of the ratio, the factor functions are their inverses for the magnitude of the decibel value, the voltage factor squared is the power factor, and pre-warping maps frequency f at sample rate fs to tan(pi f/fs).",
["inputs"],"all positive ratios and decibel values in a wide range, mixed integer and floating parameters for the functions that accept them",
"There is no test of the helpers; the voltage factor was wrong.",
["include/dsp/filter-design.hpp"],[("helpers","dbP, dbV, dbP_factor, dbV_factor, prewarp")],observe_at="return values")
p("D04","One-pole designs are stable unity-gain filters with the requested pole",
"For every cutoff strictly between zero and half the sample rate the low-pass one-pole design has its pole at exp(-2 pi f/fs) and unity gain at DC, the high-pass design has its pole at -exp(-2 pi (1/2 - f/fs)) and unity gain at Nyquist, both are stable, and the gain falls monotonically away from the pass band.",
["inputs"],"all cutoff frequencies and sample rates, mixed integer and floating parameters",
"There is no test of the designs; they were wrong by an integer abs and a factor two.",
["include/dsp/onepole-design.hpp"],[("designs","onepole_design_method<...>::design, onepole_design, make_onepole")],observe_at="coeff_a(), coeff_b() of make_onepole(onepole_design<...>(...))")
p("L01","Ready-made low-pass and high-pass filters run the corresponding design",
"A ready-made low-pass (high-pass) filter object constructed for a cutoff, sample rate and Q returns for each sample of any input stream the output of the low-pass (high-pass) biquad design with those parameters from a cleared state; filter objects are independent.",
["inputs","histories"],"all parameter sets and input streams, several filter objects interleaved",
"There is no test of these classes.",
["include/dsp/filter.hpp"],[("Lpf, Hpf","dsp::Lpf, dsp::Hpf")],observe_at="operator() results")
p("R01","Ranges and indices enumerate exactly the arithmetic progression they denote",
"Iterating a range yields exactly first, first+step, first+2*step, ... strictly before last (in the direction of the step, also for negative, fractional and unsigned steps), an open-ended range yields the progression without end, indices of an array, container or list yield 0..size-1, and iterating is repeatable and does not modify the range.",
["inputs"],"all bounds and non-zero steps including empty ranges, limits of the type, steps that do not divide the span, mixed argument types",
"Tests check one or two ranges per form.",
["include/core/range.hpp"],[("range proxies and iterators","core::ranges::detail"),("indices","core::indices")],observe_at="sequence of values from iteration")
p("S01","Sequence algorithms and text helpers act on exactly the given range",
"copy, fill, equal (with and without predicate) and swap act on exactly the elements of the half-open ranges they are given and report the end position or verdict accordingly; line makes a text of exactly the requested length and character; replaced substitutes exactly the first occurrence of the pattern, and conversion with as is a plain static conversion. On the AVR, where the library brings its own stand-ins for the standard algorithms, numeric limits, type traits, initializer lists, move and swap, these mean what the standard says.",
["inputs"],"all sequences, sub-ranges and element values up to small sizes (including empty and differing only in one position), all texts over a small alphabet",
"Tests use one example per algorithm.",
["include/std/algorithm.hpp","include/std/utility.hpp","include/std/limits.hpp","include/std/type_traits.hpp","include/std/complex.hpp","include/core/text.hpp","include/core/shims.hpp"],[("algorithms","std20::copy, fill, equal, swap"),("text","core::line, core::replaced, core::as")],observe_at="contents of all elements in and around the range, return values")
p("I01","Stream output shows every component, in order, with its exact meaning",
"Printing a matrix writes its entries row by row, one line per row; printing a vector, coefficient set, state or root pair writes all components in order; printing a fixed-point number writes its value; printing a section or cascade reports its stability verdict and its coefficients, state, poles and zeros for every active section; numbers appear to the precision set on the stream, and printing changes neither the object nor the stream's settings.",
["inputs"],"all values and shapes; numbers compared after parsing, layout of separators and labels not judged",
"Printing is not tested.",
["include/num/matrix-io.hpp","include/num/fixed-point-io.hpp","include/dsp/biquad-io.hpp","include/dsp/biquad-cascade-io.hpp","include/dsp/onepole-io.hpp","include/core/vector-io.hpp"],[("stream operators","operator<<")],observe_at="characters written to the stream")
p("U01","Register field operations touch exactly the addressed bits",
"Reading a field returns the value of exactly its bits shifted down; writing, setting, clearing or toggling a field changes exactly its bits to the value (modulo its width; a single bit is set by any non-zero value) and leaves all other bits of the register and all other registers as they were, for every field position and width, register width, prior register content and written value.",
["inputs","configurations"],"all 36 fields of an 8-bit register and a covering set of 16-bit fields, all prior contents and values, on the compiled AVR code",
"The test suite cannot run the AVR code; no test touches the register layer.",
[RF],[("field access","bitfield_t::read, write, set, clear, toggle"),("io policies","r_t, w_t, rw_t, rc_w0_t, rs_t"),("masks","bitmask, rngmask")],observe_at="I/O memory after each call and value returned, in an instruction-level AVR simulation")
p("U02","Combined deferred writes reach the register as one single write",
"Deferred field writes joined in one expression are applied by exactly one store to the register at the end of that expression, in which every joined field has its new value and all other bits have their previous value; a single deferred write is applied exactly once.",
["inputs","configurations"],"all combinations of two to four fields, prior contents and values; every intermediate register value is observed",
"An intermediate register value exists only for cycles; needs a trace of every store.",
[RF],[("write_proxy and comma operator","write_proxy, operator,"),("write_lazy","bitfield_t::write_lazy")],observe_at="sequence of stores to I/O memory")
p("U03","Every named register, field and pin denotes the documented hardware bits",
"Each named register and bit field of the microcontroller description reads and writes the address and bit positions the ATmega328P data sheet assigns to that name, 16-bit registers being written high byte first and read low byte first; the named constants of the description (register addresses, pins of the two-wire bus, range of conversion results and of the pulse width) have the documented values.",
["configurations"],"all named registers and bit fields of the register map",
"No test reads the register map; a wrong address compiles.",
[AF],[("register map","namespaces core, mem, ei, gpio, tc0, tc1, tcp, twi, ac, adc :: reg")],observe_at="addresses, order and bits of loads and stores in AVR simulation")
p("U04","Peripheral settings read back what was set and change nothing else",
"For each peripheral setting of the EEPROM, external interrupt, timer, prescaler, two-wire, comparator and ADC interfaces, setting a value programs exactly the bits the data sheet defines for that setting, the current value then reads back as that value (also where a setting is spread over several registers), and all other bits of all registers are unchanged.",
["inputs","configurations","histories"],"all settings with all their values, from arbitrary prior register contents, and sequences of settings",
"Needs hardware or simulation; round trips of two settings were wrong.",
[AF],[("set / current pairs","namespaces mem::eeprom, ei, tc0, tc1, tcp, twi, ac, adc"),("led, tc1_pwm_on_a_pb1","convenience types")],observe_at="I/O memory and returned values in AVR simulation")
p("U05","Clearing an interrupt flag clears that flag and no other",
"Clearing an interrupt flag of the external-interrupt, pin-change, timer, comparator, ADC or two-wire interface clears exactly that flag if pending, leaves every other pending flag pending and every control bit unchanged, and reading a flag reports whether it is pending without changing it.",
["inputs","configurations"],"all flags, all combinations of other pending flags in the same register, all control bits",
"Write-one-to-clear registers behave unlike memory; needs a model of the hardware.",
[AF,RF],[("flag functions","clear, current, clear_*_flag"),("rc_w1_t","clearbit_w1_t")],observe_at="register contents under write-one-to-clear semantics in AVR simulation")
p("U06","Atomic access and interrupt guards exclude interrupts exactly while needed",
"A multi-byte value read or written through the atomic functions is never torn by an interrupt service routine that accesses the same value, at whichever instruction the interrupt arrives; the interrupt guard keeps interrupts disabled for exactly its scope and enables them afterwards; a saved status register is restored at the end of its scope.",
["schedules"],"an interrupt at every instruction boundary of the access, 8, 16 and 32 bit values",
"Needs control of the exact interrupt point.",
[RF,AF],[("atomic","mcu::atomic"),("scoped_interrupt_guard","register.hpp"),("scoped_sreg","core::scoped_sreg")],observe_at="value seen by main code and by the service routine, interrupt enable flag over time")
p("U07","A two-wire byte write performs the complete bus transaction or reports an error",
"Writing a byte to a two-wire device issues start, the given address, the given data byte and stop, each only after the hardware reported completion of the previous step with the expected status, and reports success exactly then; at the first unexpected status it stops issuing further steps and reports an error; initialization programs bit rate, prescaler, interface enable and pull-ups whatever the prior register contents.",
["inputs","fault_sequences","schedules"],"all address/data bytes, every status at every step, arbitrary hardware delays",
"Needs a simulated bus controller with faults at each step.",
[AF],[("synchronous write","twi::sync::write"),("init","twi::sync::init")],observe_at="sequence of TWI register stores against a TWI hardware model")
p("T01","Meaningless uses are rejected at compile time, meaningful ones accepted",
"The compiler accepts exactly the uses that have a meaning: sums and differences of matrices of equal shape and products of conforming shapes (a 1x1 matrix may act as a scalar), an estimator given matrices and vectors of the dimensions of its model, fixed-point numbers combined within one format, constant objects observed but not modified, cascades constructed from no more sections than they hold, register fields that lie within their register, exactly the accesses that the policy of a field offers (read-only bits are not written, flags are only read and cleared), deferred writes joined only for one register of one width and policy, and settings given only to the peripheral interface they belong to. Everything else does not compile, so it cannot silently do something else at run time.",
["inputs","configurations"],"all matrix shapes, model dimensions, fixed-point formats, access policies and operations, field positions, joins, and pairs of interface and setting",
"A test program must compile, so no test can show that a use is rejected.",
[MF,KF,XF,CF,RF,AF],[("shape constraints","num::operator+, -, *"),("model types","kalman::A_t ... xhat_t"),("io policies and joins","r_t ... rt_w, operator, of write_proxy, bitfield_t::bitfield_t"),("strongly typed settings","enum classes of the peripheral namespaces")],observe_at="verdict of the compiler for each use")
p("E01","The AVR programs drive the board as described under any interleaving of events",
"Each AVR example program configures exactly the peripherals it needs before it enables interrupts, and then reacts as described whenever interrupts, conversions and pin changes arrive: the heartbeat beats every millisecond and its boxes of 10, 100 and 1000 ms are filled at every tenth beat of the previous one and emptied by the one program part that waits for them; the blinking programs toggle the LED once per period; the converter programs show the latest conversion on the LED with the stated threshold; the converter-to-pulse-width program outputs the clamped latest conversion once per second; the fading program moves all three outputs through every duty cycle up and down while following the input pin; the estimator simulation runs to its end. Nothing else on the chip changes.",
["schedules","histories","configurations"],"all instants at which timer interrupts, conversions and pin changes can arrive, all conversion values, histories of tens of thousands of events, all optimization levels of the scripts",
"The programs have no tests and run for ever; their correctness is about interrupts arriving between any two instructions.",
["example/avr/avr-adc-dac-isr-atmega.e.cpp","example/avr/avr-adc-isr.e.cpp","example/avr/avr-blink-led-isr.e.cpp","example/avr/avr-blink-led.e.cpp","example/avr/avr-fade-led.e.cpp","example/avr/avr-kalman-sim.e.cpp",AF,RF],[("heartbeat","ISR( TIMER0_COMPA_vect ), heartbeat"),("conversion","ISR( ADC_vect )"),("main loops","main of the example programs"),("peripheral interface","tc0, tc1, adc, gpio, led, tc1_pwm_on_a_pb1")],observe_at="changes of I/O registers of the compiled program in AVR simulation",state="configuration, heartbeat counters and boxes, latest conversion, output registers, place in the main loop")
p("E02","The timing program toggles its pin once per estimator update and computes it",
"The timing program makes one complete estimator update between two changes of its output pin, for every numeric type, gain mode and optimization it is built for, so that the period of the pin is the time of two updates. Its estimator performs the Kalman recursion, or, when built with a held gain, the same prediction and correction with the gain it holds.",
["configurations","inputs","histories"],"floating and fixed point, updated and held gain, optimization levels with and without link-time optimization; all models and histories for the estimator",
"An optimizer may remove an update whose result is not used; only the executed instructions tell. The program is never built by the tests.",
["time/avr-kalman-time.cpp","include/num/matrix.hpp","include/num/fixed-point.hpp"],[("measuring loop","main"),("estimator with optional gain update","kalman::update of time/avr-kalman-time.cpp")],observe_at="changes of the output pin and instructions between them in AVR simulation; estimator state on the host")
p("W01","The build scripts make exactly the program that was asked for",
"An invocation of the compile script makes, for every existing source file it is given, assembly and object code with exactly the given standard, optimization, processor, clock, definitions and inclusion directories, links exactly these objects into one program under the given or first name, converts it into flash and EEPROM images of that program, reports how many files it processed, and makes nothing when there is nothing to compile; it reports the macros of the compiler instead when asked to. The upload script programs exactly the given image. The make scripts build the program they are named after, the one of the timing program in all eight variants.",
["inputs","configurations"],"all combinations and orders of options, numbers of files, file names with several dots and directories, with and without an output name",
"No test runs the scripts; a dropped or reordered option still produces a program.",
["script/avr-gcc.py","script/avr-upload.py","script/avr-gcc-predefined.py","time/mk-avr-kalman-time.py","example/avr/mk-avr-blink-led.e.py"],[("pipeline","build, compile_cpp, link_to_elf, create_eep, create_hex"),("options","main of avr-gcc.py"),("make scripts","mk-*.py")],observe_at="calls of the tools of the tool chain, in order, with the files existing at that time",state="what each file has been made from")
p("H01","Every public header stands alone and means the same in any combination",
"Each public header of the library can be included on its own, in any order relative to the others, repeatedly, and in several translation units of one program, on the host and (those meant for it) on the AVR, in C++17 and C++20; the program compiles and links, and what the names of a header do and print does not depend on which other headers are included before or after it, on the language standard or on the compiler.",
["configurations"],"every header alone, all ordered pairs, random orders and repetitions of up to all headers, one to three translation units, two compilers and two language standards",
"The test program is one translation unit per module with one fixed order of inclusion, behind which missing and circular inclusions hide.",
["include/core/text.hpp","include/dsp/filter-design.hpp","include/dsp/filter.hpp","include/dsp/chebyshev-design.hpp","include/dsp/biquad-design.hpp","include/num/matrix.hpp","include/std/tuple.hpp"],[("inclusion guards and inclusions","all headers of include/"),("inline functions and templates","all headers of include/")],observe_at="verdict of compiler and linker, and output of the linked program",state="meaning found for the names of each header so far")
p("N01","What has a meaning is a constant expression with that meaning",
"Construction, conversion, arithmetic, compound assignment and comparison of fixed-point numbers whose result is representable, construction, element access, algebra, transposition and inversion of matrices, and the sequence algorithms and swap can be evaluated by the compiler in constant expressions (so they invoke no undefined behaviour and no function that only exists at run time), and give exactly the values they are specified to have at run time.",
["inputs","configurations"],"all operand values and formats of 8, 16 and 32 bits, matrix shapes and contents, sub-ranges; two compilers and two language standards",
"Tests evaluate at run time, where undefined operations happen to work; a compiler refuses them in constant expressions only for the operands concerned.",
[XF,MF,"include/std/algorithm.hpp","include/std/utility.hpp"],[("constexpr functions","num::fixed_point, num::matrix and operators"),("sequence algorithms","std20::copy, fill, equal, swap")],observe_at="whether an expression is constant, and its value")
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
