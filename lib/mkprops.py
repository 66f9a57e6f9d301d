#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the long texts stay readable)."""
import json, os
R = "include/boost/random/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=[R + f if not f.startswith("src/") else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Engines produce exactly the sequence their published recurrence defines",
  "For every seed, every predefined engine and every instantiation of an engine template with valid parameters produces exactly the sequence of values that its published recurrence and seeding procedure define. This holds for every draw, however far into the sequence, and does not depend on when or how the internal buffer is refilled.",
  ["inputs", "configurations", "histories"],
  "all seeds and seeding routes, all valid template parameters, all positions in the sequence",
  "Tests compare one value (the 10000th) for one or two seeds of each predefined engine and never instantiate other template parameters, so an error that needs another seed, word size, lag or buffer position is invisible.",
  ["linear_congruential.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "linear_feedback_shift.hpp",
   "inversive_congruential.hpp", "mixmax.hpp", "splitmix64.hpp", "detail/const_mod.hpp", "detail/large_arithmetic.hpp"],
  [("modular arithmetic", R+"detail/const_mod.hpp"), ("twist and tempering", R+"mersenne_twister.hpp"), ("buffer refill", R+"lagged_fibonacci.hpp fill()"), ("borrow propagation", R+"subtract_with_carry.hpp do_update")],
  [("window", "the last n words of the recurrence (and carry)")], ["operator()", "seed", "constructors"])
prop("C02", "Discarding z values is the same as drawing z values and ignoring them",
  "For every engine and engine adaptor, from every reachable state and for every count z, discard(z) leaves the object in exactly the state that z successive draws would leave it in: it compares equal to the drawn object and produces the same future. Discards compose: discard(a) then discard(b) is discard(a+b), including counts large enough for jump-ahead algorithms.",
  ["inputs", "histories", "configurations"],
  "every state (in particular every offset into the internal buffer), every z up to the largest representable count, every engine type and parameter set",
  "Tests try three fixed counts from the freshly seeded state; discard code has separate paths for buffer offsets, short counts, full blocks and jump-ahead which those counts do not reach.",
  ["linear_congruential.hpp", "mersenne_twister.hpp", "detail/polynomial.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "discard_block.hpp", "shuffle_order.hpp", "additive_combine.hpp", "xor_combine.hpp", "independent_bits.hpp", "mixmax.hpp", "splitmix64.hpp"],
  [("affine jump", R+"linear_congruential.hpp discard"), ("polynomial jump", R+"mersenne_twister.hpp discard_many"), ("block discard", R+"subtract_with_carry.hpp subtract_with_carry_discard")],
  [("position", "number of values drawn since seeding")], ["discard", "operator()", "operator=="])
prop("C03", "Equal engines have the same future, and copies are equal and independent",
  "If two engine objects of one type compare equal, then applying the same further operations to both yields the same values forever; operator!= is always the negation of operator==. A copy (or assignment, or two objects brought to the same point of the same sequence by any mixture of draws, discards, seeding and save/restore) compares equal to its source, and using one afterwards never affects the other.",
  ["histories", "inputs", "configurations"],
  "all pairs of reachable states of one engine type, all interleavings of operations on the two objects",
  "Tests compare a handful of objects, always reached by the same route, and never pairs of states that differ in a single hidden component (carry, buffer index, shuffle register).",
  ["mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "shuffle_order.hpp", "discard_block.hpp", "mixmax.hpp", "detail/operators.hpp"],
  [("rewinding comparison", R+"mersenne_twister.hpp equal_imp"), ("window comparison", R+"subtract_with_carry.hpp operator==")],
  [("abstract state", "seed stream and position of each object")], ["operator==", "operator!=", "copy construction", "assignment"])
prop("C04", "Saving an engine to a stream and restoring it resumes the exact sequence",
  "Writing any reachable state of any engine or adaptor to a text stream and reading it back into any object of the same type gives an object that compares equal to the original and continues with exactly the same values. This holds whatever formatting the user left on the stream (number base, field width, grouping, sign, skipws, exception mask), and that formatting is left as it was. Reading consumes only that object's own text and leaves the stream usable, so several objects and other data can share one stream; writing does not change the object; reading truncated or non-numeric text is reported through the stream state.",
  ["histories", "inputs", "configurations", "crash_points"],
  "every reachable state (every buffer offset), every target object state, every truncation point of the saved text, several objects per stream",
  "Tests save one freshly seeded and one partly advanced engine alone in a stream; states at particular buffer offsets, several objects in one stream and damaged text are not tried.",
  ["mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "shuffle_order.hpp", "discard_block.hpp", "independent_bits.hpp", "additive_combine.hpp", "xor_combine.hpp", "mixmax.hpp", "splitmix64.hpp", "linear_congruential.hpp", "linear_feedback_shift.hpp", "inversive_congruential.hpp"],
  [("state rewind on output", R+"mersenne_twister.hpp print"), ("validation on input", R+"linear_congruential.hpp read")],
  [("saved text", "abstract state captured at save time")], ["operator<<", "operator>>", "stream state"])
prop("C05", "Seeding is a function of the seed alone and consumes exactly what it documents",
  "Seeding by default, by any arithmetic value, by a seed sequence or by an iterator range puts an engine into a state determined only by the seed, whatever the object did before, and construction with a seed equals seeding later with it. Seeding from iterators consumes exactly the number of words the engine's state needs, leaves the iterator just past them, and throws std::invalid_argument if the range is too short. No seed, including all zeros, may put an engine with a forbidden state into that state.",
  ["inputs", "histories", "configurations"],
  "all seed values and types, all seed words, all prior histories of the object, all range lengths",
  "Tests use a few seed values; prior history, word counts for other word sizes, short ranges at every length and degenerate seeds are not enumerated.",
  ["detail/seed.hpp", "detail/seed_impl.hpp", "detail/generator_seed_seq.hpp", "mersenne_twister.hpp", "linear_congruential.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "linear_feedback_shift.hpp", "mixmax.hpp", "splitmix64.hpp"],
  [("word packing", R+"detail/seed_impl.hpp"), ("state normalization", R+"mersenne_twister.hpp normalize_state")],
  [("seed words", "the 32-bit words the seeding consumed")], ["seed(...)", "constructors", "the caller's iterator", "exceptions"])
prop("C06", "Every value an engine returns lies within its advertised min() and max()",
  "From every reachable state every engine and adaptor returns a value v with min() <= v <= max(), where min() and max() are the documented bounds of its recurrence and never change over the object's life.",
  ["histories", "inputs", "configurations"],
  "all reachable states of all engines and adaptors, including adaptors over engines whose own minimum is not zero",
  "Tests draw some values from predefined engines; boundary outputs of 32- and 64-bit engines practically never occur in a sample.",
  ["linear_congruential.hpp", "additive_combine.hpp", "inversive_congruential.hpp", "xor_combine.hpp", "shuffle_order.hpp", "independent_bits.hpp", "lagged_fibonacci.hpp", "subtract_with_carry.hpp", "mersenne_twister.hpp", "mixmax.hpp"],
  [("bounds", "min()/max() of every engine")], (), ["operator()", "min", "max"])
prop("C07", "Engine adaptors transform their base sequence exactly as documented",
  "An adaptor's output is the documented function of its base engines' output: discard_block passes on the first r of every p base values; shuffle_order returns the table entry selected by the previous output and refills it from the base; xor_combine and additive_combine combine one value of each base; independent_bits assembles w uniformly distributed bits from base values, rejecting only values that would bias them. base() exposes the base engine in the state these draws imply.",
  ["inputs", "histories", "configurations"],
  "all base engines and base ranges, all adaptor parameters, all base value sequences, all positions",
  "Tests check a single value of the predefined adaptors; arithmetic paths for other base ranges (narrow, full 64-bit, not a power of two) are never run.",
  ["discard_block.hpp", "shuffle_order.hpp", "xor_combine.hpp", "additive_combine.hpp", "independent_bits.hpp", "detail/large_arithmetic.hpp", "detail/integer_log2.hpp", "ranlux.hpp", "taus88.hpp"],
  [("table index", R+"shuffle_order.hpp operator()"), ("bit assembly", R+"independent_bits.hpp calc_params")],
  [("base log", "values drawn from each base engine")], ["operator()", "base()"])
prop("C08", "Uniform integer distributions stay in range and are exactly uniform",
  "For every engine range and every requested range [a, b] of any integer type, the uniform integer distribution returns only values in [a, b], and if the engine's values are independent and equally likely then every value of [a, b] has exactly the same probability at every number of engine values consumed. The quick small-range variant and the shuffle helper also stay within their documented range.",
  ["inputs", "configurations"],
  "all engine output sequences, engine ranges narrower, equal and wider than the requested range, all integer types and extreme bounds",
  "Tests sample pseudo-random engines and apply statistical checks on a few ranges; bias or an out-of-range value for one combination of engine range and requested range cannot be excluded.",
  ["uniform_int_distribution.hpp", "uniform_smallint.hpp", "uniform_int.hpp", "random_number_generator.hpp", "detail/signed_unsigned_tools.hpp", "detail/uniform_int_float.hpp"],
  [("concatenation and rejection", R+"uniform_int_distribution.hpp generate_uniform_int")],
  [("decision tree", "which engine value prefixes lead to which result")], ["operator()"])
prop("C09", "Uniform real variates lie in the half-open interval for every engine value",
  "For every engine, including one that returns its extreme values, the unit-interval distribution and adaptor, the uniform real distribution on [a, b) and the canonical generator return values that are never below the lower bound and never reach the upper bound, never hang on legal engine values, and are a non-decreasing function of the engine value that starts at the lower bound and is the engine value's share of the engine's range (of the engine values' combined range, for the canonical generator) up to rounding.",
  ["inputs", "configurations"],
  "all engine values including both extremes, all result precisions, all finite bounds a < b",
  "Pseudo-random samples essentially never contain the extreme engine values at which rounding reaches the upper bound.",
  ["uniform_01.hpp", "uniform_real_distribution.hpp", "uniform_real.hpp", "generate_canonical.hpp", "detail/int_float_pair.hpp"],
  [("rejection of the upper bound", R+"uniform_01.hpp, uniform_real_distribution.hpp")], (), ["operator()"])
prop("C10", "Weighted choices follow their weights exactly",
  "With integer weights, the discrete distribution returns index i with probability exactly proportional to weight i, never returns an index of weight zero, and reports back the weights it was given, for any number and magnitude of weights whether the weights are stored or passed per call. With weights of any type it never returns an index of weight zero, and with no weights it returns only 0. A Bernoulli trial with probability p succeeds for exactly the engine values below the fraction p of the engine's range, with p = 0 never and p = 1 always succeeding.",
  ["inputs", "configurations"],
  "all weight vectors, all engine value sequences, engine ranges equal to, smaller and larger than needed",
  "Tests check sampled frequencies of a few weight vectors; the alias table has order-dependent paths and overflow cases they do not reach.",
  ["discrete_distribution.hpp", "bernoulli_distribution.hpp", "piecewise_constant_distribution.hpp"],
  [("alias table", R+"discrete_distribution.hpp integer_alias_table, init")],
  [("decision tree", "which engine value prefixes lead to which index")], ["operator()", "probabilities", "param"])
prop("C11", "A distribution's values depend only on its parameters and the engine",
  "For every distribution, the value and the engine consumption of each draw are determined by the parameters and the engine state alone: a fresh object, a copy, an object that was reset, re-parameterised or restored, and one used before with other engines all give the same results, and equal distribution objects given equal engines give equal values. The accessors report exactly the parameters that are in force, and param() carries all of them.",
  ["histories", "inputs", "configurations"],
  "all interleavings of draws, reset, param changes, copies and save/restore on several distribution objects and engines, all parameter values",
  "Tests exercise each operation once on a fresh object; state carried over between draws or by a partial param update needs specific sequences.",
  ["normal_distribution.hpp", "gamma_distribution.hpp", "poisson_distribution.hpp", "binomial_distribution.hpp", "exponential_distribution.hpp", "uniform_on_sphere.hpp", "discrete_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp", "student_t_distribution.hpp", "lognormal_distribution.hpp"],
  [("precomputed constants", R+"binomial_distribution.hpp, poisson_distribution.hpp, gamma_distribution.hpp init()")],
  [("parameters", "parameter set in force for each object"), ("engine position", "number of engine values consumed")], ["operator()", "param", "reset", "copy"])
prop("C12", "Distributions and parameter sets survive a stream round trip",
  "Writing a distribution or parameter set at full precision and reading it back gives an object equal to the original with the same future values, consuming only its own text (lists of real weights are kept normalised, so for them this is required when the normalised weights are exact). This does not depend on the stream's field width, digit grouping, sign, notation, skipws or exception settings, which are left as they were. Reading text that is truncated, not a parameter list, or rejected as invalid sets the stream's fail state and leaves the target distribution unchanged.",
  ["inputs", "histories", "crash_points"],
  "all distributions and parameter values, all truncation points of the saved text, several objects in one stream, any previous value of the target",
  "Tests round-trip one or two parameter values alone in a stream and a few invalid strings.",
  ["detail/vector_io.hpp", "detail/operators.hpp", "discrete_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp", "uniform_int_distribution.hpp", "triangle_distribution.hpp"],
  [("vector text form", R+"detail/vector_io.hpp")], (), ["operator<<", "operator>>", "stream state"])
prop("C13", "seed_seq generates exactly the standard's seed words for every length",
  "For every stored sequence and every requested length, including zero, seed_seq::generate fills exactly that range with the values the C++ standard's algorithm prescribes, each below 2^32 whatever unsigned element type is used, and does not alter the stored sequence; size() and param() return what was stored.",
  ["inputs"],
  "all stored word sequences (empty, shorter, longer than the output), all output lengths across every internal threshold, all unsigned element types of at least 32 bits",
  "Tests compare two fixed outputs; the lengths at which the mixing constants change and wide element types are not covered.",
  ["seed_seq.hpp"], [("mixing", R+"seed_seq.hpp generate")], (), ["generate", "size", "param"])
prop("C14", "Bulk generation packs engine values into 32-bit words without bias or loss",
  "Filling a range, also an empty one, from any engine writes every element exactly once with a 32-bit word (rand48 and splitmix64: one whole engine value), nothing outside the range, and makes the words an exact re-packing of uniformly distributed bits taken in order from successive engine values, rejecting an engine value only when its range is not a multiple of the power of two used. The engine ends up after exactly the values consumed, so two bulk fills of one engine give the same result as from an equal engine.",
  ["inputs", "configurations"],
  "all engine ranges (narrower than, equal to and wider than 32 bits, powers of two or not, real-valued), all range lengths, all engine value sequences",
  "Tests fill one range per predefined engine and compare with a second implementation only for a few bit widths.",
  ["detail/seed_impl.hpp", "detail/generator_bits.hpp", "detail/integer_log2.hpp"],
  [("bit packing", R+"detail/seed_impl.hpp generate_from_int, generate_from_real")],
  [("bit buffer", "bits taken from engine values but not yet written")], ["generate", "engine state"])
prop("C15", "Quasi-random engines address one sequence coherently by draw, seed and discard",
  "For each dimension a quasi-random engine has one fixed sequence of vectors, delivered one coordinate at a time; seed(n), discard(z), copying, save/restore (also into an engine of another dimension) and any mixture of them with draws only move the position in that sequence, and two engines compare equal exactly when dimension and position agree. Moving beyond the last vector, a zero or unsupported dimension, or an unrepresentable seed is reported by an exception and leaves the engine's position unchanged.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all operation sequences, all dimensions, all positions including mid-vector and the end of the sequence, all word widths",
  "Tests compare a prefix of the sequence and a few seeds and discards per engine; mid-vector moves, exhaustion followed by further use and restores across dimensions are not enumerated.",
  ["detail/qrng_base.hpp", "detail/gray_coded_qrng.hpp", "sobol.hpp", "niederreiter_base2.hpp", "faure.hpp"],
  [("position arithmetic", R+"detail/qrng_base.hpp discard"), ("Gray code seek", R+"detail/gray_coded_qrng.hpp seed")],
  [("position", "vector number and coordinate")], ["operator()", "seed", "discard", "operator==", "operator>>", "exceptions"])
prop("C16", "Quasi-random sequences keep their low-discrepancy stratification",
  "In every dimension, the coordinates produced by the Sobol engine for every aligned block of 2^k consecutive vectors (counting the zero vector that starts the sequence and is not delivered) fall exactly once into each of the 2^k equal subintervals; the base-2 Niederreiter engine does the same whenever k is a multiple of the degree of the dimension's polynomial, and the Faure engine for blocks of powers of its prime base. Coordinates of different dimensions follow the published generating polynomials, direction numbers and digit matrices, whatever way the position was reached.",
  ["inputs", "configurations"],
  "all dimensions up to the supported maximum, all block positions and sizes the word width allows",
  "Tests compare short prefixes for a few dimensions with stored tables; thousands of table entries are never used.",
  ["sobol.hpp", "detail/sobol_table.hpp", "niederreiter_base2.hpp", "detail/niederreiter_base2_table.hpp", "faure.hpp"],
  [("direction numbers", R+"sobol.hpp, niederreiter_base2.hpp resize"), ("digit matrices", R+"faure.hpp")], (), ["operator()"])
prop("C17", "The random device delivers the source's bytes exactly and never invents values",
  "Each value the random device returns consists of exactly the next bytes of its source in order, also when the source delivers them in several pieces; end of file, a failed open or a failed read is reported by an exception and never by a value. Construction, bulk generation and destruction open, read and close the source exactly once each as needed.",
  ["fault_sequences", "inputs", "schedules"],
  "all patterns of short reads, errors and end of file at every byte position, all numbers of values drawn",
  "Tests read the real device, which never returns short reads, errors or end of file.",
  ["random_device.hpp", "src/random_device.cpp"],
  [("read loop", "src/random_device.cpp impl::next")], [("stream offset", "bytes of the source consumed")], ["operator()", "generate", "exceptions"])
prop("C18", "Generator wrappers draw from exactly the engine they were given",
  "A variate generator or shuffle helper holding an engine by reference or pointer advances that engine and shows every change made to it elsewhere, while one holding it by value works on its own copy and leaves the original untouched; in both cases each value equals what the wrapped distribution yields for that engine's state. Accessors return the wrapped engine and distribution, and copies of a value-holding wrapper are independent.",
  ["histories", "configurations"],
  "all interleavings of draws through wrappers, copies of wrappers and the engine itself, for value, reference and pointer holding",
  "Tests draw a few values from one wrapper at a time.",
  ["variate_generator.hpp", "random_number_generator.hpp", "detail/ptr_helper.hpp", "uniform_01.hpp"],
  [("ownership", R+"detail/ptr_helper.hpp")], [("engine position", "of each engine object involved")], ["operator()", "engine()", "distribution()"])
prop("C19", "Distribution values always lie in the documented support",
  "For every distribution, every valid parameter set and every sequence of engine values, including constant extreme ones, a returned value lies between the distribution's min() and max() and in its documented support, is never NaN, and the draw terminates as soon as the engine supplies ordinary values.",
  ["inputs", "configurations"],
  "all engine value sequences including runs of extreme values, all valid parameters including boundary values",
  "Pseudo-random test engines never supply the extreme values at which a logarithm of zero, a table overrun or a rounding to the excluded bound happens.",
  ["exponential_distribution.hpp", "gamma_distribution.hpp", "beta_distribution.hpp", "triangle_distribution.hpp", "weibull_distribution.hpp", "extreme_value_distribution.hpp", "cauchy_distribution.hpp", "laplace_distribution.hpp", "geometric_distribution.hpp", "binomial_distribution.hpp", "poisson_distribution.hpp", "negative_binomial_distribution.hpp", "normal_distribution.hpp", "piecewise_linear_distribution.hpp", "piecewise_constant_distribution.hpp"],
  [("support", "min()/max() of every distribution")], (), ["operator()", "min", "max"])
prop("C20", "Non-uniform distributions follow their documented probability law",
  "Given independent uniform engine values, each non-uniform distribution produces values whose distribution function is the documented one to within the accuracy of the result type and the resolution of the engine, for every valid parameter set.",
  ["inputs", "configurations"],
  "all valid parameters of all continuous and discrete families, every branch of their algorithms, engines of several ranges and result types",
  "The tests apply chi-square and Kolmogorov-Smirnov statistics to 100000 draws for a few random parameters, which lets errors of some 0.4 percent of the mass pass.",
  ["normal_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "beta_distribution.hpp", "poisson_distribution.hpp", "binomial_distribution.hpp", "cauchy_distribution.hpp", "weibull_distribution.hpp"],
  [("transformations", "operator() of each distribution")], (), ["operator()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
