#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in Python so long strings stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="sunscreen_tfhe/src/"
RNG="cfg(spf_verif): seedable random source in sunscreen_tfhe::rand so that a case is a pure function of its input"
PRIV="cfg(spf_verif): public re-export of the private scratch and vector-kernel modules"

prop("T01","Torus encoding survives small errors and torus arithmetic is exact",
"Encoding a message at any supported plaintext width and decoding it returns the message even after any perturbation smaller than half an encoding step, for both word sizes. Torus addition, subtraction, negation, scalar multiplication and distance behave as arithmetic modulo the word size, and switching to a smaller word keeps exactly the most significant bits. Rounded integer division returns a nearest integer for every dividend and divisor.",
["inputs"],"every word, every plaintext width the type can hold, every perturbation below half a step, every pair of operands",
"Unit tests encode a few constants at 1-4 bits; rounding ties, wrap-around at the top of the torus and wide plaintexts are not sampled.",
[T+"math/torus.rs",T+"math/basic.rs"],
[("encode: shift into the top bits","sunscreen_tfhe/src/math/torus.rs encode"),("decode: round half up then mask","sunscreen_tfhe/src/math/torus.rs decode"),("switch_modulus_smaller","sunscreen_tfhe/src/math/torus.rs switch_modulus_smaller"),("rounding division","sunscreen_tfhe/src/math/basic.rs div_rounded")])

prop("T02","Radix decomposition digits are small, signed and recompose to the rounded value",
"For every torus value, base and digit count that fit the word, decomposition yields exactly the requested number of digits, each a balanced signed digit, and recombining them gives the input rounded to the nearest representable multiple of the smallest gadget factor. Decomposing a polynomial gives the digits of each of its coefficients, for every polynomial length.",
["inputs","configurations"],"every torus word, every (base, count) pair fitting the word, every polynomial length",
"Tests check two parameter sets on random words; carries that ripple through every digit, ties and extreme bases never occur.",
[T+"math/radix.rs",T+"math/simd/"],
[("scalar digit iterator with carry","sunscreen_tfhe/src/math/radix.rs ScalarRadixIterator"),("polynomial digit iterator","sunscreen_tfhe/src/math/radix.rs PolynomialRadixIterator"),("vectorised next digit","sunscreen_tfhe/src/math/simd/x86_64/avx2.rs vector_next_decomp")])

prop("T03","Polynomial operations compute exactly in the negacyclic ring",
"For every pair of polynomials of every supported power-of-two degree, add, subtract, negate, scalar multiply, multiply-accumulate, monomial rotation and index-power substitution agree coefficient by coefficient with schoolbook arithmetic modulo X^N+1 and the word size. The Fourier round trip is the identity and Fourier-domain products agree with schoolbook products up to the stated floating-point error, and exactly when the operands are small enough to be exactly representable.",
["inputs","configurations"],"every degree, every coefficient vector (including maximal magnitudes and sparse/monomial ones), every rotation amount and index power",
"Tests multiply a handful of small random polynomials at one or two degrees; wrap-around signs at particular exponents and large coefficients are not exercised.",
[T+"math/polynomial.rs",T+"entities/polynomial.rs",T+"entities/polynomial_fft.rs",T+"math/fft/negacyclic/mod.rs",T+"math/fft/cyclic/mod.rs",T+"ops/polynomial/mod.rs",T+"ops/bootstrapping/blind_rotation.rs"],
[("negacyclic wrap in multiply-accumulate","sunscreen_tfhe/src/math/polynomial.rs polynomial_external_mad"),("monomial rotation","sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs rotate_glwe_monomial_negacyclic"),("X -> X^k substitution","sunscreen_tfhe/src/ops/polynomial/mod.rs polynomial_pow_k"),("twisted FFT","sunscreen_tfhe/src/math/fft/negacyclic/mod.rs")])

prop("T04","Vectorised kernels agree with their scalar definitions on every input",
"Every vectorised kernel (add, subtract, digit extraction, rounding shift, scalar multiply-add, modular reduction of floating-point values, complex multiply-add, FFT twist/untwist) returns what the scalar definition returns, for every input and every vector length it accepts, and touches nothing outside the given slices.",
["inputs","configurations"],"every slice length the kernel accepts (including short and non-multiple-of-lane lengths), every lane value including extremes, every shift/base",
"Tests compare the kernels on a few fixed lengths and uniformly random data; tails, ties and values near the modulus are rarely hit.",
[T+"math/simd/mod.rs",T+"math/simd/scalar.rs",T+"math/simd/x86_64/mod.rs",T+"math/simd/x86_64/avx2.rs",T+"math/simd/x86_64/avx512.rs"],
[("runtime dispatch","sunscreen_tfhe/src/math/simd/x86_64/mod.rs"),("AVX2 kernels","sunscreen_tfhe/src/math/simd/x86_64/avx2.rs"),("AVX-512 kernels","sunscreen_tfhe/src/math/simd/x86_64/avx512.rs")],hook=PRIV)

prop("T05","Secret-key and trivial encryption round-trip for every ciphertext kind",
"For every parameter set, key and message in range, decrypting a fresh secret-key or trivial encryption under the right key returns the message, for scalar, polynomial, gadget-vector and gadget-matrix ciphertexts, and this does not depend on what the destination buffer held before. A gadget ciphertext holds the message scaled by the correct factor at every level and row.",
["inputs","configurations","histories"],"every message, key (binary or uniform), dimension, degree, gadget base/count and prior contents of the output buffer",
"Tests encrypt a few random messages into freshly zeroed buffers under one parameter set.",
[T+"ops/encryption/lwe_encryption.rs",T+"ops/encryption/glwe_encryption.rs",T+"ops/encryption/glev_encryption.rs",T+"ops/encryption/ggsw_encryption.rs",T+"entities/lwe_secret_key.rs",T+"entities/glwe_secret_key.rs",T+"high_level.rs"],
[("mask/body computation","sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs encrypt_glwe_ciphertext_secret_generic"),("gadget scaling","sunscreen_tfhe/src/ops/encryption/glev_encryption.rs scale_msg_by_gadget_factor"),("gadget-matrix rows","sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs"),("key application and decryption","sunscreen_tfhe/src/entities/lwe_secret_key.rs")],hook=RNG)

prop("T06","Public-key encryption decrypts to the message under the matching secret key",
"For every parameter set, key pair and message in range, public-key encryption (scalar, ring and ring gadget-vector) decrypts under the matching secret key to the message, and the randomness reported alongside a ciphertext reproduces that ciphertext. It does not depend on prior contents of the output buffer and has no side output.",
["inputs","configurations"],"every message, key pair, parameter set and prior buffer contents",
"Tests encrypt one or two messages under one parameter set.",
[T+"entities/lwe_public_key.rs",T+"ops/encryption/rlwe_encryption.rs",T+"ops/encryption/glev_encryption.rs",T+"high_level.rs"],
[("LWE public key subset sum","sunscreen_tfhe/src/entities/lwe_public_key.rs"),("RLWE public encryption","sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs rlwe_encrypt_public"),("RLEV encryption","sunscreen_tfhe/src/ops/encryption/glev_encryption.rs encrypt_rlev_ciphertext")],hook=RNG)

prop("T07","Keys, masks and noise follow their specified distributions",
"Every fresh encryption, key-switching, bootstrapping and public key element has an unpredictable full-range mask and an error with the standard deviation its parameters specify and mean zero, so encrypting the same message twice gives different ciphertexts. Binary keys are balanced bits and uniform keys and masks use the whole word.",
["inputs","configurations"],"every parameter set (word size, dimension, noise width) and every kind of ciphertext and key; a statistical statement over many samples",
"Tests look at the moments of one sampler only and never at ciphertexts or keys, so dropping or mis-scaling noise in one place passes everything (decryption only gets easier).",
[T+"rand.rs",T+"ops/encryption/",T+"entities/lwe_secret_key.rs",T+"entities/glwe_secret_key.rs",T+"entities/lwe_public_key.rs",T+"ops/keyswitch/",T+"ops/bootstrapping/"],
[("Gaussian sampler","sunscreen_tfhe/src/rand.rs normal_torus"),("uniform and binary samplers","sunscreen_tfhe/src/rand.rs"),("sampling in each encryption","sunscreen_tfhe/src/ops/encryption/")],hook=RNG)

prop("T08","Linear ciphertext operations act linearly on the plaintexts",
"Adding, subtracting, negating, scaling by integers or plaintext polynomials, and modulus-switching ciphertexts of any kind yields a ciphertext of the corresponding result on the plaintexts, for every message, key and number of chained operations within the noise budget. In-place, accumulating and operator forms agree with each other.",
["inputs","histories","configurations"],"every operand, scalar, polynomial and sequence of linear operations within the noise budget",
"Tests apply each operation once to random messages under one parameter set.",
[T+"ops/ciphertext/",T+"ops/homomorphisms/lwe.rs",T+"entities/lwe_ciphertext.rs",T+"entities/glwe_ciphertext.rs"],
[("GLWE linear ops","sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs"),("LWE linear ops","sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs"),("modulus switch","sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs lwe_ciphertext_modulus_switch")],hook=RNG)

prop("T09","Rotation, coefficient extraction and trace move exactly the right data",
"Rotating a ring ciphertext by any amount multiplies its plaintext by the matching monomial; extracting any coefficient gives a scalar ciphertext of exactly that coefficient under the flattened key. The trace of a ring ciphertext encrypts the degree times its constant coefficient and nothing else.",
["inputs","configurations"],"every message polynomial, rotation amount in both directions, coefficient index, ring size and degree",
"Tests use one degree and a few indices.",
[T+"ops/ciphertext/glwe_ciphertext_ops.rs",T+"ops/automorphisms/mod.rs",T+"ops/bootstrapping/blind_rotation.rs",T+"entities/automorphism_key.rs",T+"entities/automorphism_key_fft.rs",T+"entities/glwe_secret_key.rs"],
[("sample extraction","sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs sample_extract"),("trace","sunscreen_tfhe/src/ops/automorphisms/mod.rs trace"),("flattened key","sunscreen_tfhe/src/entities/glwe_secret_key.rs to_lwe_secret_key")],hook=RNG)

prop("T10","Key switching preserves the plaintext and applies exactly the requested function",
"Switching a scalar or ring ciphertext from any key to any other key, across differing parameter sets, decrypts under the new key to the same message. Functional key switching yields the requested linear function of the inputs placed in the requested coefficients, for any number of inputs and whatever the output buffer held before.",
["inputs","configurations"],"every message, pair of keys and parameter sets, gadget parameters, number of inputs and function",
"Tests use one pair of parameter sets and fresh buffers.",
[T+"ops/keyswitch/",T+"ops/fft_ops.rs",T+"entities/lwe_keyswitch_key.rs",T+"entities/glwe_keyswitch_key.rs",T+"entities/private_functional_keyswitch_key.rs",T+"entities/public_functional_keyswitch_key.rs"],
[("LWE key switch","sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch.rs"),("GLWE key switch","sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs and ops/fft_ops.rs"),("private functional key switch","sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs"),("public functional key switch","sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs")],hook=RNG)

prop("T11","External product and multiplexing select and multiply exactly",
"Multiplying a ring ciphertext by a gadget-matrix encryption of any small message gives an encryption of the product, and multiplexing two ring or gadget-vector ciphertexts by an encrypted bit returns the second operand's plaintext when the bit is one and the first's when it is zero, at every level. The coefficient-domain and Fourier-domain forms agree and long chains of selections keep selecting correctly within the noise budget.",
["inputs","configurations","histories"],"every pair of operands, select bit or message, gadget parameters, ring size, and chain of selections",
"Tests select between two fixed or random ciphertexts once, under one parameter set.",
[T+"ops/fft_ops.rs",T+"ops/ciphertext/glwe_ciphertext_ops.rs",T+"ops/ciphertext/glev_ciphertext_ops.rs",T+"entities/ggsw_ciphertext.rs",T+"entities/ggsw_ciphertext_fft.rs"],
[("external product","sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs glwe_ggsw_mad"),("cmux / glev cmux","sunscreen_tfhe/src/ops/fft_ops.rs")],hook=RNG)

prop("T12","Programmable bootstrapping evaluates the programmed table on every input",
"For every message in the unpadded plaintext space, table, plaintext width and parameter set, bootstrapping returns an encryption of the table entry for that message under the output key, with fresh noise independent of the input noise. The same holds for two-input tables on every pair of operands and for several tables evaluated in one pass. A table holds exactly the values of its functions, and one with a value that does not fit, or with more entries than the ring can hold, is refused.",
["inputs","configurations"],"every message (including those at the ends of the range and at maximal tolerated input noise), table, plaintext width, and parameter set",
"Tests use identity-like tables and a few messages; edges of the message range, asymmetric tables and noisy inputs are not sampled.",
[T+"ops/bootstrapping/programmable_bootstrapping.rs",T+"ops/bootstrapping/blind_rotation.rs",T+"entities/univariate_lookup_table.rs",T+"entities/bivariate_lookup_table.rs",T+"entities/bootstrap_key.rs",T+"entities/blind_rotation_shift.rs"],
[("table layout with half-step rotation","sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs generate_lut"),("bivariate packing","sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs generate_bivariate_lut"),("blind rotation","sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs blind_rotation"),("multi-table evaluation","sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs generalized_programmable_bootstrap")],hook=RNG)

prop("T13","Circuit bootstrapping and scheme switching yield usable selectors",
"Circuit bootstrapping a scalar encryption of a bit yields a gadget-matrix encryption of that bit under the ring key, by every provided route, and scheme switching turns a gadget-vector encryption of any small message into a gadget-matrix encryption of the same message. The result works as a selector: every gadget entry carries the right scaled message within the expected noise.",
["inputs","configurations"],"both bits, every key, and a range of parameter sets and gadget parameters; both construction routes",
"Tests run each route on one or two random bits under one parameter set and look at one entry.",
[T+"ops/bootstrapping/circuit_bootstrapping.rs",T+"ops/bootstrapping/scheme_switch.rs",T+"ops/fft_ops.rs",T+"entities/scheme_switch_key.rs",T+"entities/scheme_switch_key_fft.rs",T+"entities/circuit_bootstrapping_private_keyswitch_keys.rs"],
[("circuit bootstrap via key switching","sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs circuit_bootstrap_via_pfks"),("circuit bootstrap via trace","sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs circuit_bootstrap_via_trace_and_scheme_switch"),("scheme switch","sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs and ops/fft_ops.rs")],hook=RNG)

prop("T14","Structured views cover a buffer exactly once and survive serialization",
"For every kind of key and ciphertext and every parameter set, the sub-objects reachable through a view (rows, levels, polynomials, mask, body, keys) partition the underlying buffer in order, without overlap or omission, whether traversed forwards, backwards, mixed, mutably or in parallel, and iterator lengths are exact. Serializing and deserializing any object gives an equal object of the same shape, and Fourier forms convert back to the original.",
["inputs","configurations","histories"],"every entity kind, every dimension/degree/count combination, every interleaving of front/back iteration, arbitrary contents",
"Tests touch a few accessors on fixed parameter sets; nothing checks that views tile the buffer for other shapes.",
[T+"dst.rs",T+"macros.rs",T+"entities/"],
[("overlay types and strided iterators","sunscreen_tfhe/src/dst.rs"),("per-entity split arithmetic","sunscreen_tfhe/src/entities/"),("serde on owned types","sunscreen_tfhe/src/dst.rs")])

prop("T15","Scratch buffers never alias, overlap or change under their owner",
"For any sequence of scratch allocations and releases of any sizes and types, in any release order and with any nesting, live buffers are disjoint, correctly sized and aligned, keep the contents their owner wrote, and are usable independently on every thread.",
["histories"],"every sequence of allocate/write/release operations with arbitrary sizes, element types and release orders",
"Tests cover stack-like allocation of a few buffers; out-of-order release and reuse with different sizes are barely touched.",
[T+"scratch.rs"],
[("free-list stack of allocations","sunscreen_tfhe/src/scratch.rs Scratch::allocate"),("release on drop and trimming","sunscreen_tfhe/src/scratch.rs Drop for ScratchBuffer")],
[("stack","stack of allocations with requested/free state","sunscreen_tfhe/src/scratch.rs Scratch.stack")],hook=PRIV)

prop("T16","Mismatched shapes and invalid parameters are rejected, never computed on",
"An operation given a key, ciphertext, polynomial or buffer whose length disagrees with the parameters passed alongside it (or, where none are passed, with the other operand), or parameters outside the documented domain, refuses (panics or returns an error) instead of returning a result. Valid shapes are never refused.",
["inputs","configurations"],"every operation, every operand position, every dimension/degree/count mismatch",
"Tests always pass consistent shapes; validation code on the error path is practically unexecuted.",
[T+"params.rs",T+"dst.rs",T+"entities/",T+"ops/"],
[("parameter validation","sunscreen_tfhe/src/params.rs assert_valid"),("per-entity shape assertions","sunscreen_tfhe/src/entities/ assert_is_valid / assert_valid")])

prop("M01","Modular integer arithmetic is exact for every modulus and operand",
"For every supported modulus and limb count, addition, subtraction, negation, multiplication, powers, inverses, conversions and comparisons in the ring agree with exact big-integer arithmetic reduced modulo the modulus, and results are always canonical. Wrapping integers behave as arithmetic modulo the word size.",
["inputs","configurations"],"every operand pair in several moduli of one to several limbs (including values next to 0, the modulus and word boundaries)",
"Tests check a few constants in one or two moduli.",
["sunscreen_math/src/ring/mod.rs","sunscreen_math/src/ring/barrett.rs","sunscreen_math/src/field/mod.rs","sunscreen_math_macros/src/"],
[("Barrett reduction","sunscreen_math/src/ring/barrett.rs"),("constant derivation","sunscreen_math_macros/src/lib.rs BarrettConfig derive"),("Zq operators","sunscreen_math/src/ring/mod.rs")])

prop("M02","Ring polynomials satisfy schoolbook algebra, including division and equality",
"Over any ring, polynomial addition, subtraction, negation, multiplication, scalar multiplication and evaluation agree with schoolbook definitions for every pair of lengths; division returns quotient and remainder with dividend = quotient*divisor + remainder and a smaller remainder degree. Equality holds exactly when all coefficients agree up to trailing zeros, and degree ignores trailing zeros.",
["inputs"],"every pair of coefficient vectors of differing lengths, with and without trailing zeros",
"Tests use a few hand-picked polynomials.",
["sunscreen_math/src/poly/mod.rs"],
[("operators","sunscreen_math/src/poly/mod.rs"),("division","sunscreen_math/src/poly/mod.rs vartime_div_rem_restricted_rhs"),("equality","sunscreen_math/src/poly/mod.rs PartialEq")])

prop("M03","Combination indexing, statistics, geometry and security estimates are consistent",
"Combinations are enumerated in lexicographic order with index and unranking mutually inverse for all sizes, running mean and variance match direct computation, and half-space and polytope membership match their inequalities. The security estimate and its inverse agree within their stated error, are monotone in noise and dimension over the supported region, and every query outside the region is refused.",
["inputs"],"every (n,t), index and combination; every sample sequence; every point; every (dimension, level) and (dimension, noise) in and around the supported region",
"Tests check a few points; monotonicity and mutual inversion over the whole region are not sampled.",
["sunscreen_math/src/combination.rs","sunscreen_math/src/stats.rs","sunscreen_math/src/geometry.rs","sunscreen_math/src/security.rs"],
[("combinatorial number system","sunscreen_math/src/combination.rs"),("polynomial fits with valid region","sunscreen_math/src/security.rs"),("Welford update","sunscreen_math/src/stats.rs")])

prop("C01","The spin lock excludes other holders and publishes writes on every schedule",
"On every schedule of any number of threads, at most one thread holds the lock, everything a holder wrote is visible to the next holder, and a released lock can be acquired again. A non-blocking attempt fails exactly when the lock is held and never blocks, and a lock deliberately kept locked stays locked.",
["schedules","programs"],"every program of lock/try-lock/release/keep-locked operations on several threads and every interleaving of their atomic steps, including weak-memory effects of the chosen orderings",
"Tests run two threads with sleeps on one machine; the failing interleavings and weak orderings are not reproducible that way.",
["parasol_concurrency/src/lib.rs"],
[("acquire/release compare-exchange","parasol_concurrency/src/lib.rs Spinlock::lock"),("release store on drop","parasol_concurrency/src/lib.rs SpinlockHandle::drop")],
[("lock","held flag","parasol_concurrency/src/lib.rs Spinlock.lock")],
hook="cfg(spf_verif): atomics replaced by instrumented ones so the harness owns the schedule")

prop("C02","The shared cell never grants a writer alongside any other borrower",
"On every schedule, a mutable borrow is granted only when nothing else is borrowed and shared borrows only when no mutable borrow is live; conflicting requests panic without changing the cell's state, and releasing borrows restores availability. Writes made under a mutable borrow are visible to every later borrower.",
["schedules","programs","histories"],"every program of borrow, mutable borrow, failed borrow and release operations over several threads and every interleaving, including weak-memory effects",
"Tests check single-threaded conflicts once each and never look at the cell after a refused borrow.",
["parasol_concurrency/src/lib.rs"],
[("counted borrow state","parasol_concurrency/src/lib.rs AtomicRefCell::borrow / borrow_mut"),("release on drop","parasol_concurrency/src/lib.rs Ref::drop / RefMut::drop")],
[("state","0 = mutably borrowed, n = n-1 shared borrows","parasol_concurrency/src/lib.rs AtomicRefCell.state")],
hook="cfg(spf_verif): atomics replaced by instrumented ones so the harness owns the schedule")

prop("X01","Every generated multiplexer circuit computes its integer function for any width",
"For every supported operand width (equal or not) and every input, the generated adder, subtractor, negator, multiplier, comparison, equality, shift, rotate, AND and OR circuits output exactly the bits of the corresponding integer operation, including carries, borrows, overshifts and sign handling. Circuits loaded from stored tables compute the same function as ones generated on the fly.",
["inputs","configurations"],"every width or width pair, carry/borrow option, shift mode and direction, and every operand",
"Tests enumerate small widths for some circuits and sample others at one or two widths.",
["mux_circuits/src/add.rs","mux_circuits/src/sub.rs","mux_circuits/src/mul.rs","mux_circuits/src/comparisons.rs","mux_circuits/src/bitshift.rs","mux_circuits/src/neg.rs","mux_circuits/src/and.rs","mux_circuits/src/or.rs","mux_circuits/src/util.rs"],
[("BDD construction per function","mux_circuits/src/"),("multiplier table and divide-and-conquer reduction","mux_circuits/src/mul.rs")],
hook="cfg(spf_verif): the 32x32 multiplier table, missing from the repository, is not embedded")

prop("X02","Circuit optimisation, input remapping and storage preserve the computed function",
"For every circuit and every input, optimising, deduplicating or remapping inputs, converting from a decision diagram, and serializing then deserializing leave the output for that input unchanged. The optimiser never increases the gate count and is idempotent.",
["programs","inputs"],"every boolean circuit over a bounded number of inputs (arbitrary decision diagrams and arbitrary multiplexer graphs) and every assignment",
"Tests optimise a few hand-written graphs.",
["mux_circuits/src/opt.rs","mux_circuits/src/lib.rs","mux_circuits/src/graph_ops.rs"],
[("graph rewriting","mux_circuits/src/opt.rs"),("input remapping","mux_circuits/src/lib.rs remap_inputs"),("BDD conversion","mux_circuits/src/lib.rs From<&[Bdd]>")])

prop("R01","Encrypted integer programs compute what the plaintext program computes",
"For every program built from the integer API (arithmetic, logic, comparisons, selection, resizing, packing, conversion between ciphertext kinds, constants) over any widths and values, signed or unsigned, running it on encrypted inputs and decrypting gives what the same program gives on plaintext integers with wrapping semantics. Building further operations never changes the meaning of values already obtained.",
["programs","inputs"],"every acyclic program over the public integer operations, every width and operand value",
"Tests run single operations at one or two widths; no test composes several operations or mixes widths.",
["parasol_runtime/src/fluent/","parasol_runtime/src/circuits/","parasol_runtime/src/fhe_circuit.rs"],
[("fluent graph construction","parasol_runtime/src/fluent/"),("mux circuit insertion","parasol_runtime/src/fhe_circuit.rs insert_mux_circuit"),("divide-and-conquer multiplication","parasol_runtime/src/circuits/mul.rs")],hook=RNG)

prop("R02","The circuit executor is right for every graph, schedule and flow limit",
"For every well-formed operation graph, executing it on any number of threads and any flow-control limit terminates and gives each output the value of evaluating the graph in dependency order, evaluating every operation exactly once. Malformed graphs (wrong operand kinds, roles or counts, out-of-range extraction, retire operations) yield an error; cyclic graphs may give any answer. Neither hangs, panics or leaks, and both leave the executor usable.",
["programs","schedules","fault_sequences"],"every operation DAG including wide, deep and multi-output ones; thread counts and flow limits; malformed variants; back-to-back and asynchronous submissions",
"Tests run a few fixed graphs under the default pool and limit.",
["parasol_runtime/src/circuit_processor/","parasol_runtime/src/fhe_circuit.rs"],
[("dependency counting","parasol_runtime/src/circuit_processor/task.rs"),("flow control","parasol_runtime/src/circuit_processor/mod.rs"),("completion handling","parasol_runtime/src/circuit_processor/completion_handler.rs"),("graph validation","parasol_runtime/src/fhe_circuit.rs")],
[("deps counters","outstanding inputs per task","parasol_runtime/src/circuit_processor/task.rs")])

prop("R03","Stored objects round-trip and malformed bytes are rejected without harm",
"Every key, ciphertext, integer and parameter object the runtime can store deserializes to an equal object, and its reported size is its stored size. Any other byte string - truncated, corrupted in lengths, oversized, or made for other parameters - is rejected with an error, without panicking, over-allocating, or yielding an object whose shape disagrees with the parameters. Bytes after a complete object are ignored.",
["inputs","configurations"],"every storable object kind, every truncation point, every length-field corruption, arbitrary byte strings",
"Tests round-trip a few objects and check one corrupt case.",
["parasol_runtime/src/safe_bincode.rs","parasol_runtime/src/crypto/","parasol_runtime/src/fluent/"],
[("size-limited decode and validity check","parasol_runtime/src/safe_bincode.rs"),("size and shape checks per type","parasol_runtime/src/crypto/ciphertext.rs, keys.rs, fluent/*.rs")])

prop("R04","Every encryption route and ciphertext conversion preserves bits and integers",
"For every value, encrypting by any public, secret or trivial route into any ciphertext kind and decrypting returns the value, and each conversion between kinds (key switch, extraction, circuit bootstrap, scheme switch, packing and unpacking, re-encryption) preserves it bit for bit. Multi-bit values keep their bit order, width and sign, and values outside the width are refused.",
["inputs","configurations"],"every value of every width and signedness, every ciphertext kind, every conversion chain",
"Tests encrypt a few values per type.",
["parasol_runtime/src/crypto/encryption.rs","parasol_runtime/src/crypto/evaluation.rs","parasol_runtime/src/crypto/recryption.rs","parasol_runtime/src/crypto/keys.rs","parasol_runtime/src/fluent/generic_int.rs","parasol_runtime/src/fluent/int.rs","parasol_runtime/src/fluent/uint.rs"],
[("bit encryption","parasol_runtime/src/crypto/encryption.rs"),("conversions","parasol_runtime/src/crypto/evaluation.rs"),("integer bit order and bounds","parasol_runtime/src/fluent/uint.rs, int.rs")],hook=RNG)

prop("U01","Machine instructions compute the same on encrypted and plaintext operands",
"For every instruction, operand width, operand value and mix of plaintext and encrypted operands, the destination register receives the value, width and encryptedness the instruction set defines, so that an encrypted run decrypts to what the plaintext run computes. Unsupported widths or mixes give an error, never a wrong value or a crash.",
["programs","inputs"],"every arithmetic, logic, shift, comparison, cast, select, move and branch instruction; every width from 1 to 128; plaintext, encrypted and mixed operands; straight-line and looping programs",
"Tests check each instruction on one or two operand values, mostly at one width.",
["parasol_cpu/src/proc/ops/","parasol_cpu/src/proc/fhe_processor.rs","parasol_cpu/src/tomasulo/registers.rs"],
[("per-instruction semantics","parasol_cpu/src/proc/ops/"),("register renaming","parasol_cpu/src/tomasulo/registers.rs")],hook=RNG)

prop("U02","Memory behaves as a bounds-checked byte store with typed access",
"For every history of allocations, loads, stores and typed reads and writes at any address and size, each read returns what was last written to those bytes, or zero where nothing was, allocations are mapped, aligned and disjoint, and any access to unmapped, misaligned or wrapping ranges reports the documented error without changing memory. Plaintext and encrypted bytes keep their kind.",
["histories","inputs"],"every sequence of allocate/read/write operations with arbitrary addresses, sizes, alignments and types, including page and address-space boundaries",
"Tests allocate a handful of buffers and access them at fixed offsets.",
["parasol_cpu/src/memory/mod.rs"],
[("page table","parasol_cpu/src/memory/mod.rs"),("range and alignment checks","parasol_cpu/src/memory/mod.rs")],
[("pages","mapped pages and their permissions","parasol_cpu/src/memory/mod.rs Memory")])

prop("U03","Instruction encoding and decoding are mutually inverse and reject garbage",
"Every instruction with in-range operands encodes to a word that decodes to the same instruction with the same operands, distinct instructions encode differently, and every word that is not an encoding is rejected with an error rather than a crash or a different instruction. Programs stored in memory execute the instructions that were stored.",
["inputs","programs"],"every opcode and operand combination; every 64-bit word",
"Tests encode a few instructions.",
["parasol_cpu/src/proc/assembly.rs","parasol_cpu_macros/src/"],
[("opcode table","parasol_cpu/src/proc/assembly.rs define_op"),("encode/decode macro","parasol_cpu/src/proc/assembly.rs")])

prop("U04","Calls pass every argument and return value as the calling convention defines",
"For every signature of plaintext and encrypted arguments of any supported types, sizes, counts and order, the called program reads each argument at its naturally aligned stack slot with exactly the bytes passed, and the caller receives exactly the bytes of the declared return value. A call leaves the memory ready for further calls.",
["inputs","programs","histories"],"every argument list and return type, encrypted or plaintext, and every sequence of calls on one memory",
"Tests pass a few fixed signatures.",
["parasol_cpu/src/proc/args.rs","parasol_cpu/src/memory/mod.rs","parasol_cpu/src/proc/fhe_processor.rs"],
[("argument layout","parasol_cpu/src/proc/args.rs"),("stack placement","parasol_cpu/src/memory/mod.rs try_push_arg_onto_stack")],hook=RNG)

prop("U05","Faulting or runaway programs end with the right error and harm nothing",
"Every program that performs an illegal action (bad address, misalignment, encrypted branch condition or address, invalid instruction, running off the code, wrong operand kinds) ends with the matching error instead of hanging, panicking or continuing, and the processor can run the next program correctly. A program whose total work exceeds its gas limit is stopped and one that stays within it is not, with the reported gas equal to the work done.",
["programs","fault_sequences"],"every kind of illegal instruction at every position of a program, with earlier work still in flight; every gas limit",
"Tests trigger a few faults in one-instruction programs and never run a loop against a gas limit.",
["parasol_cpu/src/proc/fhe_processor.rs","parasol_cpu/src/proc/mod.rs","parasol_cpu/src/memory/mod.rs","parasol_cpu/src/error.rs"],
[("fault propagation","parasol_cpu/src/proc/fhe_processor.rs"),("gas accounting","parasol_cpu/src/proc/fhe_processor.rs run_program")])

prop("U06","Out-of-order execution is indistinguishable from sequential execution",
"For every program with register and memory dependences of any kind (read-after-write, write-after-read, write-after-write, overlapping loads and stores, branches on results) and every timing of encrypted work, final registers, memory and return values equal those of executing instructions one at a time in program order.",
["programs","schedules"],"every straight-line or looping program with reused registers and aliasing memory accesses, mixing slow encrypted and fast plaintext instructions; thread counts",
"Tests have almost no instruction sequences with hazards and run on one timing.",
["parasol_cpu/src/proc/fhe_processor.rs","parasol_cpu/src/tomasulo/","parasol_cpu/src/memory/mod.rs"],
[("register renaming","parasol_cpu/src/tomasulo/registers.rs"),("scoreboard","parasol_cpu/src/tomasulo/scoreboard.rs"),("memory dependences","parasol_cpu/src/proc/fhe_processor.rs try_append_memory_dependencies")],hook=RNG)

prop("U07","Program images are loaded exactly as their headers say or refused",
"For every executable image, each loadable segment's bytes appear at its address and the rest of it is zero, exactly the pages of segments and stack are mapped, every function symbol (and nothing else) is found under its name, and calling it runs the stored code. Images of the wrong kind, class or version, without the needed tables, or with damaged or truncated contents are refused with an error or loaded as their headers say, never with a crash or different contents.",
["inputs","fault_sequences"],"every image of the supported format: any number, position, size and order of segments and symbols, any stack configuration; every corruption and truncation of such a file",
"Tests load a few stored binaries, all well formed.",
["parasol_cpu/src/memory/mod.rs","parasol_cpu/src/runner.rs","parasol_cpu/src/error.rs"],
[("segment loading","parasol_cpu/src/memory/mod.rs new_from_elf_with_config"),("symbol table","parasol_cpu/src/memory/mod.rs get_function_entry")])

prop("U08","Compiled programs compute their source on any mix of encrypted inputs",
"Every compiled program in the repository, called with any inputs of which any are encrypted, gives the results its source defines, call after call on the same memory and processor, and plaintext inputs give plaintext results. Packing and unpacking integers on the same processor keeps their values, also after a failed run, and the one-call runner returns the program's result or names the missing function.",
["inputs","programs","histories"],"every stored program, every input value for which its source is defined, every subset of encrypted inputs, repeated calls; every packed width and signedness",
"Tests run each program once on one all-encrypted input.",
["parasol_cpu/src/proc/mod.rs","parasol_cpu/src/proc/fhe_processor.rs","parasol_cpu/src/proc/ops/","parasol_cpu/src/proc/args.rs","parasol_cpu/src/runner.rs"],
[("program execution","parasol_cpu/src/proc/mod.rs FheComputer"),("packing","parasol_cpu/src/proc/mod.rs pack_int, unpack_int"),("runner","parasol_cpu/src/runner.rs")],hook=RNG)

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        if len(p["title"])>80: print("LONG",p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
