# c(id, technique, level_note) for the remaining properties
c("T05","proptest-generated encryptions judged by independent schoolbook decryption","Phase of every entry of every generated ciphertext equals the message up to 12 sigma (exactly, without noise). Search, not proof.")
c("T06","proptest-generated public-key encryptions judged by independent decryption","As T05, plus a check that library calls write nothing to the process's standard streams.")
c("T07","statistical tests over generated parameter sets","Means, variances and tail counts at thresholds no honest sampler reaches; deterministic seeds for the samples, real entropy for the freshness sub-check. Does not certify the generator's cryptographic quality.")
FHE="proptest-generated ciphertexts and operation sequences judged by independent schoolbook decryption"
c("T08",FHE+" against a plaintext model","Exact phases after every operation of generated sequences. Search, not proof.")
c("T09",FHE,"Rotation and extraction exact; blind rotation and trace within a derived worst-case error bound. Search, not proof.")
c("T10",FHE,"Phases within a derived worst-case error bound, counted only where the bound is below 1/16 torus. Search, not proof.")
c("T11",FHE+" against a plaintext model","Phases within a derived worst-case error bound, counted only where the bound is below 1/16 torus. Search, not proof.")
c("T12",FHE+" and a reference model of the table rotation","Output phase equals the table rotated by the defined amount within a derived worst-case bound; message-level cases at every input error inside the admissible window. Search, not proof.")
c("T13",FHE,"Every row and level of the produced gadget-matrix within a derived worst-case bound, then used as a selector. Binary keys only. Search, not proof.")
c("T14","proptest-generated shapes and contents judged against a flat-buffer model","Every element reached exactly once through every structured view; serialization round trips. Search, not proof.")
SCHED="generated thread programs under generated schedules of the code's own atomic steps (token-passing scheduler), history and vector-clock oracles"
c("C01",SCHED,"Explores generated interleavings, not all; missing synchronisation found from the orderings used at each step. Stale values of relaxed loads are not simulated.")
c("C02",SCHED,"As C01.")
c("M01","proptest-generated operands over 82 generated moduli against exact big-integer arithmetic","Moduli are fixed when the harness is compiled (1 to 8 limbs, word-boundary, prime, composite and power-of-two values); operands generated. Search, not proof.")
c("M02","proptest-generated polynomials over many rings against schoolbook definitions","Search, not proof.")
c("M03","proptest-generated sizes, samples, points and queries against direct definitions","Small combination sets enumerated whole; the security region sampled densely. Search, not proof.")
c("X01","proptest-generated widths and operand vectors on every standard circuit against integer arithmetic, with an independent bit-sliced evaluator; stored tables differentially against their generator","Widths up to 127 bits (bit shifts up to 10, generated multipliers up to 8x8, stored up to 16x16 and 64x64). Search, not proof.")
c("X02","proptest-generated decision diagrams and arbitrary mux circuits, compared on every assignment before and after optimize, remap_inputs and serialization","Circuits of at most 8 variables and about 30 gates, each compared exhaustively. Search, not proof.")
c("R01","proptest-generated programs of fluent operations, circuit insertions and graph rewrites against integer arithmetic; evaluated symbolically (BDDs over all inputs), in the clear, and under encryption","Symbolic evaluation decides a generated program for every input; encrypted runs use small parameters plus a few at the default ones. Search over programs, not proof.")
c("R02","proptest-generated graphs, malformed variants and submission patterns run on 1 to 8 real threads, compared bit for bit with one-at-a-time evaluation","Thread interleavings are sampled by the operating system, not enumerated; hangs decided by quiescence. Search, not proof.")
c("R03","proptest-generated stored objects of every kind with structured and random corruptions, judged by an independent description of each stored form; allocation counted","Every kind at two parameter sets; corruption space searched at random with structure-aware edits. Search, not proof.")
c("R04","proptest-generated values, polynomials, widths, routes and conversion chains, decrypted after every step against the plaintext","Small parameters plus a few cases at the default ones. Search, not proof.")
c("U01","proptest-generated instructions, operands, widths and operand kinds run on the processor, against an independent model of the instruction set","Small parameters; encrypted operands up to 33 bits (products up to 9). Search, not proof.")
c("U02","proptest-generated operation histories over generated address spaces and program images, against a byte-map model; concurrent typed accesses on real threads","Model-based histories; thread interleavings sampled by the operating system. Search, not proof.")
c("U03","proptest-generated instructions and raw words, round trips and differential decoding against an independent description of the encoding","Words searched at random with structure-aware edits. Search, not proof.")
c("U04","proptest-generated signatures and values (plain and encrypted) passed to probe programs, against an independent model of the calling convention","Signatures are drawn from a fixed family of Rust types known at compile time. Search, not proof.")
c("U05","proptest-generated programs with an injected illegal action, gas limit or endless loop, against an independent model of the instruction set and gas table","Small parameters. Which illegal actions exist is listed in DESIGN. Search, not proof.")
c("U06","proptest-generated hazard-rich programs on the out-of-order processor against a one-at-a-time model, with generated timing of encrypted work","Small parameters; timings come from generated thread counts and operation mixes plus the operating system. Search, not proof.")
c("U07","proptest-generated executable images, loaded and run, against the headers they were written from; random and structure-aware file corruption judged by an independent header reader","Corruption searched at random; images that ask for more than 16 MiB are not tried. Search, not proof.")
c("U08","proptest-generated inputs and encryption masks for the stored compiled programs, against their sources translated by hand","The stored binaries are a fixed set of 17 functions; small parameters, the runner at the default ones. Search, not proof.")
c("T16","proptest-generated operations, shapes and parameters with at most one of them wrong; must panic or fail exactly when one is wrong","Every public operation of the list in t_shape.rs, any operand, dimension, count or parameter wrong one at a time. Only mismatches that change an object's length can be seen. Search, not proof.")
