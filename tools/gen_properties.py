#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SP = "proof_of_space/src/"
ST = "proof_of_storage/src/"

# ------------------------------------------------------------------ proof of space
prop("S01", "MiMC delay functions and hashes compute exactly their round definition",
 "For every input and every set of round constants, the cubic (322 round) and quintic (10 round) Feistel delay functions and the quintic (10 round) and septic (91 round) keyed MiMC hashes return exactly the value of their round recurrence: a Feistel round maps (L,R) to (R+(L+c_i)^e, L) and returns the final L; a hash round maps h to (h+k+c_i)^e, the first round starting from x+k without a constant and k being added once more at the end. Hashing a list chains r = r + x + H_r(x) starting from the key, in list order.",
 ["inputs"], "all field elements for each argument and round constant, all input lists",
 "The tests only call the functions on one random input and print the result or time it; no expected value is asserted.",
 [SP+"mimc/mimc_df.rs", SP+"mimc/mimc_hash.rs"],
 [("Feistel rounds", SP+"mimc/mimc_df.rs: mimc3_df, mimc5_df"), ("keyed hash rounds and list chaining", SP+"mimc/mimc_hash.rs: mimc*_hash, multi_mimc*_hash")],
 ["return value of mimc3_df, mimc5_df, mimc5_hash, mimc7_hash, multi_mimc5_hash, multi_mimc7_hash"])

prop("S02", "Gadget circuits accept every honest witness and publish the right value",
 "For the delay-function, hash, power and low-bits circuits, the witness built from any legitimate private input satisfies every constraint, and the public inputs of that instance are exactly the native results (the delay-function image, the list hash, g to the power given by the exponent bits, the low bits and the full value), in that order. The constraint system laid out at key generation, when no values are known, is the same one that is laid out when proving.",
 ["inputs", "configurations"], "all private inputs of each gadget, all list lengths and prefix widths",
 "Existing tests prove one random instance per circuit; two of them ignore whether the proof was accepted, and none varies list length, exponent or prefix width.",
 [SP+"circuit/mimc3_df_circuit.rs", SP+"circuit/mimc5_df_circuit.rs", SP+"circuit/mimc5_hash_circuit.rs", SP+"circuit/mimc7_hash_circuit.rs", SP+"circuit/pow_circuit.rs", SP+"circuit/equal_circuit.rs"],
 [("witness computation next to each constraint", SP+"circuit/*_circuit.rs: generate_constraints")],
 ["satisfaction of the synthesized constraint system", "public input vector", "proof acceptance"],
 hook="constructors for circuit structs whose fields are private")

prop("S03", "Delay-function and hash circuits admit no false witness",
 "Every assignment that satisfies the constraint system of a delay-function circuit contains private inputs whose native delay-function image is the public image, and every assignment that satisfies a hash circuit contains a key and an input list whose native chained hash is the public hash. No prover can satisfy the constraints with intermediate values that do not follow from those private inputs.",
 ["inputs"], "all assignments of field elements to all circuit variables, honest or not",
 "The tests only ever build the honest witness; a missing or mis-wired constraint never shows.",
 [SP+"circuit/mimc3_df_circuit.rs", SP+"circuit/mimc5_df_circuit.rs", SP+"circuit/mimc5_hash_circuit.rs", SP+"circuit/mimc7_hash_circuit.rs"],
 [("one constraint per multiplication, per key binding and per chaining step", SP+"circuit/mimc*_circuit.rs: generate_constraints")],
 ["set of satisfying assignments"], hook="constructors for circuit structs whose fields are private")

prop("S04", "Power and low-bits circuits admit no false witness",
 "Every assignment that satisfies the power circuit contains a base and boolean exponent bits (least significant first) such that the public value is the base raised to that exponent. Every pair of public values accepted by the low-bits circuit satisfies: the first is exactly the integer given by the low d bits of the canonical (reduced) binary representation of the second, for the configured d.",
 ["inputs", "configurations"], "all assignments to all circuit variables, every prefix width d",
 "The tests only build the honest witness, and they accept any outcome of proof verification that is not an error.",
 [SP+"circuit/pow_circuit.rs", SP+"circuit/equal_circuit.rs"],
 [("booleanity, weighted sum and square-and-multiply constraints", SP+"circuit/pow_circuit.rs, "+SP+"circuit/equal_circuit.rs")],
 ["set of satisfying assignments"])

prop("S05", "Space-proof circuit is satisfiable only for genuine answers to the challenges",
 "The space-proof circuit for public inputs (key, m, challenged positions, hash) is satisfied only if there are values x_1..x_k such that, for each i, the low N bits of the canonical binary representation of DF(key + x_i, m) equal the i-th challenged position, and the chained hash of those same x_1..x_k under that same key is the public hash. No choice of intermediate variables makes a statement without such values provable.",
 ["inputs"], "all public inputs and all assignments to all private variables",
 "The only test of this circuit proves one honest instance (and is excluded from the routine run); no dishonest assignment is ever tried.",
 [SP+"circuit/pospace_circuit.rs"],
 [("binding of m, key, x, delay-function output, bit decompositions and hash", SP+"circuit/pospace_circuit.rs: generate_constraints")],
 ["set of satisfying assignments of the synthesized constraint system"],
 hook="small N and answer count in the checked build")

prop("S06", "An honest space prover is always accepted",
 "For every key, m, round constants, list of challenges and marked space with at least the required number of answerable challenges, the witness built from the prover's first response satisfies the space-proof circuit laid out at key generation, with public inputs key, m, challenged positions in answer order, hash, in that order; and the proof produced from it is accepted by the verifier. The whole prepare, mark, challenge, respond, prove, verify flow therefore runs to completion for an honest prover.",
 ["inputs", "histories"], "all keys, m, constants, challenge lists over small N; real-size parameters by bounded enumeration",
 "The single flow test is excluded from the routine run and samples five random instances; acceptance of the proof was not actually asserted.",
 [SP+"proof_of_space/pospace.rs", SP+"proof_of_space/prover.rs", SP+"proof_of_space/verifier.rs", SP+"circuit/pospace_circuit.rs"],
 [("witness and public input construction", SP+"proof_of_space/prover.rs: response_1, response_2; verifier.rs: verify")],
 ["verify returning normally"], hook="small N and answer count in the checked build")

prop("S07", "The space verifier accepts only valid proofs of the claimed statement",
 "Verification returns normally only if the proof is valid for exactly the given key, m, challenged positions (taken from the verifier's own challenge list at the claimed indices, in order) and hash; in every other case (proof made for another key, m, position, order, hash or circuit, tampered proof, wrong number of answers) it rejects by panicking. Claimed indices must be strictly increasing and inside the challenge list, so that no challenge is counted twice.",
 ["inputs", "histories"], "all single and double substitutions of statement components and proofs in a bounded message space",
 "No test calls the verifier with anything but the honest proof, and the call used to treat an invalid proof as accepted.",
 [SP+"proof_of_space/verifier.rs"],
 [("public input assembly and acceptance decision", SP+"proof_of_space/verifier.rs: verify")],
 ["verify returning normally or panicking"], hook="small N and answer count in the checked build")

prop("S08", "Marking writes exactly the inverse table of the delay function",
 "Preparing the space for size n creates (or truncates and rewrites) a file of exactly the bytes needed for 2^n entries of n+1 bits, all zero. After marking, entry y (bits y(n+1) to y(n+1)+n, least significant bit of each byte first) holds the largest x in [0,2^n) whose DF(key+x, m) has low n bits y, in little-endian bits followed by a set flag, and is all zero when there is no such x; padding bits stay zero and the file length does not change.",
 ["inputs", "configurations"], "all n up to a bound, all delay-function mappings reachable through key, m and constants",
 "No routine test marks a space; the excluded flow test checks nothing about the table.",
 [SP+"proof_of_space/prover.rs", SP+"proof_of_space/convert.rs"],
 [("size computation and zero fill", SP+"proof_of_space/prover.rs: prepare_space"), ("bit-level read-modify-write", SP+"proof_of_space/prover.rs: mark_space")],
 ["bytes of the space file after each call"])

prop("S09", "The first response answers exactly the answerable challenges, in order",
 "For every marked space and challenge list (duplicates and unanswerable positions included) the prover's first response lists the indices of the first challenges, up to the required answer count, whose table entry is flagged, in challenge order, together with the stored x of each and the chained hash of those x under the key. It does not alter the space file.",
 ["inputs", "histories"], "all challenge sequences up to a bounded length over all positions, arbitrary table contents",
 "No routine test calls it.",
 [SP+"proof_of_space/prover.rs"],
 [("bit-level entry read, flag test, answer cut-off", SP+"proof_of_space/prover.rs: response_1")],
 ["returned x list, index list and hash", "space file unchanged"], hook="small answer count in the checked build")

prop("S10", "Bit, byte and integer conversions are exact inverses",
 "Byte-to-bit conversion yields the 8 bits of each byte least significant first, bit-to-byte conversion packs bits the same way and zero-pads the last byte, and the two are inverse on whole bytes. Integer-to-bits yields the low n bits least significant first for every n, bits-to-integer yields their value for up to 64 bits, and the two are inverse modulo 2^n; none of them fails on any input of these shapes.",
 ["inputs"], "all bit strings up to a length bound, all byte values, all widths 0..=64",
 "The two tests check one two-bit vector each.",
 [SP+"proof_of_space/convert.rs"],
 [("conversion loops", SP+"proof_of_space/convert.rs")],
 ["return values"])

prop("S11", "Space challenges are complete, in range and cover every position",
 "For every outcome of the random source, asking for c challenges over n-bit positions returns exactly c values, each below 2^n; every list of c positions is produced by some outcome, and each position bit is produced by as many outcomes as not (uniform choice).",
 ["inputs", "fault_sequences"], "all outcomes of the random source up to a bounded number of draws",
 "Tests run one random outcome and assert nothing about it.",
 [SP+"proof_of_space/verifier.rs"],
 [("bit-wise random generation", SP+"proof_of_space/verifier.rs: create_challenges")],
 ["returned list"])

prop("S12", "Space parameters are complete, fresh and independent of each other",
 "Preparing the parameters of the space protocol yields exactly one delay-function constant per delay-function round, one hash constant per hash round, a key and m. Each of these components is drawn from the random source: every bit of it takes both values, any two and any three components vary independently (none is a copy, a shift or a function of another, key and m included), and parameters prepared later share no component with those prepared earlier.",
 ["inputs", "histories"], "all outcomes of the random source (bounded set of draw sequences), all components, pairs and triples, all sequences of preparations",
 "No routine test looks at the parameters; a reused or constant component leaves every proof valid.",
 [SP+"proof_of_space/pospace.rs"],
 [("drawing of constants, key and m", SP+"proof_of_space/pospace.rs: prepare_params")],
 ["return value of prepare_params"])

prop("S13", "Space results do not depend on how the operating system splits file I/O",
 "Preparing a space, marking it and answering challenges from it give the same file and the same answers when the operating system serves any read or write of the file only in part or interrupts it (EINTR) before it transfers anything, wherever and as often as that happens.",
 ["crash_points", "inputs"], "all positions and kinds of partial or interrupted reads and writes, single, paired and periodic",
 "Tests run on a file system that serves every small request whole and never interrupts.",
 [SP+"proof_of_space/prover.rs"],
 [("byte reads and writes of the space file", SP+"proof_of_space/prover.rs: prepare_space, mark_space, response_1")],
 ["space file", "return value of response_1"])

prop("S14", "A complete space run succeeds and is recorded exactly when it is proved",
 "A complete space run (prepare, mark, challenge, respond, prove, verify) ends normally exactly if at least the required number of the drawn challenges is answerable; it then appends one record, with the success rate, after all earlier records. Otherwise it ends with a panic and adds nothing to the records. Either way earlier records stay as they were, and the space file holds exactly the marked table, whatever the file held before. The space command makes five such runs one after another, each with parameters of its own, one record each.",
 ["inputs", "histories"], "all keys and m over small fields, challenge outcomes with and without enough answerable positions, earlier file and record contents",
 "The only test of the run is excluded from the routine run and never meets a run that has to fail.",
 [SP+"proof_of_space/pospace.rs"],
 [("order of proving, verifying and recording", SP+"proof_of_space/pospace.rs: pospace, test_pospace")],
 ["outcome of pospace", "record file", "space file"], hook="small N and answer count in the checked build")

prop("S15", "A failed read or write of the space file never passes for success",
 "When the operating system fails a read (EIO) or a write (ENOSPC) of a file, preparing a space, marking it, answering challenges from it and a complete space run either end with an error (a panic or an Err) or leave exactly the file, answers and number of records they leave without the failure. They never end normally with a space that is not wholly prepared or marked, with answers to other table contents, or with a record missing.",
 ["crash_points", "inputs"], "every position of a single failing read or write, of a failure that persists from then on, and of a failure after a partial or interrupted call",
 "Tests run on a file system that never fails.",
 [SP+"proof_of_space/prover.rs", SP+"proof_of_space/pospace.rs"],
 [("reads and writes of the space file", SP+"proof_of_space/prover.rs: prepare_space, mark_space, response_1"), ("records", SP+"proof_of_space/pospace.rs: pospace")],
 ["outcome of each operation", "space file", "return value of response_1", "number of record lines"])

# ------------------------------------------------------------------ proof of storage
prop("T01", "Sealing then unsealing restores the file for every data and configuration",
 "For every original file, key, IV and every supported configuration (number of blocks and units, seal rounds, delay rounds, long and short dependency mode and count), padding and sealing and then unsealing and compressing yields the original bytes, and unsealing the sealed file in place yields the padded file byte for byte. Neither step fails on a well-formed configuration.",
 ["inputs", "configurations"], "all configurations in a bounded grid crossed with a data alphabet, including all-zero, all-ones and boundary units",
 "The storage tests do not run at all in the routine suite (the crate did not compile), and they cover a single preset with random data.",
 [ST+"proof_of_storage/prover.rs", ST+"proof_of_storage/common.rs", ST+"proof_of_storage/depend.rs", ST+"vde/rug_vde.rs", ST+"vde/rug_sloth.rs"],
 [("reverse-order inversion of the sealing steps", ST+"proof_of_storage/prover.rs: seal, unseal"), ("padding", ST+"proof_of_storage/prover.rs: copy_and_pad, copy_and_compress")],
 ["file contents after each step"])

prop("T02", "Any subset of sealed blocks unseals to exactly the original blocks",
 "Preparing and unsealing any single block, any list of blocks, or any byte range of the sealed file, without touching the rest, yields exactly the padded original content of precisely the blocks asked for (for a byte range: every block it touches, in order). The sealed file and the prepared inputs of other blocks are not altered, and the answer does not depend on which other blocks are unsealed along with it.",
 ["inputs", "configurations"], "all block subsets and all byte ranges of a bounded file, over the configuration grid",
 "Not exercised by any routine test; the manual test fixes one aligned range and one preset.",
 [ST+"proof_of_storage/verifier.rs"],
 [("range to block mapping, dependency collection", ST+"proof_of_storage/verifier.rs: single_unseal_prepare, batch_unseal_prepare"), ("per-block unsealing", ST+"proof_of_storage/verifier.rs: batch_unseal")],
 ["returned block indices and contents"])

prop("T03", "Parallel unsealing equals sequential unsealing under every schedule",
 "For every number of workers (at least one) and every interleaving of the worker threads, parallel batch unsealing terminates, without deadlock or panic, and returns exactly what sequential batch unsealing returns for the same blocks, in the same order; it never returns before all blocks are done.",
 ["schedules", "configurations"], "all interleavings of the workers up to a preemption bound, 1 to 3 workers, 1 to 4 blocks",
 "No routine test runs it, and a test run sees one uncontrolled schedule.",
 [ST+"proof_of_storage/verifier.rs"],
 [("worker pool, shared read-write locks and final join", ST+"proof_of_storage/verifier.rs: batch_unseal_parallel")],
 ["returned blocks at the end of every schedule"])

prop("T04", "The sloth permutation and its inverse are exact inverses, in both versions",
 "For every prime p congruent to 3 modulo 4, every x in [0,p) and every number of rounds t: a round maps a non-zero square to its even square root minus one, any other non-zero x to the odd square root of -x plus one, and zero to zero; inverting t rounds of t rounds of the delay permutation returns x, all intermediate results stay in [0,p), and the map is a permutation of [0,p) in both directions. The GMP version and the num-bigint version return the same value everywhere.",
 ["inputs", "configurations"], "all x modulo all small primes congruent to 3 modulo 4, all t up to a bound; edge values for the shipped primes",
 "The crate's tests are not in the routine suite and sample random x of one size, never 0 or values close to p.",
 [ST+"vde/rug_sloth.rs", ST+"vde/sloth.rs"],
 [("square-root step and parity swap", ST+"vde/rug_sloth.rs, "+ST+"vde/sloth.rs: single_sloth, single_sloth_inv, sloth, sloth_inv")],
 ["return values of sloth and sloth_inv"])

prop("T05", "Legendre symbol and modular exponentiation are correct",
 "For every odd prime p and every x in [0,p) the Legendre computations return 0 for 0, 1 for non-zero squares and -1 for the rest (as a field element in the field version), and fast modular exponentiation returns x^t mod p for every x >= 0, every t >= 0 and every modulus p > 1.",
 ["inputs"], "all x modulo all odd primes up to a bound, all exponents up to a bound; edge values for the shipped primes",
 "The tests print one value; the field version did not compile.",
 [ST+"vde/rug_sloth.rs", ST+"vde/sloth.rs", ST+"zk_vde/sloth.rs", ST+"vde/compare_modpow.rs"],
 [("quadratic reciprocity recursion", ST+"vde/rug_sloth.rs, "+ST+"vde/sloth.rs: legendre"), ("square and multiply", ST+"vde/compare_modpow.rs: fast_modpow")],
 ["return values"])

prop("T06", "Unit arithmetic and byte codecs are exact and length preserving",
 "For every unit (little-endian bytes of a value below p), mask of any length and p fitting in the unit, modular addition and subtraction of the mask return the exact residue in the unit's length and undo each other; the delay encoding of a unit and its inverse undo each other and always return the requested length; splitting into units and joining undo each other; and byte-wise xor returns the xor at the length of the longer operand.",
 ["inputs"], "all one- and two-byte units and masks for all admissible small p, plus long-mask and boundary alphabets at real size",
 "No routine test calls these functions.",
 [ST+"proof_of_storage/common.rs", ST+"vde/rug_vde.rs"],
 [("integer/byte conversion and zero padding", ST+"proof_of_storage/common.rs: modadd, modsub, to_units, com_units, vecu8_xor; "+ST+"vde/rug_vde.rs: vde, vde_inv")],
 ["return values"])

prop("T07", "Dependency lists are well formed, reproducible and follow their rule",
 "For every block count, position and requested count: long dependencies point to strictly earlier blocks, short dependencies point to other units inside the block; the rule-based modes return exactly the positions of their documented rule in order (short rule 2 stops at the first position outside the block); the hash-driven modes return, sorted and without repetition, exactly the positions that the first requested-count readings of the input's digest chain name (max(1, count / (8 * step)) chained digests of 16 bytes, read positionally in steps of 1, 2 or 3 bytes by block count; the short mode skips the unit itself), so never more than the requested count and the same for the same input on every call, and every admissible position is reachable. None of them fails.",
 ["inputs", "configurations"], "all (count, position, requested count) up to bounds, all digest outcomes for the hash-driven modes",
 "Three tests check one point each of three rules (not in the routine suite); the fourth is commented out as failing.",
 [ST+"proof_of_storage/depend.rs", ST+"proof_of_storage/prover.rs"],
 [("rules", ST+"proof_of_storage/depend.rs: long_mode_*, short_mode_*, *_random"), ("per-block tables", ST+"proof_of_storage/prover.rs: create_long_depend, create_short_depend")],
 ["returned index lists"])

prop("T08", "Content verification accepts exactly the original data",
 "Verifying unsealed blocks against the original file returns normally if and only if every data byte of every block equals the original, and panics otherwise; the combined unseal-and-verify accepts honest sealed blocks of any subset and rejects as soon as any byte of a sealed block, its predecessor's identity, a dependency it uses, the key or the IV has been altered so that the data would not come out right.",
 ["inputs", "fault_sequences"], "every byte position of every block times a set of byte corruptions, all block subsets",
 "Not exercised by any routine test; never called with corrupted data.",
 [ST+"proof_of_storage/verifier.rs"],
 [("byte comparison with the original file", ST+"proof_of_storage/verifier.rs: batch_verify, batch_unseal_and_verify")],
 ["normal return or panic"])

prop("T09", "Merkle roots commit to every byte and proofs verify exactly when honest",
 "The Merkle tree of a file has one leaf per block, in order (a last block that the data only begins is filled up with zeros), and its root changes if any byte of the data changes or blocks are permuted; it equals the root computed from the same blocks in memory. A proof for any set of leaves verifies against the root of the same data; whatever proof and index set is presented, it is rejected when the root is another or any leaf it claims is not the leaf at that position.",
 ["inputs", "fault_sequences"], "all leaf counts up to a bound, all index subsets, all single-byte corruptions of bounded files",
 "The only test needs a 1 GiB file, is not in the routine suite, and only checks that an honest proof verifies.",
 [ST+"proof_of_storage/merkle_tree.rs"],
 [("leaf extraction and tree construction", ST+"proof_of_storage/merkle_tree.rs: generate_merkle_tree_from_file, generate_merkle_tree_from_data"), ("proof and check", ST+"proof_of_storage/merkle_tree.rs: generate_merkle_proof, verify_merkle_proof")],
 ["root bytes, leaf list, normal return or panic of the check"])

prop("T10", "Padding and compression of files are exact inverses",
 "Padding writes each unit of the original followed by exactly one zero byte, compression keeps exactly the first unit-length bytes of each padded unit; padding then compressing restores the original whole units for every file, and the output file never keeps bytes of what it contained before. The input files are not modified.",
 ["inputs", "histories", "configurations"], "all small files over a byte alphabet, all unit lengths up to a bound, previous target contents of any length",
 "Not exercised by any routine test.",
 [ST+"proof_of_storage/prover.rs"],
 [("unit-wise copy into a truncated file", ST+"proof_of_storage/prover.rs: copy_and_pad, copy_and_compress")],
 ["output and input file bytes"])

prop("T11", "Saved public data always loads back as the last value saved",
 "After any history of saves to a path, with keys and IVs of any size, loading returns exactly the key and IV of the most recent save, and loading does not change the file.",
 ["histories", "inputs"], "all save/load histories up to a depth over keys and IVs of different sizes",
 "Not exercised by any routine test; never saved twice to the same path with different sizes.",
 [ST+"proof_of_storage/postorage.rs"],
 [("serialized record", ST+"proof_of_storage/postorage.rs: save_data, load_data")],
 ["returned key and IV"])

prop("T12", "Storage challenges, random files and IVs are faithful to the random source",
 "For every outcome of the random source, asking for n challenges over [a,b) (n at most b-a) returns n distinct values in increasing order, all in [a,b), and every such set is produced by some outcome; a random file has exactly the requested length (replacing earlier content) and every byte takes every value; and parameter preparation returns a fresh 128-byte IV in which every byte takes every value; in files and IVs alike any two bytes vary independently.",
 ["inputs", "fault_sequences"], "all outcomes of the random source up to a bounded number of draws, all small ranges",
 "Tests run one random outcome and assert nothing about it.",
 [ST+"proof_of_storage/verifier.rs", ST+"proof_of_storage/postorage.rs"],
 [("set-based sampling", ST+"proof_of_storage/verifier.rs: create_challenges, create_random_file"), ("IV generation", ST+"proof_of_storage/postorage.rs: prepare_params")],
 ["returned values and file bytes"])

prop("T13", "Sealing binds each block to key, IV, predecessor and its dependencies",
 "The sealed file and the returned block identities are exactly those of the sealing definition: unit by unit, a fixed number of passes, each unit is masked by the hash of its long dependencies (same unit of the chosen earlier sealed blocks), its short dependencies in the current state of the block, and for the first unit the IV (first block) or the previous block's identity, and then delay-encoded; the identity of a block is the hash of its sealed bytes. Consequently changing one byte of the IV or of any earlier block changes every later sealed block, and the same input always seals to the same bytes.",
 ["inputs", "configurations"], "configuration grid crossed with a data alphabet, every single-byte change of data and IV",
 "Not exercised by any routine test; a symmetric change of sealing and unsealing passes any round-trip test.",
 [ST+"proof_of_storage/prover.rs", ST+"proof_of_storage/depend.rs", ST+"proof_of_storage/common.rs"],
 [("dependency hashing and chaining", ST+"proof_of_storage/prover.rs: seal")],
 ["sealed bytes and returned identities"])

prop("T14", "Results do not depend on how the operating system splits file I/O",
 "Reading, writing, padding, sealing, unsealing, compressing, Merkle tree construction and verification give the same results as usual when the operating system returns any read or write partially (fewer bytes than asked for) or interrupts it, as long as each call eventually makes progress. A read past the end of the file yields zero bytes for the missing part.",
 ["fault_sequences", "inputs"], "every placement of up to a bounded number of partial or interrupted reads and writes in each operation",
 "Tests never see a partial read or write; the file system here always completes them.",
 [ST+"proof_of_storage/common.rs", ST+"proof_of_storage/prover.rs", ST+"proof_of_storage/verifier.rs", ST+"proof_of_storage/postorage.rs"],
 [("read helper and complete writes", ST+"proof_of_storage/common.rs: read_file; write_all calls in prover.rs")],
 ["file contents and return values under each fault sequence"])

prop("T15", "Presets and primes are consistent, so shipped settings cannot lose data",
 "Every shipped parameter preset divides evenly (data into blocks, blocks into units, padded sizes one byte longer per unit), every shipped prime is prime, congruent to 3 modulo 4, of the advertised bit size and identical in all copies, and the prime chosen for a padded unit length is large enough for every original unit and small enough for the padded unit.",
 ["configurations"], "all presets, all shipped primes, all supported padded unit lengths",
 "No test checks the constants.",
 [ST+"proof_of_storage/common.rs", ST+"proof_of_storage/postorage.rs", ST+"vde/rug_sloth.rs", ST+"vde/sloth.rs", ST+"vde/compare_modpow.rs"],
 [("preset table", ST+"proof_of_storage/common.rs: gen_posdata"), ("prime selection", ST+"proof_of_storage/postorage.rs: prepare_params")],
 ["preset fields, primes, selected key"])

prop("T16", "The storage pipeline accepts an honest prover and detects a cheating one",
 "Sealing a file with the pipeline writes sealed data, public data and, if asked, the unsealed copy such that unsealing the challenged blocks from the sealed file with the saved public data passes verification (sequential or parallel) and, when the sealed data is unsealed in place, the unsealed copy equals the original and passes the Merkle check for every challenge; replacing any challenged block of the sealed or unsealed data by different content makes the corresponding check fail. Repeating the pipeline on the same paths with other data behaves as on fresh paths.",
 ["histories", "inputs", "fault_sequences"], "bounded histories of pipeline steps with every single-block corruption, every challenge outcome",
 "The pipeline tests are not in the routine suite, fix one preset, and never cheat.",
 [ST+"proof_of_storage/postorage.rs"],
 [("pipeline steps", ST+"proof_of_storage/postorage.rs: seal_and_unseal, test_unseal_single_and_verify, merkle_tree_proof")],
 ["files written, normal return or panic of each check"])

prop("T17", "The storage command does exactly what its flags ask, in every state of its files",
 "In every state reachable through earlier commands and alterations of the stored files, the storage command succeeds exactly if every check it was asked for has to succeed: the block check if the sealed file is the unaltered sealed form of the current original, the Merkle check if the unsealed copy is the unaltered current original. Asked to seal, it makes a new original, its sealed form and public data, and, only if asked to unseal as well, unseals in place and makes the unsealed copy; not asked to seal, it changes none of these files. Earlier records are never changed, and records grow only if asked for: by a run record that names the parameters of the run, and by one line of statistics, beginning with them, exactly if the command both sealed and unsealed.",
 ["histories", "configurations"], "all reachable states of original, sealed file and unsealed copy, all flag combinations in each, all short histories",
 "The test runs one flag combination against whatever files an earlier manual run left behind.",
 [ST+"proof_of_storage/postorage.rs"],
 [("sequence of steps per flag", ST+"proof_of_storage/postorage.rs: test_postorage, seal_and_unseal, test_unseal_single_and_verify, merkle_tree_proof")],
 ["outcome of test_postorage", "original, sealed, unsealed, public-data and record files"])

prop("T18", "A failed read or write never passes for success",
 "When the operating system fails a read (EIO) or a write (ENOSPC) of a file, every storage operation (reading, padding, compressing, sealing, unsealing, preparing challenged blocks, building the Merkle tree, saving and loading the public data, creating the random original, a complete sealing or unsealing run) either ends with an error (a panic or an Err) or gives exactly the result and files it gives without the failure; and no failure makes a verification accept what it otherwise rejects. No operation ends normally with a file that is cut short, holds stale bytes or holds zeros in place of data that could not be read.",
 ["fault_sequences", "inputs"], "every position of a single failing read or write in each operation, of a failure that persists from then on, and of a failure after a partial or interrupted call",
 "Tests run on a file system that never fails.",
 [ST+"proof_of_storage/common.rs", ST+"proof_of_storage/prover.rs", ST+"proof_of_storage/verifier.rs", ST+"proof_of_storage/postorage.rs", ST+"proof_of_storage/merkle_tree.rs"],
 [("reads", ST+"proof_of_storage/common.rs: read_file"), ("writes", ST+"proof_of_storage/prover.rs: copy_and_pad, seal, unseal, copy_and_compress"), ("public data", ST+"proof_of_storage/postorage.rs: save_data, load_data")],
 ["outcome of each operation", "file contents", "verdicts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
