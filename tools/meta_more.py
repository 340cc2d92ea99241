# more properties; executed by gen_meta.py
GEN = ['bin/gen.cpp']
prop('C14', 'The circuit generator writes the computation each of its modes documents',
     'For every mode and size, bin/gen writes a well-formed layered circuit (power-of-two layers, complete ids, operands inside the previous layer), and evaluating it gives what the mode promises for the inputs written in it: the matrix product (mode 2 with expanded operands and an addition tree, mode 4 with sum gates), the blocked doubling-and-product circuit of the requested depth and width (mode 1), the exclusive-or chain (mode 0) and the addition test (mode 5). The block file it writes for modes 1 and 2 describes blocks that are really there and the exact text lengths of the layers.',
     ['inputs', 'configurations'], 'modes 0, 1, 2, 4, 5 with all sizes in their domain, all random seeds',
     'The tests feed a few sizes to the prover and look only for the acceptance line; a generator that writes the wrong computation is proved just as happily.',
     GEN, [('matrix circuits', 'bin/gen.cpp modes 2 and 4'), ('blocked circuit', 'bin/gen.cpp mode 1'), ('test circuits', 'bin/gen.cpp modes 0 and 5'), ('block file', 'meta_data.txt of modes 1 and 2')],
     'property-based testing: generated modes, sizes and seeds; strict parser and reference computation as oracle', 'Each case runs the real program with a chosen rand() seed and evaluates its output with the independent evaluator.', ['files the generator writes'])
TR = ['parser_sha_data_parallel.cpp', 'parser_sha.cpp', 'parser_lanczos.cpp']
prop('C15', 'Translating a PWS program preserves its meaning',
     'For every PWS program of the supported form the layered circuit written by the translators is well formed, computes on its inputs the values the program assigns to its deepest outputs (every copy, in order, for the data-parallel translator), and the parallel-structure file describes it correctly. Values needed several layers later arrive unchanged.',
     ['inputs', 'programs', 'configurations'], 'all straight-line PWS programs with topologically ordered ids, and data-parallel ones with any power-of-two number of copies',
     'Tests translate two or three fixed programs and only see that the circuit is provable, never that it computes the program.',
     TR, [('layering and relay chains', 'dfs/depth assignment and relay insertion'), ('gate translation', 'regular expressions and gate emission'), ('copy addressing', 'RDL input and output blocks')],
     'property-based testing: generated PWS programs, differential against a reference interpreter of PWS', 'Random programs with all gate forms; programs outside the translators\' own assumptions (listed in DESIGN) are not generated.', ['circuit and meta files written'])
prop('C16', 'The SHA-256 program checks SHA-256',
     'The PWS program written by bin/sha256gen_merkle.py evaluates to all-zero check outputs exactly when its witness bits are those of the SHA-256 compression function on the given message and state, and with the copies arranged as a tree to the Merkle root; any changed digest, message or witness bit makes some check output non-zero.',
     ['inputs', 'programs'], 'all messages, states and single-bit corruptions; trees of up to 8 copies',
     'Tests only prove the translated circuit; neither accepted hashes nor rejected forgeries are ever compared with SHA-256.',
     ['bin/sha256gen_merkle.py'], [('round function and schedule', 'writeCHfunction, writeXORSfunction, writeMAJfunction, write*igma*function, write_64_rounds, write_merkle_rdl'), ('bit and consistency tests', 'verify_bits, test_bitvec_field')],
     'property-based testing: the generated program is interpreted on generated messages and corruptions against a reference SHA-256', 'The program text is produced by running the generator with jython as the tests do; the interpreter of PWS is part of the trusted base.', ['values of the output wires'])
ZF = ['src/linear_gkr/zk_verifier.cpp', 'src/linear_gkr/zk_prover.cpp']
prop('C17', 'Zero-knowledge verifier accepts every honest proof of the true outputs',
     'For every circuit and parallel-structure description of the documented form, whatever gate types, block counts, inputs, masks and challenges, the zero-knowledge program accepts its honest prover, and the outputs it proves equal the circuit computed gate by gate.',
     ['inputs', 'programs', 'configurations'], 'all circuits with gate types 0,1,2,5-10,12,13, any mixture of parallel and plain layers, all masks',
     'The zero-knowledge program is not built by the tests at all (its pairing library is absent).',
     ZF, [('evaluation and bookkeeping tables', 'zk_prover::evaluate, sumcheck_phase*_init/update'), ('mask polynomials', 'generate_maskpoly*, generate_maskR, query, queryRg1, queryRg2'), ('layer predicates, plain and parallel', 'zk_verifier::predicates, direct_relay, beta_init'), ('reader of the structure file', 'zk_verifier::read_circuit')],
     'property-based testing: generated circuits and structure files, acceptance oracle and GMP differential, on an ideal bilinear group', 'The pairing library is replaced by an ideal bilinear group of the same order (harness/mock/bn.h); curve arithmetic itself is outside the repository.', ['verify() and evaluate()'])
prop('C18', 'Zero-knowledge verifier never accepts a wrong output',
     'A claimed output that is not the output of the circuit on the committed input is rejected by the zero-knowledge verifier whatever round messages, claims, mask values, commitments and openings the prover sends, and so is any session in which a single prover message was altered.',
     ['inputs', 'programs', 'fault_sequences', 'configurations'], 'all circuits, false outputs and committed inputs, adaptive prover strategies that do not know future challenges', 'No test contains a cheating prover and the program is not built by the tests.',
     ZF + ['src/VPD/inputvpd.cpp', 'src/VPD/vpdR.cpp', 'src/VPD/vpd_test.cpp'], [('round, layer, mask and input checks', 'zk_verifier::verify'), ('own evaluation of the claimed output', 'zk_verifier::V_in'), ('openings', 'input_vpd::verify, vpdR::verify, vpd_test::verify')],
     'property-based testing: generated circuits x adaptive cheating provers, reject oracle, on an ideal bilinear group', 'Interactive reading: the prover learns a challenge when the verifier hands it over (the order of the transcript is a known finding of C24). The setup trapdoors are assumed unknown to the prover.', ['return value of verify()'])
prop('C19', 'Polynomial commitments are complete, binding to their value, and blinded',
     'For each commitment scheme (inputs, mask R, mask polynomial, and the multilinear benchmark, there with any number of variables up to that of the keys) and every polynomial and point, an honest commitment and opening verify, the opened value is the polynomial at the point (plus Z times the mask for inputs), and every altered value, digest, witness, point, mask factor or polynomial is rejected. Commitments and openings of the three schemes of the zero-knowledge program are freshly blinded each time.',
     ['inputs', 'fault_sequences'], 'all coefficient vectors, points, numbers of variables and single alterations', 'No test builds the commitment code.',
     ['src/VPD/inputvpd.cpp', 'src/VPD/vpdR.cpp', 'src/VPD/vpd_test.cpp', 'src/VPD/multivariate_test.cpp'], [('keys', 'KeyGen'), ('commitment', 'commit, check_commit'), ('opening', 'prove, verify, multi_scalar_calc, pre_input')],
     'property-based testing: generated polynomials, points and alterations against direct evaluation, on an ideal bilinear group', 'Statements about the curve itself (discrete logarithms) are assumptions.', ['results of commit, prove, verify'])
prop('C21', 'The transcript binds challenges to history and stores the proof faithfully',
     'Challenges of the zero-knowledge transcript are a deterministic function of everything recorded before, always reduced and pairwise different, and altering one bit of any recorded message (or exchanging two) changes every later challenge and no earlier one. The proof file holds exactly the recorded messages in order and its size is the reported proof size.',
     ['histories', 'inputs'], 'all sequences of field messages, curve messages and draws', 'No test builds the transcript or the hash.',
     ['include/linear_gkr/transcript.h', 'include/infrastructure/my_hhash.h'], [('challenge derivation', 'proof_transcript::random, my_hhash'), ('serialisation', 'container::output, output_bit_stream, output_to_file, get_proof_size')],
     'stateful property-based testing: generated message histories with single alterations, metamorphic and round-trip oracles', 'Collision resistance is probed by alterations, not proved.', ['challenges, proof file'])
prop('C22', 'The zero-knowledge program stays inside its memory',
     'On every circuit and structure file of the documented form, and for every commitment and transcript operation, the zero-knowledge prover, verifier, commitment and transcript code never touches memory outside its allocations and executes no undefined arithmetic.',
     ['inputs', 'programs', 'configurations'], 'the domains of C17, C19 and C21', 'The tests do not build this code, and run nothing under sanitizers.',
     ZF + ['src/VPD/inputvpd.cpp', 'src/VPD/vpd_test.cpp', 'src/VPD/multivariate_test.cpp', 'include/linear_gkr/transcript.h'], [('array sizing and index computation', 'init_array, read_circuit, phase functions, KeyGen')],
     'property-based testing under AddressSanitizer and UndefinedBehaviorSanitizer', 'Same generators as C17, C19, C21; leaks are not judged.', ['sanitizer reports'])
prop('C23', 'Generators and translators stay inside their memory',
     'For every mode, size and PWS program of the supported form, the circuit generator and the three translators never touch memory outside their arrays and execute no undefined arithmetic.',
     ['inputs', 'programs', 'configurations'], 'the domains of C14 and C15', 'Tests run the tools on a handful of inputs without sanitizers.',
     GEN + TR, [('fixed-size tables', 'global arrays and their indices')],
     'property-based testing under AddressSanitizer and UndefinedBehaviorSanitizer', 'Same generators as C14 and C15; leaks are not judged.', ['sanitizer reports'])
prop('C20', 'The masks of the zero-knowledge proof hide everything they must',
     'With all challenges fixed, the mask sum and the round messages of every layer depend on the mask polynomial of that layer with full rank, the two claims of a layer together with the openings of their mask polynomial depend on that mask with full rank, and the claim about the input depends on the input mask. So, given uniform masks, these values of an accepted session can be simulated without the inputs.',
     ['inputs', 'programs', 'configurations'], 'all circuits, layers and fixed challenges; independence in the linear-algebra sense for the masks of one layer at a time', 'Every proof with missing, repeated or too few masks is accepted like any other, so no acceptance test can see it.',
     ZF, [('mask polynomials', 'zk_prover::generate_maskpoly_pre_rho, sumcheck_phase*_update*, sumcheck_finalround'), ('masks of claims', 'zk_prover::generate_maskR, sumcheck_phase2_init, sumcheck_finalize'), ('input mask', 'zk_prover::keygen_and_commit')],
     'property-based testing: many sessions with the same challenges and input and different masks; rank of the differences of the views (metamorphic)', 'The randomness of one stage of the prover is varied by reseeding rand() when the stage begins. Blinding of the commitments is C19; quality and seeding of rand() are outside (known finding).', ['messages sent by the prover'])
prop('C24', 'The zero-knowledge transcript binds every message before the next challenge',
     'In every session each commitment, round message and opening the verifier receives is in the transcript by the time the next challenge is drawn, and nothing else is; every challenge the prover is given comes from one draw of its own, made no earlier than the messages of the stage before. The proof file of an accepted session holds exactly these messages.',
     ['histories', 'programs', 'configurations'], 'all circuits and structure files', 'A message that is left out, or a challenge drawn too early or used twice, changes nothing in honest sessions.',
     ['src/linear_gkr/zk_verifier.cpp', 'include/linear_gkr/transcript.h'], [('recording and drawing', 'zk_verifier::verify'), ('proof file', 'proof_transcript::output_to_file')],
     'property-based testing: generated circuits; the history of messages and challenges is compared with the transcript', 'Stages are: input commitment, the commitments of a layer, the rest of the layer. The finer order inside a layer and the values that are never recorded are a known finding.', ['transcript, proof.bin'])
NA = []
prop('C25', 'The programs report the verdict and the cost of what they ran',
     'The command-line programs (linear, sequential copies, data-parallel, zero-knowledge) run one session per requested copy and print success exactly if every session was accepted: one rejected proof among any number of copies makes the run a failure. The prover time printed is the sum over all sessions. The zero-knowledge program leaves proof.bin and its result file behind only after success; the result file has its seven numbers, and the proof size in it is that of the messages sent.',
     ['inputs', 'fault_sequences', 'configurations'], 'all circuits, numbers of copies and subsets of false sessions', 'Tests only run honest proofs, so a program that always prints success passes them.',
     ['src/linear_gkr/main_fast_track.cpp', 'src/linear_gkr/main_zk.cpp', 'src/traditional_gkr/bclogc.cpp', 'src/traditional_gkr/bc_clogc.cpp', 'src/linear_gkr/zk_verifier.cpp'], [('combination of verdicts and times', 'run_verifications'), ('verdict line', 'main'), ('result and proof files', 'end of zk_verifier::verify')],
     'property-based testing: the real main functions on generated circuits with wrong outputs injected in generated sessions', 'The prover type is replaced by a subclass that changes one output value in chosen sessions; time values are only bounded, not measured independently.', ['standard output, result.txt, proof.bin'])
prop('C26', 'Proving takes linear time',
     'The work of the linear-time prover and verifier and of the zero-knowledge prover grows linearly with the circuit, whatever its gates and wiring: next to 2^k times as many gates a further gate costs no more than before, narrow layers cost the same next to a wide one, one more layer costs as much on top of many as on top of few, and the memory held grows no faster. Committing to and opening an input take group operations linear in its size, and the baseline provers stay within C log C in the size of the circuit and are linear in the number of copies.',
     ['inputs', 'programs', 'configurations'], 'all circuits put side by side in up to thousands of copies, polynomials of up to ten variables',
     'Tests measure no work, and a phase of quadratic time is invisible on circuits of the size the tests prove.',
     LF + ZF + TF + BF + ['src/VPD/inputvpd.cpp', 'src/VPD/vpd_test.cpp'], [('bookkeeping tables of each phase', 'sumcheck_phase1_init, sumcheck_phase2_init, sumcheck_phase*_update'), ('halved tables of the verifier', 'beta_init, add, mult, predicates'), ('commitment', 'input_vpd::KeyGen, commit, prove')],
     'property-based testing: metamorphic relation between the work counted on generated circuits of different widths', 'Work is counted in executed basic blocks of the repository\'s code and in operations of the ideal group, memory in bytes from operator new, never in time; constants are not judged.', ['basic blocks executed, group operations, bytes held'])
prop('C27', 'Zero-knowledge proofs are succinct',
     'The size of a proof grows by the same number of bytes with every doubling of the circuit\'s width and with every further layer of a kind, and checking an opening takes a number of group operations and pairings affine in the number of variables. Work and drawing of challenges per layer do not depend on the depth, and what one more declared copy costs the verifier does not depend on the size of the copies\' layers.',
     ['inputs', 'programs', 'configurations'], 'all circuits, widths and numbers of copies', 'A verifier that does the work of the prover, or a proof as long as the circuit, passes every test.',
     ['src/linear_gkr/zk_verifier.cpp', 'src/VPD/inputvpd.cpp', 'src/VPD/vpd_test.cpp', 'include/linear_gkr/transcript.h'], [('predicates of declared copies', 'zk_verifier::predicates, beta_init'), ('messages', 'zk_verifier::verify, proof_transcript::get_proof_size'), ('openings', 'input_vpd::verify, vpd_test::verify')],
     'property-based testing: metamorphic relation between proof sizes and counted work on generated circuits of different sizes', 'The verifier\'s work is what zk_verifier::verify executes outside the prover and the openings (these are counted in group operations); drawing challenges is counted apart.', ['get_proof_size(), basic blocks executed, group operations, pairings'])
prop('C28', 'Random field elements are uniform, wide and drawn anew',
     'Every challenge of the verifiers, every mask of the zero-knowledge prover and every trapdoor and blinding factor of its commitments is a draw of its own: it takes at least 250 random bits, no bit of the random source decides two of them, none is a simple function of another, and none repeats in a session with other randomness. Random field elements are evenly spread over the field.',
     ['inputs', 'programs', 'histories', 'configurations'], 'all circuits, sessions and outputs of the random source',
     'Soundness and hiding rest on it, and no honest proof, accepted or not, shows whether a challenge had 31 bits or was used twice.',
     ['src/linear_gkr/prime_field.cpp', 'src/linear_gkr/verifier_fast_track.cpp', 'src/traditional_gkr/verifier_traditional.cpp', 'src/traditional_gkr/verifier_bc_clogc.cpp', 'src/linear_gkr/zk_prover.cpp', 'src/VPD/inputvpd.cpp', 'src/VPD/vpdR.cpp', 'src/VPD/vpd_test.cpp'],
     [('random field elements', 'prime_field::random, u512b::random'), ('challenges', 'generate_randomness and verifier::verify'), ('masks', 'generate_maskpoly, generate_maskR'), ('trapdoors and blinding factors', 'KeyGen, commit')],
     'property-based testing: metamorphic relation between sessions whose random source differs in one bit, on generated circuits and polynomials; chi-square test of generated elements',
     'rand() itself is taken as the random source (its quality and its seed are not judged; that the masks use it unseeded is a known finding of C20). A source other than rand() is judged by the width and independence of the values only.', ['challenges, masks and commitments as the code draws them'])
