#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or [], level=level))


LF = ['src/linear_gkr/verifier_fast_track.cpp', 'src/linear_gkr/prover_fast_track.cpp', 'include/linear_gkr/circuit_fast_track.h']
prop('C01', 'Linear-time verifier never accepts a wrong output',
     'When the prover claims an output that differs from the true value of the circuit on its public input, the linear-time verifier rejects (up to the negligible chance of guessing field challenges), whatever messages the prover sends and whichever round, layer or claim it lies in. A transcript in which any single prover message was altered is also rejected.',
     ['inputs', 'programs', 'fault_sequences'], 'all circuits in the documented format, all inputs, all false outputs, all adaptive prover strategies that do not know future challenges',
     'The tests only run the honest prover and look for the acceptance line; no test contains a cheating prover, so a missing or weakened check in any layer, round or gate type is invisible to them.',
     LF, [('sum-check consistency tests of both phases', 'verifier::verify phase 1 / phase 2 loops'), ('layer relation test', 'verifier::verify semi final check; add/mult/not_gate/minus_gate/xor_gate/NAAB_gate/sum_gate/relay_gate/direct_relay'), ('random combination of the two claims', 'verifier::verify alpha, beta'), ('input test', 'verifier::V_in and final input check')],
     'property-based testing: generated circuits x generated adaptive cheating provers, reject oracle',
     'Search over circuits, lies, correction-polynomial shapes, absorption strategies and drop points with a prover subclass inside the real verifier; a pass means no explored strategy was accepted. Assumes challenges are unpredictable (the code draws them from rand()).', ['return value of verify()'])
prop('C02', 'Linear-time verifier accepts every honest proof',
     'For every circuit in the documented format, with any mix of supported gate types, any layer widths, depth, unused gates and input values, the linear-time verifier accepts the proof of the honest prover, for every choice of challenges.',
     ['inputs', 'programs'], 'all circuits of the documented format (gates never read unused gates, layers of a power of two or one gate), all 64-bit inputs, all challenge seeds',
     'The tests cover a few dozen fixed generator outputs; gate-type mixtures, one-gate layers, repeated operands, interleaved unused gates and negative inputs never occur in them.',
     LF, [('bookkeeping tables per gate type', 'prover::sumcheck_phase1_init, sumcheck_phase2_init'), ('round polynomials', 'prover::sumcheck_phase1_update, sumcheck_phase2_update'), ('layer predicates', 'verifier::beta_init and *_gate')],
     'property-based testing: generated circuits, acceptance oracle', 'Random structured circuits up to 2^11 wide and 30 layers deep; no proof beyond the explored sizes.', ['return value of verify()'])
prop('C03', 'Linear-time prover evaluates circuits exactly as the gate semantics say',
     'The outputs the linear-time prover proves equal the values of the circuit computed gate by gate over the prime field: addition, multiplication, subtraction, negation (1-x), exclusive or, and-not, sum over a half-open range, relay, constant zero for unused gates. Output values are always reduced, and the prover\'s evaluation of the output polynomial at a point is the multilinear extension of those outputs.',
     ['inputs', 'programs'], 'all circuits of the documented format and all inputs',
     'Tests never look at output values, only at the acceptance line, and a prover and verifier that agree on wrong semantics still accept.',
     LF, [('gate evaluation', 'prover::evaluate'), ('circuit construction', 'verifier::read_circuit')],
     'property-based testing: differential against an independent GMP evaluator', 'Differential search; the reference evaluator is part of the trusted base.', ['vector returned by evaluate()'])
prop('C04', 'Circuits are read faithfully whatever their layout',
     'In every program, reading a circuit from a file or from a string yields the circuit written in it: white space, line breaks, zero padding and numbers without a meaning (the last number of an input, the operands of an unused gate, the second operand of a relay or NOT gate) do not matter, input values keep their full signed 64-bit value and negative ones mean their residue modulo the prime, and a layer with one gate keeps its value.',
     ['inputs', 'programs'], 'all well-formed files in any white-space layout, all signed 64-bit input values',
     'Test circuits come from two or three generators with one layout and small non-negative inputs.',
     ['src/linear_gkr/verifier_fast_track.cpp', 'src/linear_gkr/zk_verifier.cpp', 'src/traditional_gkr/verifier_traditional.cpp', 'src/traditional_gkr/verifier_bc_clogc.cpp', 'include/linear_gkr/circuit_fast_track.h', 'src/linear_gkr/prime_field.cpp'], [('readers', 'verifier::read_circuit, zk_verifier::read_circuit, read_circuit_from_FILE'), ('input to field conversion', 'prime_field::field_element(long long)')],
     'property-based testing: metamorphic re-layout plus reference evaluation', 'Search over layouts, widths and boundary integers.', ['outputs and verdict after read_circuit'])
prop('C05', 'Proof sessions do not influence one another',
     'When one prover object and one verifier object run a sequence of sessions over different circuits, honest and cheating ones mixed, every session has the verdict and outputs it would have had on its own.',
     ['histories', 'inputs'], 'all sequences of sessions (2 to 6 explored), including sessions that follow a rejected one',
     'Each test runs one session per process.',
     LF, [('per-session tables', 'prover::init_array, delete_self; verifier::read_circuit, delete_self'), ('round state', 'prover::sumcheck_init and phase init functions')],
     'stateful property-based testing: generated session histories against per-session oracles', 'Histories of up to 6 sessions; sessions within one process only.', ['verdict and outputs of each session'])
TF = ['src/traditional_gkr/verifier_traditional.cpp', 'src/traditional_gkr/prover_clogc.cpp']
prop('C06', 'Sequential baseline proves and evaluates correctly',
     'For every add/multiply circuit the sequential baseline accepts its honest prover, and the proved outputs equal the circuit computed gate by gate, for circuits of any depth.',
     ['inputs', 'programs'], 'all add/multiply/unused circuits, all 64-bit inputs, depth beyond 1000 layers included',
     'Tests run five generator outputs and never look at the outputs.',
     TF + ['include/traditional_gkr/prover_clogc.h'], [('evaluation', 'prover::evaluate'), ('round polynomials', 'prover::sumcheck_phase1_update, sumcheck_phase2_update')],
     'property-based testing: acceptance oracle and GMP differential', 'Search over random circuits.', ['verify() and evaluate()'])
prop('C07', 'Sequential baseline verifier never accepts a wrong output',
     'A claimed output that differs from the true value of the circuit is rejected by the sequential baseline verifier whatever messages the prover sends, and so is any transcript with one altered prover message.',
     ['inputs', 'programs', 'fault_sequences'], 'all add/multiply circuits, false outputs and adaptive provers', 'No test contains a cheating prover.',
     TF, [('sum-check tests, layer relation, input test', 'verifier::verify')],
     'property-based testing: generated circuits x adaptive cheating provers, reject oracle', 'As C01, for the sequential baseline.', ['return value of verify()'])
BF = ['src/traditional_gkr/verifier_bc_clogc.cpp', 'src/traditional_gkr/prover_bc_clogc.cpp', 'include/traditional_gkr/circuit_bc_clogc.h']
prop('C08', 'Data-parallel baseline proves and evaluates every copy correctly',
     'For every add/multiply circuit, any power-of-two number of copies (one included) and any inputs per copy, the data-parallel baseline accepts its honest prover, and the outputs of every copy equal that copy computed on its own.',
     ['inputs', 'programs', 'configurations'], 'all add/multiply circuits, 1 to 8 copies explored, different inputs per copy',
     'Tests use four copies of one generator circuit with equal inputs and never look at outputs.',
     BF, [('evaluation per copy', 'prover::evaluate'), ('copy-index phase', 'prover::sumcheck_phase0_init, sumcheck_phase0_update, sumcheck_phase1_init')],
     'property-based testing: acceptance oracle and per-copy GMP differential', 'Search over circuits, copy counts and per-copy inputs.', ['verify() and evaluate()'])
prop('C09', 'Data-parallel baseline verifier never accepts a wrong output of any copy',
     'If the claimed output of any copy is wrong, the data-parallel verifier rejects whatever messages and side values the prover supplies, and so it does for any transcript with one altered prover message.',
     ['inputs', 'programs', 'fault_sequences', 'configurations'], 'all add/multiply circuits, copy counts, false outputs in any copy, adaptive provers', 'No test contains a cheating prover.',
     BF, [('copy-index, u and v sum-check tests, layer relation, input test', 'verifier::verify')],
     'property-based testing: generated circuits x adaptive cheating provers, reject oracle', 'As C01, with the cubic copy-index rounds.', ['return value of verify()'])
FF = ['src/linear_gkr/prime_field.cpp', 'include/linear_gkr/prime_field.h']
prop('C10', 'Field arithmetic is exact and reduced',
     'Addition, subtraction, multiplication, fused products and comparison of field elements agree with exact integer arithmetic modulo the prime, and results are always reduced, for all operands and all sequences of operations.',
     ['inputs', 'programs'], 'all pairs of reduced elements; straight-line programs of up to 40 operations', 'The tests never exercise limb boundaries or values next to the prime on purpose; a carry bug at one word pattern would pass them.',
     FF, [('512-bit arithmetic and Barrett reduction', 'u256b, u512b operators, field_element operators')],
     'property-based testing: random straight-line programs differentially against GMP', 'Boundary-biased search; GMP is trusted.', ['values of field elements'])
prop('C11', 'Field conversions preserve the value',
     'Converting integers (negative ones too), decimal text and wide products to field elements and field elements to big integers, text, bit strings and bit lengths preserves the mathematical value, and random elements are always reduced.',
     ['inputs'], 'all 64-bit integers, all field elements, all products up to twice the square of the prime', 'No test converts anything; the conversions feed commitments and challenges.',
     FF, [('conversions', 'field_element constructors, to_gmp_class, to_string, bit_stream, bitLen; u512b/u256b text constructors; operator %')],
     'property-based testing: round trips and GMP differential', 'Boundary-biased search.', ['converted values'])
prop('C12', 'Polynomial algebra commutes with evaluation',
     'For the round polynomials of degree one to five, evaluating a sum or product equals adding or multiplying the evaluations, at every point.',
     ['inputs'], 'all coefficient vectors and points', 'Polynomials are never tested directly and several degrees are only used by the zero-knowledge program, which the tests do not build.',
     ['src/linear_gkr/polynomial.cpp', 'include/linear_gkr/polynomial.h'], [('operators and eval', 'linear_poly, quadratic_poly, cubic_poly, quadruple_poly, quintuple_poly')],
     'property-based testing: algebraic laws against GMP Horner evaluation', 'Search over coefficients and points.', ['polynomial values'])
prop('C13', 'Provers and verifiers stay inside their memory',
     'On every circuit of the documented format, reading, evaluating, proving and verifying never read or write outside allocated memory, never use freed or mismatched allocations, and execute no undefined arithmetic.',
     ['inputs', 'programs', 'configurations'], 'all circuits of the documented format, copy counts including one', 'The tests run without sanitizers; an out-of-range access of zeroed heap passes unnoticed.',
     LF + TF + BF, [('array sizing', 'init_array, read_circuit, evaluate'), ('index computations', 'all phase functions')],
     'property-based testing under AddressSanitizer and UndefinedBehaviorSanitizer', 'Same generators as C02/C06/C08/C10 in instrumented builds; leaks are not judged.', ['sanitizer reports'])

exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None
NA = globals().get('NA', [])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup',
           hooks=dict(guard='none', enable='No hooks: the harnesses compile /repo sources unchanged, with the prover type replaced by a subclass.', source_commits=[]),
           checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                        technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if p['id'] not in [n['property'] for n in NA]],
           not_applicable=NA,
           notes='Engine: harness/pbt.h (generation, isolation, shrinking, replay). VERIF_SEED selects all random choices. Fixed and known defects: known_findings.json.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
