"""Harness binaries and the modes that decide each property."""
CXX = ['clang++', '-w', '-O2', '-march=native', '-std=c++17']
SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
GMP = ['-lgmpxx', '-lgmp']


def _cmd(src, libs, extra=(), defs=(), san=False):
    def f(R, V, out):
        c = CXX + (SAN if san else []) + ['-I' + V + '/harness', '-I' + R + '/include']
        c += [d.replace('@R', R) for d in defs]
        c += [V + '/harness/' + src] + [R + '/' + s for s in libs]
        return c + ['-o', out] + list(extra) + GMP
    return f


PF = ['src/linear_gkr/prime_field.cpp', 'src/linear_gkr/polynomial.cpp']
LIN = dict(src='linear.cpp', libs=['src/linear_gkr/prover_fast_track.cpp'] + PF, defs=['-DSRC_VERIFIER="@R/src/linear_gkr/verifier_fast_track.cpp"'])
BCL = dict(src='trad.cpp', libs=['src/traditional_gkr/prover_clogc.cpp'] + PF, defs=['-DSRC_VERIFIER="@R/src/traditional_gkr/verifier_traditional.cpp"'])
BCC = dict(src='trad.cpp', libs=['src/traditional_gkr/prover_bc_clogc.cpp'] + PF, defs=['-DBC', '-DSRC_VERIFIER="@R/src/traditional_gkr/verifier_bc_clogc.cpp"'])
FLD = dict(src='field.cpp', libs=PF)



def _tool(src, san=False):
    def f(R, V, out):
        c = ['gcc', '-O2', '-c', V + '/harness/seed_rand.c', '-o', out + '.sr.o']
        return [c, ['g++', '-w'] + (SAN if san else ['-O2']) + ['-std=c++11', '-D_GLIBCXX_ASSERTIONS', R + '/' + src, out + '.sr.o', '-o', out], ['rm', '-f', out + '.sr.o']]
    return f


def _sha(R, V, out):
    # runs the generator as the tests do and bundles the files it writes
    return ['bash', '-c', 'set -e; d=$(mktemp -d); trap "rm -rf $d" EXIT; cd $d; for m in 1 2 3 4; do jython "$1/bin/sha256gen_merkle.py" -R -P -m $m; done; for f in *.pws; do echo "#FILE $f"; cat "$f"; done > "$2"', 'x', R, out]


def _zk(main, libs, san=False, defs=()):
    # g++: the sources use variable-length arrays of non-trivial type, which clang rejects
    def f(R, V, out):
        c = ['g++', '-w', '-std=c++14', '-msse4', '-mavx', '-maes', '-I' + V + '/harness/mock', '-I' + V + '/harness', '-I' + R + '/include'] + (SAN if san else ['-O2']) + [d.replace('@R', R) for d in defs]
        src = [V + '/harness/' + main] + [R + '/' + l for l in libs]
        cmds = ['set -e', 'd=$(mktemp -d)', 'trap "rm -rf $d" EXIT', 'pids=""']
        for i, x in enumerate(src):
            cmds.append("%s -c '%s' -o $d/%d.o & pids=\"$pids $!\"" % (' '.join("'%s'" % a for a in c), x, i))
        cmds += ['for p in $pids; do wait $p; done', "g++ %s $d/*.o -o '%s' %s" % (' '.join(SAN) if san else '', out, ' '.join(GMP))]
        return ['bash', '-c', '\n'.join(cmds)]
    return f


ZKL = ['src/linear_gkr/zk_prover.cpp'] + PF + ['src/VPD/inputvpd.cpp', 'src/VPD/vpdR.cpp', 'src/VPD/vpd_test.cpp']
ZKD = ['-DSRC_VERIFIER="@R/src/linear_gkr/zk_verifier.cpp"']
MLD = ['-DSRC_ML="@R/src/VPD/multivariate_test.cpp"']
TRACE = ['-fsanitize-coverage=trace-pc']     # counts basic blocks, see cost_count.c


def _cost(zk, defs, inst, plain=()):
    # the counted sources with -fsanitize-coverage, the counter and the ideal group without
    def f(R, V, out):
        base = (['g++', '-w', '-O2', '-std=c++14', '-msse4', '-mavx', '-maes', '-DZK', '-I' + V + '/harness/mock'] if zk else CXX) + ['-I' + V + '/harness', '-I' + R + '/include']
        jobs = [(['gcc', '-O2'], V + '/harness/cost_count.c'), (base + TRACE + [d.replace('@R', R) for d in defs], V + '/harness/cost.cpp')]
        jobs += [(base + TRACE, R + '/' + x) for x in inst] + [(base, R + '/' + x) for x in plain]
        cmds = ['set -e', 'd=$(mktemp -d)', 'trap "rm -rf $d" EXIT', 'pids=""']
        for i, (c, x) in enumerate(jobs):
            cmds.append("%s -c '%s' -o $d/%d.o & pids=\"$pids $!\"" % (' '.join("'%s'" % a for a in c), x, i))
        cmds += ['for p in $pids; do wait $p; done', "g++ $d/*.o -o '%s' %s" % (out, ' '.join(GMP))]
        return ['bash', '-c', '\n'.join(cmds)]
    return f


def _prog(n, main, ver, libs):
    return _cmd(src='prog.cpp', libs=libs + PF, defs=['-DPROG=%d' % n, '-DSRC_MAIN="@R/src/%s"' % main, '-DSRC_VERIFIER="@R/src/%s"' % ver])


BINARIES = {
    'prog1': _prog(1, 'linear_gkr/main_fast_track.cpp', 'linear_gkr/verifier_fast_track.cpp', ['src/linear_gkr/prover_fast_track.cpp']),
    'prog3': _prog(3, 'traditional_gkr/bclogc.cpp', 'traditional_gkr/verifier_traditional.cpp', ['src/traditional_gkr/prover_clogc.cpp']),
    'prog4': _prog(4, 'traditional_gkr/bc_clogc.cpp', 'traditional_gkr/verifier_bc_clogc.cpp', ['src/traditional_gkr/prover_bc_clogc.cpp']),
    'prog5': _zk('prog.cpp', ZKL, defs=['-DPROG=5', '-DSRC_MAIN="@R/src/linear_gkr/main_zk.cpp"', '-DSRC_VERIFIER="@R/src/linear_gkr/zk_verifier.cpp"']),
    'cost_lin': _cost(False, LIN['defs'], LIN['libs']), 'cost_trad': _cost(False, ['-DTRAD'] + BCL['defs'], BCL['libs']), 'cost_bc': _cost(False, BCC['defs'], BCC['libs']),
    'cost_zk': _cost(True, ZKD, ZKL[:3], ZKL[3:]),
    'gen_san': _tool('bin/gen.cpp', True), 'psdp_san': _tool('parser_sha_data_parallel.cpp', True), 'psha_san': _tool('parser_sha.cpp', True), 'planczos_san': _tool('parser_lanczos.cpp', True),
    'transcript': _zk('transcript.cpp', PF), 'transcript_san': _zk('transcript.cpp', PF, san=True),
    'vpd': _zk('vpd.cpp', ZKL[3:]), 'vpd_san': _zk('vpd.cpp', ZKL[3:], san=True),
    'vpd_ml': _zk('vpd_ml.cpp', [], defs=MLD), 'vpd_ml_san': _zk('vpd_ml.cpp', [], san=True, defs=MLD),
    'zk': _zk('zk.cpp', ZKL, defs=ZKD), 'zk_san': _zk('zk.cpp', ZKL, san=True, defs=ZKD),
    'sha_pws': _sha,
    'tools': _cmd(src='tools.cpp', libs=[]), 'gen': _tool('bin/gen.cpp'), 'psdp': _tool('parser_sha_data_parallel.cpp'), 'psha': _tool('parser_sha.cpp'), 'planczos': _tool('parser_lanczos.cpp'),
    'linear': _cmd(**LIN), 'bclogc': _cmd(**BCL), 'bcclogc': _cmd(**BCC), 'field': _cmd(**FLD),
    'linear_san': _cmd(san=True, **LIN), 'bclogc_san': _cmd(san=True, **BCL), 'bcclogc_san': _cmd(san=True, **BCC), 'field_san': _cmd(san=True, **FLD),
}


def M(bin, mode, weight=1, **k):
    return dict(bin=bin, mode=mode, weight=weight, **k)


# quick: number of cases (about 20 s on 8 cores); the thorough tier runs factor (default 12) times as many
CHECKS = {
    'C01': dict(modes=[M('linear', 'linear_sound', 4, quick=400000), M('linear', 'linear_fresh', quick=200)]),
    'C02': dict(modes=[M('linear', 'linear_complete', quick=400000)]),
    'C03': dict(modes=[M('linear', 'linear_eval', quick=400000)]),
    'C04': dict(modes=[M('linear', 'linear_layout', 2, quick=300000), M('bclogc', 'bclogc_layout', quick=60000), M('bcclogc', 'bcclogc_layout', quick=40000), M('zk', 'zk_layout', 2, quick=2000)]),
    'C05': dict(modes=[M('linear', 'linear_history', quick=60000)]),
    'C06': dict(modes=[M('bclogc', 'bclogc_complete', quick=280000), M('bclogc', 'bclogc_eval', quick=250000)]),
    'C07': dict(modes=[M('bclogc', 'bclogc_sound', 4, quick=600000), M('bclogc', 'bclogc_fresh', quick=200)]),
    'C08': dict(modes=[M('bcclogc', 'bcclogc_complete', quick=200000), M('bcclogc', 'bcclogc_eval', quick=180000)]),
    'C09': dict(modes=[M('bcclogc', 'bcclogc_sound', 4, quick=440000), M('bcclogc', 'bcclogc_fresh', quick=200)]),
    'C10': dict(modes=[M('field', 'field_arith', quick=2500000)]),
    'C11': dict(modes=[M('field', 'field_conv', quick=1600000)]),
    'C12': dict(modes=[M('field', 'field_poly', quick=480000)]),
    'C13': dict(modes=[M('linear_san', 'linear_complete', 3, quick=40000), M('linear_san', 'linear_layout', quick=30000), M('linear_san', 'linear_history', quick=3000), M('linear_san', 'linear_sound', quick=20000), M('bclogc_san', 'bclogc_complete', 2, quick=30000), M('bcclogc_san', 'bcclogc_complete', 2, quick=20000), M('field_san', 'field_arith', quick=40000), M('field_san', 'field_conv', quick=70000)]),
    'C14': dict(modes=[M('tools', 'gen_semantics', quick=8000, tools=['gen'])]),
    'C15': dict(modes=[M('tools', 'pws_dp', 2, quick=6000, tools=['psdp', 'psha', 'planczos']), M('tools', 'pws_sha', quick=3000, tools=['psdp', 'psha', 'planczos']), M('tools', 'pws_lanczos', quick=3000, tools=['psdp', 'psha', 'planczos'])]),
    'C16': dict(modes=[M('tools', 'sha_block', 2, quick=100000, tools=['sha_pws']), M('tools', 'sha_tree', quick=200, tools=['sha_pws'])]),
    'C17': dict(modes=[M('zk', 'zk_complete', quick=9000)]),
    'C18': dict(modes=[M('zk', 'zk_sound', quick=22000)]),
    'C19': dict(modes=[M('vpd', 'vpd', 3, quick=25000), M('vpd_ml', 'multilinear', quick=20000)]),
    'C20': dict(modes=[M('zk', 'zk_hide', 4, quick=1500), M('zk', 'zk_masks', quick=100)]),
    'C21': dict(modes=[M('transcript', 'transcript', quick=50000)]),
    'C25': dict(modes=[M('prog1', 'prog_linear', quick=4000), M('prog3', 'prog_bclogc', quick=4000), M('prog4', 'prog_bc_clogc', quick=4000), M('prog5', 'prog_zk', quick=2000)]),
    'C26': dict(modes=[M('cost_lin', 'lin_linear', 2, quick=500), M('cost_lin', 'lin_narrow', quick=300), M('cost_lin', 'lin_fan', quick=300), M('cost_zk', 'zk_linear', 3, quick=120), M('cost_zk', 'zk_narrow', 2, quick=40), M('cost_zk', 'zk_fan', quick=100), M('vpd', 'vpd_cost', quick=1000), M('cost_trad', 'bclogc_cost', quick=80), M('cost_trad', 'bclogc_narrow', quick=200), M('cost_bc', 'bcclogc_cost', quick=50), M('cost_bc', 'bcclogc_narrow', quick=200), M('cost_lin', 'lin_deep', quick=200), M('cost_zk', 'zk_deep', quick=100), M('cost_trad', 'bclogc_deep', quick=100), M('cost_bc', 'bcclogc_deep', quick=100)]),
    'C27': dict(modes=[M('cost_zk', 'zk_succinct', quick=150), M('cost_zk', 'zk_copies', quick=150), M('cost_zk', 'zk_deep', quick=100), M('cost_zk', 'zk_narrow', 2, quick=40), M('vpd', 'vpd_cost', quick=500)]),
    'C28': dict(modes=[M('field', 'field_random', quick=2000), M('linear', 'linear_fresh', quick=400), M('bclogc', 'bclogc_fresh', quick=400), M('bcclogc', 'bcclogc_fresh', quick=400), M('vpd', 'vpd_blind', quick=300), M('zk', 'zk_masks', 2, quick=200)]),
    'C24': dict(modes=[M('zk', 'zk_record', quick=5000)]),
    'C22': dict(modes=[M('zk_san', 'zk_complete', 3, quick=800), M('zk_san', 'zk_sound', 2, quick=800), M('vpd_san', 'vpd', quick=1500), M('vpd_ml_san', 'multilinear', quick=1500), M('transcript_san', 'transcript', quick=3000)]),
    'C23': dict(modes=[M('tools', 'gen_semantics', quick=4000, tools=['gen_san']), M('tools', 'pws_dp', 2, quick=3000, tools=['psdp_san', 'psha_san', 'planczos_san']), M('tools', 'pws_sha', quick=1500, tools=['psdp_san', 'psha_san', 'planczos_san']), M('tools', 'pws_lanczos', quick=1500, tools=['psdp_san', 'psha_san', 'planczos_san'])]),
}
