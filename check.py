#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, generates cases, writes evidence.

usage: check.py ID [--tier quick|thorough] [--budget SECONDS]    exit 0: held on everything explored; exit 1: VIOLATION
       check.py --replay ID FILE                                  re-run one saved case
       check.py --setup                                           build every harness
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('LIBRA_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, V)
from props import BINARIES, CHECKS  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(R, d) for d in ('src', 'include', 'bin', 'tests')] + [os.path.join(V, 'harness')]
    files = [os.path.join(R, f) for f in sorted(os.listdir(R)) if f.endswith(('.cpp', '.h', '.py'))]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.cpp', '.h', '.hpp', '.py', '.c', '.s', '.S', '.o'))]
    for f in files + [os.path.join(V, 'props.py')]:
        try:
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
        except OSError:
            pass
    return h.hexdigest()[:20]


def build(name, th):
    out = os.path.join(B, '%s-%s' % (name, th))
    spec = BINARIES[name]
    if os.path.exists(out):
        return out
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for f in os.listdir(B):
            if f.startswith(name + '-') and f != os.path.basename(out):
                os.unlink(os.path.join(B, f))
        tmp = out + '.tmp%d' % os.getpid()
        cmds = spec(R, V, tmp)
        if isinstance(cmds[0], str):
            cmds = [cmds]
        for c in cmds:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode:
                sys.stdout.write('BUILD FAILED: %s\n%s\n' % (' '.join(c), p.stdout[-6000:]))
                return None
        os.rename(tmp, out)
    return out


def env_for(mode):
    e = dict(os.environ)
    e['MALLOC_PERTURB_'] = '165'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['LIBRA_REPO'] = R
    return e


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        th = tree_hash()
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda n: (n, build(n, th)), BINARIES))
        bad = [n for n, o in res if not o]
        print('built %d harnesses%s' % (len(res) - len(bad), ', failed: ' + ' '.join(bad) if bad else ''))
        return 1 if bad else 0
    if a[0] == '--replay':
        th = tree_hash()
        for m in CHECKS[a[1]]['modes']:
            if os.path.basename(a[2]).startswith(m['mode'] + '.') or m['mode'] in os.path.basename(a[2]):
                tb = [build(t, th) for t in m.get('tools', [])]
                e = env_for(m); e['PBT_TOOLS'] = ':'.join(tb)
                return subprocess.run([build(m['bin'], th), '--mode', m['mode'], '--replay', a[2]], env=e).returncode
        return 2
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = CHECKS[pid]
    t0 = time.time()
    th = tree_hash()
    work = os.path.join(B, 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    total = {'quick': 240.0, 'thorough': 780.0}[tier]  # time cap; the case counts in props.py end a run well before it
    if '--budget' in a:
        total = float(a[a.index('--budget') + 1])
    wsum = sum(m.get('weight', 1) for m in spec['modes'])
    stats, viol, errors, known = [], [], [], []
    for k in known_findings():
        if k.get('property') == pid and k.get('status') == 'known':
            known.append(k)
    need = []
    for m in spec['modes']:
        for n in [m['bin']] + m.get('tools', []):
            if n not in need:
                need.append(n)
    with ThreadPoolExecutor(4) as ex:
        bins = dict(ex.map(lambda n: (n, build(n, th)), need))
    for m in spec['modes']:
        miss = [n for n in [m['bin']] + m.get('tools', []) if not bins[n]]
        if miss:
            errors.append('could not build %s' % ', '.join(miss))
            continue
        st = os.path.join(work, m['mode'] + '.stat.json')
        bud = total * m.get('weight', 1) / wsum
        cases = m.get('quick', 10 ** 5) * (1 if tier == 'quick' else m.get('factor', 12))
        if '--budget' in a:
            cases = 10 ** 9
        e = env_for(m)
        e['PBT_TOOLS'] = ':'.join(bins[t] for t in m.get('tools', []))
        cmd = [bins[m['bin']], '--mode', m['mode'], '--cases', str(cases), '--seed', str(seed), '--workers', str(m.get('workers', 8)),
               '--budget', '%.1f' % bud, '--out', work, '--stat', st]
        if m.get('nice_mem'):
            cmd = ['bash', '-c', 'ulimit -v %d; exec "$@"' % m['nice_mem'], 'x'] + cmd
        scratch = tempfile.mkdtemp(prefix='libra-check-')
        e['TMPDIR'] = scratch
        try:
            p = subprocess.run(cmd, env=e, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=bud + 400)
            sys.stdout.write(p.stdout)
            if p.returncode not in (0, 1):
                errors.append('%s ended with %d' % (m['mode'], p.returncode))
        except subprocess.TimeoutExpired:
            errors.append('%s did not end' % m['mode'])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if os.path.exists(st):
            s = json.load(open(st))
            stats.append(s)
            if s['failed']:
                dst = os.path.join(V, 'evidence', '%s-%s.case' % (pid, m['mode']))
                shutil.copy(s['replay'], dst)
                viol.append((m['mode'], s['message'], dst))
                break
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
          'coverage': {
              'evaluations': sum(s['evaluations'] for s in stats),
              'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in stats),
              'rule': '; '.join('%s: %s' % (s['mode'], s['rule']) for s in stats) or 'none run',
              'samples': [{'mode': s['mode'], 'case': x} for s in stats for x in s['samples'][:2]],
              'modes': [{k: s[k] for k in ('mode', 'evaluations', 'distinct_nontrivial', 'wall_s', 'labels')} for s in stats],
              'source_hash': th},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if errors:
        ev['coverage']['errors'] = errors
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        for mode, msg, path in viol:
            print('%s: %s' % (mode, msg))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('ERROR: ' + '; '.join(errors))
        return 2
    print('OK property=%s cases=%d distinct_nontrivial=%d wall=%.1fs' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
