#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, explores, replays, writes evidence.

  check.py Cxx [--tier quick|thorough]      exit 0 held / exit 1 + VIOLATION line
  check.py --replay FILE                    re-runs one recorded violation
"""
import sys, os, json, subprocess, hashlib, glob, time, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PO_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS

OUT = os.path.join(VERIF, 'out')
CACHE = os.path.join(OUT, 'build')
BASE = ['-std=gnu++17', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + os.path.join(REPO, 'include'),
        '-I' + os.path.join(VERIF, 'mc'), '-DMC_REPO="%s"' % REPO]


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


def tree_hash(extra):
    h = hashlib.sha256()
    fs = sources() + sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.[hi]pp'), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, 'include', '**', '*.*pp'), recursive=True)) + extra
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as i:
            h.update(i.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def build(c):
    """returns the path of the harness binary for check c"""
    flags = BASE + c.get('flags', ['-O1'])
    hsrc = [os.path.join(VERIF, 'harness', f) for f in c['harness']]
    dep = hsrc + sorted(glob.glob(os.path.join(VERIF, 'mc', '*')))
    key = hashlib.sha256((tree_hash(dep) + repr(c)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, key)
    exe = os.path.join(d, 'harness')
    if os.path.exists(exe):
        os.utime(d)
        return exe
    os.makedirs(CACHE, exist_ok=True)
    old = sorted(glob.glob(os.path.join(CACHE, '*')), key=os.path.getmtime)
    for o in old[:-60]:
        shutil.rmtree(o, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
    cxx = c.get('cxx', 'g++')
    jobs = []
    lib = sources() if c.get('lib', True) else []
    for s in hsrc + lib:
        o = os.path.join(tmp, os.path.basename(s) + ('.h' if s in hsrc else '.l') + '.o')
        fl = list(flags)
        if os.path.basename(s) in c.get('plain', []):
            pass
        elif s in hsrc:
            fl += c.get('hflags', [])
        else:
            fl += c.get('lflags', [])
        jobs.append((s, o, [cxx] + fl + ['-c', s, '-o', o]))

    def one(j):
        r = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return (j, r)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        rs = list(ex.map(one, jobs))
    for j, r in rs:
        if r.returncode:
            sys.stderr.write('compiling %s failed:\n%s\n' % (j[0], r.stdout[-4000:]))
            raise BuildError(j[0])
    r = subprocess.run([cxx] + flags + [j[1] for j in jobs] + ['-o', os.path.join(tmp, 'harness')] + c.get('ldflags', []) + ['-lpthread'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        sys.stderr.write('linking failed:\n%s\n' % r.stdout[-4000:])
        raise BuildError('link')
    for j in jobs:
        os.unlink(j[1])
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


ENV = None


def env(c):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    e['LC_ALL'] = 'C'
    e['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_odr_violation=0:handle_abort=1'
    e['LSAN_OPTIONS'] = 'exitcode=98:report_objects=0'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=1:exitcode=99'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99:report_signal_unsafe=0'
    e.update(c.get('env', {}))
    return e


def load_known(prop):
    """known_findings.txt: 'known: property=<id> <key>' lists a finding, 'fixed: ...' suppresses nothing"""
    ks = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: property=%s ' % prop):
                ks.append(l.rstrip('\n').split(' ', 2)[2])
    return ks


def replay(exe, c, args, timeout):
    """one fresh process; returns list of failure dicts, 'crash'/'hang' as pseudo failures"""
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env(c))
    except subprocess.TimeoutExpired:
        return [{'how': 'hang', 'desc': '', 'expected': 'termination', 'actual': 'no termination in %ds' % timeout}]
    fs = []
    for l in r.stdout.decode('utf8', 'replace').splitlines():
        if l.startswith('{"idx"'):
            try:
                fs.append(json.loads(l))
            except ValueError:
                pass
    if r.returncode not in (0, 1):
        err = r.stderr.decode('utf8', 'replace')
        fs.append({'how': 'crash', 'desc': '', 'expected': 'normal termination', 'actual': 'exit %d\n%s' % (r.returncode, err[:6000])})
    return fs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--max-wall', type=float, default=0)
    a = ap.parse_args()
    if a.replay:
        j = json.load(open(a.replay))
        c = CHECKS[j['property']][j['part']]
        exe = build(c)
        args = ['--thorough'] if j['tier'] == 'thorough' else []
        fs = replay(exe, c, args + j['args'], 600)
        for f in fs:
            print('%s\n  input:    %s\n  expected: %s\n  actual:   %s' % (f['how'], f['desc'], f['expected'], f['actual']))
        print('REPRODUCED' if fs else 'NOT REPRODUCED')
        return 1 if fs else 0

    prop, tier = a.prop, a.tier
    t0 = time.time()
    known = load_known(prop)
    rundir = tempfile.mkdtemp(prefix='%s-' % prop, dir=(os.makedirs(OUT, exist_ok=True) or OUT))
    agg = dict(states=0, transitions=0, traces=0, cases=0, outcomes=0, capped=False, total=0)
    spaces, samples, knownhit, viol, assumptions, unrep = [], [], set(), [], [], []
    try:
        for part, c in enumerate(CHECKS[prop]):
            if tier == 'quick' and c.get('thorough_only'):
                continue
            exe = build(c)
            assumptions += c.get('assumptions', [])
            out = os.path.join(rundir, 'p%d' % part)
            kf = os.path.join(rundir, 'known')
            with open(kf, 'w') as f:
                f.write(''.join(k + '\n' for k in known))
            args = ['--thorough'] if tier == 'thorough' else []
            wall = a.max_wall or (600 if tier == 'quick' else 6 * 3600)
            if c.get('own_driver'):
                cmd = [exe] + args + ['--out', out, '--known', kf]
            else:
                cmd = [exe] + args + ['--out', out, '--known', kf, '--max-wall', str(wall)]
            with open(out + '.stderr', 'wb') as ef:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env(c))
            if r.returncode != 0:
                sys.stderr.write(open(out + '.stderr', errors='replace').read()[-3000:])
                raise RuntimeError('harness driver exited with %d' % r.returncode)
            st, oc = open(out + '.sets').read().split()
            agg['states'] += int(st)
            agg['outcomes'] += int(oc)
            cand = []
            for w in range(64):
                sf = out + '.sh.%d' % w
                if os.path.exists(sf):
                    for l in open(sf, errors='replace'):
                        k, _, v = l.rstrip('\n').partition(' ')
                        if k == 'cases':
                            agg['cases'] += int(v)
                        elif k in ('transitions', 'traces'):
                            agg[k] += int(v)
                        elif k in ('capped', 'hcapped'):
                            agg[k] = agg.get(k, False) or v == '1'
                        elif k == 'space':
                            n, _, nm = v.partition(' ')
                            nm, _, bd = nm.partition('\t')
                            for s in spaces:
                                if s['space'] == nm and s['part'] == c['harness'][0]:
                                    s['cases'] += int(n)
                                    break
                            else:
                                spaces.append({'space': nm, 'bounds': bd, 'cases': int(n), 'part': c['harness'][0]})
                        elif k == 'sample' and len(samples) < 24:
                            s = json.loads(v)
                            if s not in samples:
                                samples.append(s)
                        elif k == 'known':
                            knownhit.add(json.loads(v))
                ff = out + '.fail.%d' % w
                if os.path.exists(ff):
                    for l in open(ff, errors='replace'):
                        try:
                            cand.append(json.loads(l))
                        except ValueError:
                            pass
            ev = []
            for l in open(out + '.events', errors='replace'):
                kind, w, idx, running, rest = l.rstrip('\n').split(' ', 4)
                dec = json.JSONDecoder()
                why, e = dec.raw_decode(rest)
                try:
                    desc, _ = dec.raw_decode(rest[e:].strip())
                except ValueError:
                    desc = ''
                ev.append(dict(how=kind, shard=int(w), idx=int(idx), running=int(running), why=why, desc=desc))
            # replay before report: smallest case first
            cand.sort(key=lambda f: f['idx'])
            todo = cand[:4] + ev[:3]
            for f in todo:
                if len(viol) >= 3:
                    break
                ok = None
                seq = []
                if c.get('replay_args'):
                    seq.append((c['replay_args'](f), 300))
                else:
                    seq.append((['--only', str(f['idx'])], 120))
                    for back in (16, 512, 1 << 15, 1 << 40):
                        seq.append((['--hist', str(f['shard']), str(max(1, f['idx'] - back * 8)), str(f['idx'])], 700))
                for ra, to in seq:
                    if time.time() - t0 > (800 if tier == 'quick' else 1e9):
                        break
                    fs = replay(exe, c, args + ['--known', kf] + ra, min(to, 60) if f['how'] == 'hang' and '--only' in ra else to)
                    if fs:
                        ok = (ra, fs)
                        break
                if ok is None and f['how'] not in ('crash', 'hang'):
                    # seen once but not again: report only what can be reproduced
                    unrep.append(f)
                    continue
                if ok is None:
                    unrep.append(f)
                    continue
                ra, fs = ok
                x = fs[0]
                if not x.get('desc'):
                    x['desc'] = f.get('desc', '')
                viol.append(dict(property=prop, part=part, tier=tier, args=ra, idx=f['idx'], how=x['how'], input=x['desc'],
                                 expected=x['expected'], actual=x['actual'],
                                 note='args: --only N is a single case, --hist SHARD FROM TO is a history of cases in one process',
                                 replay_cmd='python3 check.py --replay <this file>'))
            if viol:
                break
    finally:
        shutil.rmtree(rundir, ignore_errors=True)

    rc = 0
    for n, v in enumerate(viol):
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        p = os.path.join(OUT, 'replay', '%s-%d.json' % (prop, n))
        json.dump(v, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, VERIF)))
        print('  %s: %s\n  expected: %s\n  actual:   %s' % (v['how'], v['input'][:1500], v['expected'][:1500], v['actual'][:3000]))
        rc = 1
    for f in unrep[:3]:
        print('NOTE: property=%s a disagreement did not recur on replay and is not reported: %s %s' % (prop, f['how'], f.get('desc', '')[:300]))
    for k in known:
        if k in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ncap = agg['capped'] and not viol
    level = CHECKS[prop][0].get('level', 'model_checking')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'states': agg['states'], 'transitions': agg['transitions'], 'traces_validated_against_impl': agg['traces'],
            'evaluations': agg['cases'], 'distinct_nontrivial': agg['outcomes'],
            'rule': 'cases are all elements of the listed spaces in enumeration order; distinct_nontrivial counts distinct observed outcomes (result or error, hashed)',
            'exhaustive': not ncap and not viol, 'spaces': spaces, 'samples': samples[:16],
            'hash_sets_capped': bool(agg.get('hcapped')),
            'unreproduced_disagreements': len(unrep),
        },
        'assumptions': sorted(set(assumptions)), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs%s violations=%d' % (
        prop, tier, agg['cases'], agg['states'], agg['transitions'], agg['traces'], agg['outcomes'], time.time() - t0,
        ' CAPPED' if ncap else '', len(viol)))
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('build error: %s' % e)
        sys.exit(2)
