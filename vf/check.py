"""Decide one property: prove its contracts on the current source, and look for an input where a proof fails."""
import json, multiprocessing, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
CPUS = min(8, os.cpu_count() or 1)

TRUSTED = [
    'rustc (nightly) up to MIR: the verified text is the MIR rustc builds from the current source of /repo at mir-opt-level 0',
    'mirdump: the translation of that MIR to JSON; what it drops: unwinding paths, storage markers, lifetimes, debug information',
    'vf: the translation of MIR to verification conditions (/verif/vf), and the models of library functions listed under library_models',
    'z3 and cvc5',
    'Allocator implementations return a fresh, suitably sized and aligned block or do not return',
    'Clone, PartialEq, PartialOrd, Hash and iterator implementations of a caller return (or panic) without touching the container',
    'a panic ends the program: unwinding through a container is not covered',
    'blocks hold values of one type (or raw bytes), and pointers are (block, element) pairs: no address arithmetic across blocks',
    'element types are not zero-sized; machine integers are mathematical integers with an overflow obligation at each operation',
]


def sh(cmd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)


def build_tools():
    r = sh(['cargo', '+nightly', 'build', '-q', '--offline', '--manifest-path', HERE + '/mirdump/Cargo.toml'],
           {'CARGO_TARGET_DIR': HERE + '/mirdump/target'})
    if r.returncode:
        raise SystemExit('mirdump does not build\n' + r.stdout)


def dump():
    out = os.path.join(BUILD, 'mir.json')
    os.makedirs(BUILD, exist_ok=True)
    r = sh([HERE + '/bin/dump.sh', out, REPO])
    if r.returncode:
        raise SystemExit('the MIR of /repo cannot be built\n' + r.stdout)
    return out


def build_replay():
    env = {'CARGO_TARGET_DIR': BUILD + '/replay'}
    man = HERE + '/replay/Cargo.toml'
    if REPO != '/repo':
        d = BUILD + '/replay-src'
        sh(['rm', '-rf', d])
        sh(['cp', '-a', HERE + '/replay', d])
        t = open(d + '/Cargo.toml').read().replace('"/repo"', '"%s"' % REPO)
        open(d + '/Cargo.toml', 'w').write(t)
        for f in ('/src/links.rs', '/src/main.rs'):
            t = open(d + f).read().replace('"/repo/', '"%s/' % REPO)
            open(d + f, 'w').write(t)
        man = d + '/Cargo.toml'
    # the private source files it compiles may have come to need the rest of the crate
    for feat in (['links,pools'], ['links'], ['pools'], []):
        r = sh(['cargo', 'build', '-q', '--offline', '--manifest-path', man] + ['--features'] * len(feat) + feat, env)
        if not r.returncode:
            break
    if r.returncode:
        print('the replay harness does not build against /repo: nothing is executed\n' + r.stdout[-2000:])
        return None
    return BUILD + '/replay/debug/replay'


# ---------------------------------------------------------------- proofs
_G = {}


def _none(a, why, t):
    return {'key': a[0], 'variant': a[1], 'status': 'undecided', 'reason': why, 'obls': [], 'time': t,
            'solver': 0, 'paths': 0, 'trusted': [], 'used': [], 'inlined': [], 'modelled': [], 'file': None, 'line': None}


def _job(a):
    key, variant, timeout, budget = a
    from .contracts import verify
    t = time.time()
    try:
        r = verify(_G['prog'], _G['spec'], key, timeout, variant, budget)
    except Exception as e:            # a gap in the engine decides nothing
        import traceback
        return _none(a, 'engine: %s' % traceback.format_exc()[-600:], time.time() - t)
    return {'key': key, 'variant': variant, 'status': r.status, 'reason': r.reason, 'time': r.time, 'solver': r.solver, 'paths': r.paths,
            'obls': [{'name': o.name, 'line': o.line, 'status': o.status, 'backend': o.backend, 'kind': o.kind, 'time': o.time,
                      'detail': o.detail if o.status != 'proved' else None} for o in r.obls],
            'trusted': sorted(r.trusted), 'used': sorted(map(str, r.used)), 'inlined': sorted(map(str, r.inlined)), 'modelled': sorted(map(str, getattr(r, 'modelled', []))),
            'file': r.file, 'line': r.line}


def prove(prog, spec, jobs, timeout, budget, limit):
    _G['prog'], _G['spec'] = prog, spec
    work = [(k, v, timeout, budget) for k, v in jobs]
    out, end = [], time.time() + limit
    with multiprocessing.get_context('fork').Pool(min(CPUS, len(work)), maxtasksperchild=4) as pool:
        # the largest first
        todo = [(w, pool.apply_async(_job, (w,))) for w in sorted(work, key=lambda w: -len(prog.fns[prog.roots[w[0]]].get('body') or ()))]
        for w, h in todo:
            try:
                out.append(h.get(max(0.1, end - time.time())))
            except multiprocessing.TimeoutError:
                out.append(_none(w, 'not done within %d s' % limit, limit))
        pool.terminate()
    return out


# ---------------------------------------------------------------- replay
def search(exe, suite, kinds, seed, seconds, chunk, first=0):
    """run cases of a suite for a while; the first failing case, and how much was run"""
    t0 = time.time()
    nxt, running, stats, fails = first, [], {'cases': 0, 'ops': 0, 'nontrivial': 0}, []
    while True:
        while len(running) < CPUS and not fails and time.time() - t0 < seconds:
            p = subprocess.Popen([exe, suite, str(seed), str(nxt), str(chunk), '--kinds=' + kinds], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
            running.append((p, nxt, time.time()))
            nxt += chunk
        if not running:
            break
        p, first, began = running.pop(0)
        try:
            out = p.communicate(timeout=max(0.5 if fails else 5, 60 - (time.time() - began)))[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out = 'FAIL Hang %d no answer' % first
        m = re.search(r'^FAIL (\w+) (\d+) (.*)$', out, re.M)
        if m:
            fails.append((int(m.group(2)), m.group(1), m.group(3)))
            continue
        m = re.search(r'^OK cases=(\d+) ops=(\d+) busy=(\d+)', out, re.M)
        if m:
            stats['cases'] += int(m.group(1))
            stats['ops'] += int(m.group(2))
            stats['nontrivial'] += int(m.group(3))
        else:
            fails.append((first, 'Crash', 'the harness ended with code %s' % p.returncode))
    return (min(fails) if fails else None), stats


def trace(exe, suite, kinds, seed, case):
    try:
        r = subprocess.run([exe, suite, str(seed), str(case), '1', '--trace', '--kinds=' + kinds], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60)
        return r.stdout
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


# ---------------------------------------------------------------- known findings
def known(pid):
    out = []
    try:
        for l in open(HERE + '/known-findings.txt'):
            m = re.match(r'known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build_tools()
    mir = dump()
    from .prog import Prog
    from .spec import Spec
    from .specs import load
    from .props import PROPS, RELEVANT
    prop = PROPS[pid]
    prog = Prog(mir)
    spec = Spec(prog)
    load(spec)
    jobs, absent = [], []
    for k in prop.functions(spec):
        if k not in prog.roots:
            absent.append(k)
            continue
        for v in spec.contract(k).variants():
            jobs.append((k, v))
    # a first look by execution: where it finds a failing input, the proofs need not try as hard
    every = tier == 'thorough'
    kinds = prop.kinds
    exe = build_replay()
    runs = []

    def execute(seconds, first=0):
        for suite in prop.suites if exe else []:
            f, st = search(exe, suite, kinds, seed, seconds / max(1, len(prop.suites)) + 0.5, 2000 if suite not in ('deque', 'hash_map') else 700, first)
            runs.append({'suite': suite, 'kinds': kinds, **st})
            if f:
                return (suite,) + f
        return None
    fail = execute(40 if every else 2)
    timeout, budget = (20000, 300) if tier == 'quick' else (40000, 600)
    if fail:
        timeout, budget = 5000, 60
    t_first = time.time()
    res = prove(prog, spec, jobs, timeout, budget, (420 if tier == 'quick' else 2400) if not fail else 100)
    relevant = RELEVANT[prop.cat]
    bad, soft, open_fns = [], [], []
    nobl = ndis = 0
    for r in res:
        f = [o for o in r['obls'] if o['status'] != 'proved' and relevant(o)]
        o = [o for o in r['obls'] if relevant(o)]
        nobl += len(o)
        ndis += len(o) - len(f)
        name = r['key'] + ('' if r['variant'] is None else ' [%s]' % (r['variant'],))
        if r['status'] == 'undecided':
            nobl += 1
            open_fns.append('%s: %s' % (name, r['reason']))
        part = spec.contract(r['key']).bounded if prop.cat in ('sem', 'all') else None
        if part:
            open_fns.append('%s: %s' % (name, part))
        for x in f:
            (bad if x['status'] == 'failed' else soft).append((name, r, x))
    for l in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    t_proof = time.time() - t_first
    # a deeper search where a proof is missing
    if not fail and (bad or soft or open_fns):
        fail = execute(500 if every else 25, 10 ** 7)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    vpath = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    violated = False
    line = None
    obl_text = ''
    for name, r, x in (bad + soft)[:12]:
        obl_text += 'obligation not discharged (%s, %s): %s\n  in %s (%s:%s)\n' % (x['status'], x['backend'], x['name'], name, r['file'], x['line'])
    for name, r, x in (bad + soft)[:3]:
        obl_text += '\nverifier output for "%s" in %s:\n%s\n' % (x['name'], name, json.dumps(x['detail'], indent=1)[:6000])
    for s in open_fns:
        obl_text += 'undecided: %s\n' % s
    if fail:
        suite, case, kind, msg = fail
        violated = True
        tr = trace(exe, suite, kinds, seed, case)
        head = ('property %s is violated\nfailing input, on the real code: case %d of suite %s with seed %d (%s: %s)\n'
                'reproduce: CARGO_TARGET_DIR=/verif/.build/replay cargo run -q --offline --manifest-path /verif/replay/Cargo.toml -- %s %d %d 1 --trace\n\noperations:\n%s\n\n'
                % (pid, case, suite, seed, kind, msg, suite, seed, case, tr))
        open(vpath, 'w').write(head + obl_text)
        line = 'VIOLATION property=%s replay=%s' % (pid, vpath)
    elif bad:
        violated = True
        open(vpath, 'w').write('property %s: an obligation that follows from the property fails on the current source; no failing input was found\n\n%s' % (pid, obl_text))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, vpath)
    backends = {}
    for r in res:
        for o in r['obls']:
            if relevant(o) and o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    proved = [r for r in res if r['status'] == 'proved']
    under = {r['key'] for r in res}
    others = sorted(k for k in prog.roots if k not in under and k not in spec.contracts and prop.files and (prog.fns[prog.roots[k]].get('file') or '').endswith(tuple(prop.files)))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'cd /verif && bin/check %s' % pid,
            'trusted_base': TRUSTED + sorted({t for r in res for t in r['trusted']}) + prop.assumptions,
            'functions_under_contract': len(under), 'functions_proved': len({r['key'] for r in proved}),
            'by_back_end': backends, 'solver_s': round(sum(r['solver'] for r in res), 2),
            'functions': [{'fn': r['key'], 'variant': r['variant'], 'status': r['status'], 'obligations': len(r['obls']), 'paths': r['paths'], 's': round(r['time'], 2), 'inlined': r['inlined'], 'contracts_used': r['used']} for r in res],
            'library_models': sorted({m for r in res for m in r['modelled']}),
            'undecided': open_fns, 'unknown': ['%s: %s' % (n, x['name']) for n, _, x in soft],
            'absent': absent, 'functions_without_contract': others,
            'bounded_execution': {'counted_as_proof': False, 'what': 'random operation sequences on the real code against a model; it stands in for undecided functions and cross-checks the library models', 'runs': runs},
            'explanation': 'every function below is verified against its contract, for all inputs and without bounds, from the MIR of the current source; undecided ones are only covered by bounded_execution',
            'evaluations': sum(x['cases'] for x in runs), 'distinct_nontrivial': sum(x['nontrivial'] for x in runs),
            'rule': 'cases are operation sequences drawn from (seed, case number); non-trivial: more than 3 operations',
            'samples': [{'fn': r['key'], 'obligation': r['obls'][-1]['name'], 'line': r['obls'][-1]['line'], 'back_end': r['obls'][-1]['backend']} for r in res[:5] if r['obls']],
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': int(violated),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d functions (%d proved), %.1f s proof; %d cases executed, %.1f s' % (
        pid, ndis, nobl, len(under), len({r['key'] for r in proved}), t_proof, sum(x['cases'] for x in runs), time.time() - t0))
    for s in open_fns:
        print('  undecided (bounded execution only): ' + s[:300])
    for n, _, x in soft:
        print('  unknown: %s: %s' % (n, x['name']))
    for n, _, x in bad[:10]:
        print('  failed: %s: %s (line %s)' % (n, x['name'], x['line']))
    if line:
        print(line)
        sys.exit(1)


if __name__ == '__main__':
    main()
