#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]     decide one property on /repo's current tree
   check.py --replay <file>                 run a recorded failing input again
   check.py --setup                         build everything once"""
import fcntl, glob, hashlib, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
TARGET = os.path.join(BUILD, 'target')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
T0 = time.time()


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build
def env():
    e = dict(os.environ)
    e.update(RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    e.pop('RUSTFLAGS', None)
    return e


def forget():
    """make cargo look at /repo's current files whatever their time stamps say"""
    for p in glob.glob(TARGET + '/debug/.fingerprint/financelib-*') + glob.glob(TARGET + '/debug/.fingerprint/driver-*'):
        shutil.rmtree(p, ignore_errors=True)


def build_mir():
    os.makedirs(BUILD, exist_ok=True)
    forget()
    for p in glob.glob(TARGET + '/debug/deps/financelib-*.mir'):
        os.remove(p)
    r = subprocess.run(['cargo', 'rustc', '--offline', '--locked', '-p', 'financelib', '--lib', '--', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no',
                        '-Zub-checks=no', '-Cdebug-assertions=off', '-Coverflow-checks=on', '--emit=mir'],
                       cwd=os.path.join(HERE, 'driver'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = glob.glob(TARGET + '/debug/deps/financelib-*.mir')
    if r.returncode or len(out) != 1:
        say(r.stdout[-3000:])
        return None
    dst = os.path.join(BUILD, 'financelib.mir')
    shutil.copy(out[0], dst)
    return dst


def start_driver():
    forget()
    return subprocess.Popen(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(HERE, 'driver'), env=env(),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


DRIVER = TARGET + '/debug/driver'


# ---------------------------------------------------------------- workers
ENG = None
CON = {}
LEM = {}


def load(mir):
    global ENG, CON, LEM
    from mirver import engine as E
    from spec import props
    CON, LEM = props.contracts(), props.LEMMAS
    ENG = E.Engine(mir, REPO)
    ENG.contracts = {c.key: c for c in CON.values() if c.modular and not c.inputs and c.name == c.key}


def t_verify(name, scale):
    from mirver import vc
    c = CON[name]
    if scale != 1:
        lim = dict(c.lim)
        lim['z3_ms'] = int(lim.get('z3_ms', vc.LIM['z3_ms']) * scale)
        lim['deadline'] = lim.get('deadline', vc.LIM['deadline']) * scale
        c.lim = lim
    r = vc.verify(ENG, c, stop=True)
    return {'ok': bool(r.ok), 'error': r.error, 'vacuous': r.vacuous, 'time': r.time, 'used': sorted(r.used), 'inlined': sorted(r.inlined),
            'models': sorted(r.models), 'obls': [(o.name, bool(o.ok), o.how, (o.detail or '')[:4000], o.time) for o in r.obls]}


def t_lemma(name, scale):
    from mirver import vc
    r = vc.lemma(ENG, LEM[name], scale)
    return {'ok': bool(r.ok), 'error': r.error, 'vacuous': r.vacuous, 'time': r.time, 'used': [], 'inlined': [], 'models': [],
            'obls': [(o.name, bool(o.ok), o.how, (o.detail or '')[:4000], o.time) for o in r.obls]}


def t_search(name, seed, budget, count):
    from mirver import replay
    drv = replay.Driver(DRIVER)
    try:
        tried, adm, bad, sample = replay.search(ENG, drv, CON[name], seed, budget, count)
    finally:
        drv.stop()
    return {'tried': tried, 'admissible': adm, 'bad': bad, 'sample': sample}


def worker(conn, fn, args, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        conn.send(('ok', fn(*args)))
    except MemoryError:
        conn.send(('err', 'out of memory'))
    except BaseException as e:
        conn.send(('err', '%s: %s' % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-900:]))
    finally:
        conn.close()


class Pool:
    """at most n processes, each with a time limit; done(tag, result) is called in the parent"""

    def __init__(self, n=8):
        self.n, self.todo, self.run = n, [], []

    def add(self, tag, fn, args, limit, cb):
        self.todo.append((tag, fn, args, limit, cb))

    def step(self):
        while self.todo and len(self.run) < self.n:
            tag, fn, args, limit, cb = self.todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(b, fn, args, 5 << 30), daemon=True)
            p.start()
            b.close()
            self.run.append((tag, p, a, time.time() + limit, cb))
        mp.connection.wait([x[2] for x in self.run], 0.5)
        for x in list(self.run):
            tag, p, a, end, cb = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = ('err', 'worker died')
            elif time.time() > end:
                r = ('err', 'time limit')
            if r is not None:
                self.run.remove(x)
                p.kill()
                p.join()
                a.close()
                cb(tag, r)

    def drain(self, until=None, stop=lambda: False):
        while (self.todo or self.run) and not stop() and (until is None or time.time() < until):
            self.step()
        self.cancel()

    def cancel(self):
        self.todo = []
        for tag, p, a, end, cb in self.run:
            p.kill()
            p.join()
            a.close()
        self.run = []


# ---------------------------------------------------------------- the check
def relevant(name):
    from spec import props
    return props.ASSUME.get(name, [])


def check(pid, tier):
    from spec import props
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    quick = tier != 'thorough'
    total = 800 if quick else 3000
    mir = build_mir()
    if mir is None:
        say('ERROR: /repo does not compile')
        return 2
    drv = start_driver()
    load(mir)
    say('%s [%s]: code under verification built in %.0f s' % (pid, tier, time.time() - T0))

    results, pool = {}, Pool()

    def verified(tag, r):
        kind, name, scale = tag
        if r[0] == 'err':
            res = {'ok': False, 'error': r[1], 'vacuous': False, 'time': 0, 'used': [], 'inlined': [], 'models': [], 'obls': []}
        else:
            res = r[1]
        res['kind'] = kind
        failed = [o for o in res['obls'] if not o[1]]
        if failed and scale == 1 and kind == 'contract' and any('unknown' in o[2] or 'deadline' in o[2] or 'timeout' in o[2] for o in failed) and time.time() - T0 < total / 3:
            submit(kind, name, 3)
            return
        results[name] = res
        say('  %-9s %-40s %s' % (kind, name, 'discharged %d' % len(res['obls']) if res['ok'] else
                                 'NOT DISCHARGED: ' + failed[0][0] if failed else 'undecided: ' + str(res['error'])[:160]))
        for k in res['used']:
            if k not in results and k not in pending:
                submit('contract', k, 1)

    pending = set()

    def submit(kind, name, scale):
        pending.add(name)
        pool.add((kind, name, scale), t_verify if kind == 'contract' else t_lemma, (name, scale), 240 * scale, verified)

    for n in P['contracts']:
        submit('contract', n, 1)
    for n in P.get('lemmas', []):
        submit('lemma', n, 1)
    pool.drain(until=T0 + total * 0.7)
    for n in pending - set(results):
        results[n] = {'ok': False, 'error': 'time limit', 'vacuous': False, 'time': 0, 'used': [], 'inlined': [], 'models': [], 'obls': [], 'kind': 'contract'}

    out = drv.communicate()[0]
    have_driver = drv.returncode == 0 and os.path.exists(DRIVER)
    if not have_driver:
        say('  note: the replay driver does not build against this tree\n' + out[-1500:])

    cons = [n for n in results if results[n]['kind'] == 'contract']
    failed = [n for n in results if any(not o[1] for o in results[n]['obls'])]
    undecided = [n for n in results if n not in failed and not results[n]['ok']]
    conc, found = {}, []

    def searched(tag, r):
        name = tag
        c = conc.setdefault(name, {'tried': 0, 'admissible': 0, 'error': None, 'samples': []})
        if r[0] == 'err':
            c['error'] = r[1]
            return
        c['tried'] += r[1]['tried']
        c['admissible'] += r[1]['admissible']
        if r[1]['sample'] is not None and len(c['samples']) < 2:
            c['samples'].append(r[1]['sample'])
        if r[1]['bad']:
            found.append((name, r[1]['bad']))

    if have_driver:
        # 1. failing obligations: look for an input on which the compiled code breaks the contract
        hunt = [n for n in failed if n in cons]
        rounds = 0
        while hunt and not found and rounds < (2 if quick else 4) and time.time() - T0 < total * 0.85:
            for n in hunt:
                for k in range(max(1, 8 // len(hunt))):
                    pool.add(n, t_search, (n, seed * 1000 + rounds * 100 + k, 25.0 if quick else 60.0, 10 ** 9), 120, searched)
            rounds += 1
            pool.drain(until=T0 + total * 0.95, stop=lambda: bool(found))
        # 2. bounded stand-in for what is outside the verifier's reach
        todo = [n for n in undecided if n in cons]
        for n in todo:
            for k in range(max(2, 16 // len(todo)) if quick else 16):
                pool.add(n, t_search, (n, seed * 1000 + 500 + k, 25.0 if quick else 60.0, 10 ** 9), 150, searched)
        # 3. agreement of the compiled code with the discharged contracts (checks the trusted translation)
        if not found:
            for n in cons:
                if results[n]['ok']:
                    pool.add(n, t_search, (n, seed * 1000 + 700, 2.0 if quick else 20.0, 400 if quick else 10 ** 9), 120, searched)
        pool.drain(until=T0 + total, stop=lambda: bool(found))

    viol = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if found:
        name, (js, outc, d) = found[0]
        p = os.path.join(rdir, '%s.json' % pid)
        obl = [o for o in results[name]['obls'] if not o[1]]
        json.dump({'property': pid, 'contract': name, 'failed_obligation': obl[0][0] if obl else None, 'args': js, 'outcome': outc, 'difference': d,
                   'verifier': obl[0][3] if obl else None}, open(p, 'w'), indent=1)
        say('  %s: %s' % (name, d))
        viol.append((p, True))
    elif failed:
        name = failed[0]
        obl = [o for o in results[name]['obls'] if not o[1]]
        p = os.path.join(rdir, '%s.json' % pid)
        json.dump({'property': pid, 'contract': name, 'failed_obligation': obl[0][0], 'verdict': obl[0][2], 'verifier': obl[0][3],
                   'searched': conc.get(name)}, open(p, 'w'), indent=1)
        viol.append((p, False))
    evidence(pid, tier, seed, P, results, conc, undecided, failed, viol, have_driver)
    for p, inp in viol:
        say('VIOLATION property=%s replay=%s%s' % (pid, p, '' if inp else ' no-failing-input-found'))
    if viol:
        return 1
    n = sum(len(r['obls']) for r in results.values())
    if n == 0 or any(r['vacuous'] for r in results.values()):
        say('ERROR: no obligations or an unsatisfiable precondition')
        return 2
    bad = [u for u in undecided if not conc.get(u, {}).get('admissible')]
    if bad:
        say('ERROR: neither decided nor explored: ' + ', '.join(bad))
        return 2
    say('%s: %d obligations discharged, %d functions under contract, %d bounded; %.0f s' % (
        pid, n, len([c for c in cons if results[c]['ok']]), len(undecided), time.time() - T0))
    return 0


def evidence(pid, tier, seed, P, results, conc, undecided, failed, viol, have_driver):
    from spec import props
    how, st = {}, 0.0
    obls = [o for r in results.values() for o in r['obls']]
    for o in obls:
        h = o[2].split(':')[0]
        how[h] = how.get(h, 0) + 1
        st += o[4]
    cons = {n: r for n, r in results.items() if r['kind'] == 'contract'}
    cov = {
        'obligations': len(obls), 'discharged': len([o for o in obls if o[1]]),
        'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
        'trusted_base': props.TRUSTED,
        'obligations_by_back_end': how, 'solver_seconds': round(st, 2),
        'functions_under_contract': {n: {'obligations': len(r['obls']), 'seconds': round(r['time'], 2), 'proved': r['ok']} for n, r in sorted(cons.items())},
        'lemmas': {n: {'obligations': len(r['obls']), 'proved': r['ok']} for n, r in sorted(results.items()) if r['kind'] == 'lemma'},
        'inlined_functions': sorted({x for r in results.values() for x in r['inlined']}),
        'library_contracts_assumed': sorted({x for r in results.values() for x in r['models']}),
        'bounded_not_proved': {u: {'why': str(results[u]['error'])[:300], **{k: v for k, v in conc.get(u, {}).items() if k in ('tried', 'admissible')}} for u in undecided},
        'evaluations': sum(c['tried'] for c in conc.values()),
        'admissible_evaluations': sum(c['admissible'] for c in conc.values()),
        'concrete_agreement': {n: {k: c[k] for k in ('tried', 'admissible', 'error')} for n, c in sorted(conc.items())},
        'samples': [{'contract': n, 'input': s[0], 'outcome': s[1]} for n, c in sorted(conc.items()) for s in c['samples'][:1]][:6],
        'failed_obligations': [{'contract': n, 'obligation': o[0], 'verdict': o[2]} for n in failed for o in results[n]['obls'] if not o[1]],
        'replay_driver_built': have_driver,
    }
    e = {'property': pid, 'tier': tier if tier == 'thorough' else 'quick', 'seed': seed, 'level': 'proof', 'coverage': cov,
         'assumptions': props.ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - T0, 1),
         'violations': len(viol),
         'replays': [{'replay': p, 'failing_input': i} for p, i in viol]}
    os.makedirs(EVID, exist_ok=True)
    s = json.dumps(e, indent=1, default=str)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        f.write(s)


def replay_file(path):
    j = json.load(open(path))
    if 'args' not in j:
        say(json.dumps(j, indent=1))
        return 0
    mir = build_mir()
    d = start_driver()
    d.communicate()
    load(mir)
    from mirver import replay
    drv = replay.Driver(DRIVER)
    c = CON[j['contract']]
    case = replay.Case(ENG, c)
    args = case.unjson(j['args'])
    out = drv.call(c.name, j['args'])
    say('admissible:', case.admissible(args))
    say('outcome:', json.dumps(out)[:2000])
    say('difference:', case.check(args, out))
    drv.stop()
    return 0


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)          # runs share the build directory
    global T0
    T0 = time.time()
    if a[:1] == ['--setup']:
        ok = build_mir()
        d = start_driver()
        out = d.communicate()[0]
        say('built' if ok and d.returncode == 0 else out[-2000:])
        return 0 if ok else 1
    if a[:1] == ['--replay']:
        return replay_file(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
