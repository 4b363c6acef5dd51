#!/usr/bin/env python3-vt
"""Decide one property of /repo's current tree:  check.py C01 [--thorough] | check.py --replay FILE

Every proof unit of the property is generated from the current sources and discharged; exit 0 when nothing failed,
1 with a VIOLATION line otherwise."""
import sys, os, json, time, threading, signal, pickle, re, random, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
T0 = time.time()
TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = T0 + (600 if TIER == 'quick' else 7200)
NCPU = int(os.environ.get('VC_JOBS', 0)) or os.cpu_count() or 4
TMP = None


def describe(r):
    return {'unit': r.unit, 'paths': r.paths, 'obligations': r.obls, 'discharged': r.proved, 'seconds': round(r.secs, 2),
            'solver_seconds': round(r.solver, 2), 'limit': r.limit, 'failed': [m.what for m in r.fails],
            'unknown': [m.what for m in r.unknown], 'contracts': sorted(r.contracts), 'inlined': sorted(r.inlined),
            'models': sorted(map(str, r.models)), 'bounded': r.bounded, 'finding': None, 'tried': 0, 'status': None}


def native():
    import replay, build
    for _ in range(600):        # the parent builds it
        if os.path.exists(os.path.join(TMP, 'harness.ok')):
            return replay.Native()
        if os.path.exists(os.path.join(TMP, 'harness.failed')):
            return None
        time.sleep(.2)
    return None


def job(kind, unit, arg):
    """One unit in its own process."""
    import confirm
    from units import UNITS
    u = UNITS[unit]
    safety = arg.get('safety', False)
    out = None
    if kind == 'prove':
        b = u.budget * (1 if TIER == 'quick' else 4)
        if arg.get('budget'):
            b = min(b, arg['budget'])
        try:
            r = u.run(without=arg.get('without', ()), safety_only=safety, budget=b)
        except Exception as e:
            from verify import Result
            r = Result(unit)
            r.limit = 'internal: ' + repr(e)[:300]
            r.env = None
        out = describe(r)
        out['status'] = 'failed' if r.fails else 'undecided' if r.limit or r.unknown or not r.paths else 'proved'
    else:
        out = {'unit': unit, 'status': 'undecided', 'tried': 0, 'finding': None}
    if out['status'] == 'proved' or not hasattr(u, 'contract') or not confirm.replayable(u):
        return out
    n = native()
    if n is None:
        return out
    f = None
    secs = arg.get('secs', 20)
    if kind == 'prove' and r.fails:
        for m in r.fails[:3]:
            f = confirm.confirm(u, r.env, m, n, SEED, secs)
            if f:
                f.obligation = m.what
                break
    else:
        f = confirm.search(u, n, random.Random(f"{SEED} {unit}"), secs)
        if f:
            f.obligation = 'bounded native search (the proof was not completed)'
    out['tried'] = getattr(u, 'tried', 0)
    if f:
        t = f.trial
        out['finding'] = {'what': f.what, 'obligation': f.obligation, 'case': t.state.text(t.call)}
    n.close()
    return out


class Pool:
    def __init__(self):
        self.q = []; self.run = {}; self.res = {}; self.seq = 0

    def add(self, key, kind, unit, hard, **arg):
        self.q.append((key, kind, unit, hard, arg))

    def go(self, until):
        while self.q or self.run:
            now = time.time()
            while self.q and len(self.run) < NCPU and now < until:
                key, kind, unit, hard, arg = self.q.pop(0)
                self.seq += 1
                path = os.path.join(TMP, f'r{self.seq}')
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        sys.setrecursionlimit(20000)
                        o = job(kind, unit, arg)
                        with open(path + '.t', 'wb') as fh:
                            pickle.dump(o, fh)
                        os.rename(path + '.t', path)
                    except BaseException:
                        open(path + '.err', 'w').write(traceback.format_exc())
                        code = 1
                    finally:
                        os._exit(code)
                self.run[pid] = (key, unit, path, now + hard)
            if now >= until:
                for key, kind, unit, hard, arg in self.q:
                    self.res.setdefault(key, lost(unit, 'the time of this check was used up'))
                self.q = []
            done = []
            for pid, (key, unit, path, end) in self.run.items():
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    done.append(pid)
                    if os.path.exists(path):
                        self.res[key] = pickle.load(open(path, 'rb'))
                    else:
                        e = open(path + '.err').read()[-400:] if os.path.exists(path + '.err') else 'process ended'
                        self.res[key] = lost(unit, 'internal: ' + e)
                elif now > min(end, until + 20):
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    done.append(pid)
                    self.res[key] = lost(unit, 'time budget of this unit is used up')
            for pid in done:
                del self.run[pid]
            if not done:
                time.sleep(.02)


def lost(unit, why):
    return {'unit': unit, 'paths': 0, 'obligations': 0, 'discharged': 0, 'seconds': 0, 'solver_seconds': 0, 'limit': why, 'failed': [],
            'unknown': [], 'contracts': [], 'inlined': [], 'models': [], 'bounded': None, 'finding': None, 'tried': 0, 'status': 'undecided'}


def build_harness():
    import build
    try:
        build.harness()
        build.fplib()
        open(os.path.join(TMP, 'harness.ok'), 'w').close()
    except Exception as e:
        open(os.path.join(TMP, 'harness.failed'), 'w').write(str(e))


def main(prop):
    global TMP
    import tempfile, shutil
    os.makedirs(os.path.join(HERE, '.cache'), exist_ok=True)
    TMP = tempfile.mkdtemp(prefix='run-', dir=os.path.join(HERE, '.cache'))
    try:
        return decide(prop)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


def replay_file(prop, n, d):
    p = os.path.join(HERE, 'evidence', 'replay', f'{prop}-{n}.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    return p


def decide(prop):
    import build, props, units, verify
    from units import UNITS
    safety = prop in props.SAFETY
    all_units = props.units_of(prop)
    ks = [k for k in all_units if UNITS[k].tier == 'quick' or TIER == 'thorough']
    left_out = [k for k in all_units if k not in ks]
    th = threading.Thread(target=build_harness, daemon=True)
    th.start()
    why = None
    try:
        build.fplib()
        build.offsets()
        for m in props.modules_of(ks):
            m()
    except build.BuildError as e:
        why = 'the sources do not build for the verifier: ' + str(e)[-1500:]
    except Exception as e:
        why = 'the verifier could not read the sources: ' + repr(e)[:600]
    th.join()
    pool = Pool()
    res = {}
    if why is None:
        ks.sort(key=lambda k: -UNITS[k].weight)
        for k in ks:
            u = UNITS[k]
            hard = u.budget * (1 if TIER == 'quick' else 4) * 1.3 + 90
            pool.add(k, 'prove', k, hard, safety=safety, secs=20)
        pool.go(DEADLINE)
        res = {k: pool.res[k] for k in ks}
        second(pool, res, ks, safety)
    return report(prop, ks, left_out, res, why, safety)


def second(pool, res, ks, safety):
    """Helpers whose contract did not hold: the units that use it, with its body instead of its contract."""
    from units import UNITS, CONTRACTS
    import confirm
    for h in [k for k in ks if UNITS[k].helper and res[k]['status'] != 'proved']:
        c = UNITS[h].c()
        deps = [k for k in ks if k != h and c.dem in res[k].get('contracts', ()) and hasattr(UNITS[k], 'contract')]
        r = res[h]
        r['dependents'] = {}
        if r['finding']:
            continue
        for d in deps:
            hard = 150
            if r['status'] == 'failed':
                pool.add((h, d), 'prove', d, hard + 60, without=(c.dem,), safety=safety, budget=100, secs=25)
            else:
                pool.add((h, d), 'search', d, hard, secs=12)
        pool.go(max(DEADLINE, time.time() + 200) if TIER == 'quick' else DEADLINE)
        for d in deps:
            x = pool.res.get((h, d))
            if x:
                r['dependents'][d] = {k: x.get(k) for k in ('status', 'finding', 'failed', 'limit', 'tried')}
        if r['status'] == 'failed' and deps and all(x['status'] == 'proved' for x in r['dependents'].values()):
            r['status'] = 'absorbed'


def report(prop, ks, left_out, res, why, safety):
    import props, units
    from units import UNITS
    viol = []
    for k in ks:
        r = res.get(k)
        if not r:
            continue
        fs = [(k, r)] + [(d, x) for d, x in r.get('dependents', {}).items()]
        got = False
        for d, x in fs:
            if x.get('finding'):
                f = x['finding']
                p = replay_file(prop, len(viol) + 1, {'property': prop, 'unit': d, 'via': k, 'obligation': f['obligation'], 'difference': f['what'],
                                                      'failed': r['failed'], 'case': f['case'], 'replay': 'python3-vt check.py --replay ' +
                                                      f'evidence/replay/{prop}-{len(viol) + 1}.json'})
                viol.append((p, '', f"{d}: {f['what']}"))
                got = True
                break
        if not got and r['status'] == 'failed':
            p = replay_file(prop, len(viol) + 1, {'property': prop, 'unit': k, 'obligation': r['failed'], 'verifier': {a: b for a, b in r.items() if a != 'contracts'},
                                                  'models': r.get('countermodel')})
            viol.append((p, ' no-failing-input-found', f"{k}: {'; '.join(r['failed'][:3])}"))
    proved = [k for k in ks if res.get(k, {}).get('status') == 'proved']
    und = [k for k in ks if res.get(k, {}).get('status') in ('undecided', None)]
    contracts = {}
    for k in ks:
        r = res.get(k)
        u = UNITS[k]
        if r and hasattr(u, 'contract'):
            n = u.c().dem
            d = contracts.setdefault(n, {'units': 0, 'obligations': 0, 'discharged': 0})
            d['units'] += 1; d['obligations'] += r['obligations']; d['discharged'] += r['discharged']
    inl = sorted({f for k in ks for f in res.get(k, {}).get('inlined', ())})
    models = sorted({f for k in ks for f in res.get(k, {}).get('models', ())})
    used = sorted({f for k in ks for f in res.get(k, {}).get('contracts', ())} - set(contracts))
    ob = sum(r['obligations'] for r in res.values()); di = sum(r['discharged'] for r in res.values())
    cov = {
        'obligations': ob, 'discharged': di, 'checker_cmd': f'cd /verif && python3-vt check.py {prop}' + (' --thorough' if TIER == 'thorough' else ''),
        'trusted_base': props.TRUSTED,
        'units': len(ks), 'units_proved': len(proved), 'units_undecided': [{'unit': k, 'why': (res.get(k) or {}).get('limit') or (res.get(k) or {}).get('unknown') or why,
                           'bounded_native_runs': (res.get(k) or {}).get('tried', 0)} for k in und],
        'units_left_to_thorough': left_out,
        'bounded_units': {k: res[k]['bounded'] for k in ks if res.get(k, {}).get('bounded')},
        'functions_under_contract': contracts, 'function_bodies_executed': inl,
        'contracts_assumed_here_proved_elsewhere': used, 'library_models': models,
        'solver_seconds': round(sum(r['solver_seconds'] for r in res.values()), 1), 'back_end': 'z3 ' + __import__('z3').get_version_string(),
        'paths': sum(r['paths'] for r in res.values()),
        'slowest': sorted(((r['seconds'], k) for k, r in res.items()), reverse=True)[:5],
        'kind': 'memory safety and absence of undefined behaviour only' if safety else 'full functional contracts',
    }
    if why:
        cov['not_decided'] = why
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + props.ASSUME.get(prop, []), 'wall_s': round(time.time() - T0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(f"{prop}: {len(proved)} of {len(ks)} units proved, {di} of {ob} obligations discharged, {len(und)} undecided, {time.time() - T0:.0f} s")
    for k in und:
        print(f"  undecided: {k}: {str((res.get(k) or {}).get('limit') or (res.get(k) or {}).get('unknown') or why)[:200]}"
              f" ({(res.get(k) or {}).get('tried', 0)} bounded native runs agreed)")
    for p, tail, what in viol:
        print('  ' + what[:300])
        print(f"VIOLATION property={prop} replay={p}{tail}")
    return 1 if viol else 0


def replay_main(path):
    import replay
    d = json.load(open(path))
    print(json.dumps({k: d.get(k) for k in ('property', 'unit', 'obligation', 'difference', 'failed')}, indent=1, ensure_ascii=False))
    if d.get('case') is None:
        print("no input: the verifier's output is in the file")
        return 0
    n = replay.Native()
    print('\n'.join(n.run(d['case'])))
    n.close()
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay_main(sys.argv[2]))
    if sys.argv[1] == '--setup':
        import build
        build.simulator_bc(); build.harness(); build.fplib(); build.offsets()
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
