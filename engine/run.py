"""Check driver:  run.py PROPERTY [--tier quick|thorough] [--scenario NAME] [--jobs N]"""
import argparse, importlib, io, json, multiprocessing as mp, os, random, signal, subprocess, sys, threading, time, traceback, warnings
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = VERIF
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
SLICE = 1.0
STUCK = 17


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


def worker(prop, tier, inq, outq, path_timeout, query_timeout):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    from engine import core, poly, loader
    from engine.api import make_symctx
    import numpy as np
    SymCtx = make_symctx()
    mod = importlib.import_module('props.' + prop)
    scens = {s['name']: s for s in mod.SCENARIOS}
    cur = {'since': None}
    lock = threading.Lock()

    def watchdog():
        # the solver does not always notice its time limit: report the path as undecided and end this process
        while True:
            time.sleep(2)
            if cur['since'] is None or time.time() - cur['since'] < cur['limit'] + 30:
                continue
            with lock:
                if cur['since'] is None or time.time() - cur['since'] < cur['limit'] + 30:
                    continue
                c, name, stack, st = cur['c'], cur['name'], list(cur['stack']), cur['st']
                stack.extend(reversed(list(c.alternatives)))
                cand = {'property': prop, 'scenario': name, 'kind': 'timeout', 'what': 'path timeout inside the solver', 'picks': list(c.picks), 'values': None, 'ints': None, 'tier': tier}
                outq.put((name, stack) + tuple(cur['counts']) + (st.asdict(), cur['cands'] + [cand], None, sorted(c.assumptions), list(loader.COVERED)))
                outq.close()
                outq.join_thread()
                os._exit(STUCK)
    threading.Thread(target=watchdog, daemon=True).start()
    while True:
        job = inq.get()
        if job is None:
            break
        name, stack = job
        sc = scens[name]
        st = core.Stats()
        t0 = time.time()
        paths = pruned = skipped = vac = 0
        cands = []
        sample = None
        assumptions = set()
        while stack and time.time() - t0 < SLICE and len(cands) < 3:
            prefix = stack.pop()
            c = SymCtx(prefix, st, query_timeout=query_timeout)
            c.tier = tier
            random.seed(1)
            np.random.seed(1)
            cand = None
            with lock:
                cur.update(c=c, name=name, stack=stack, st=st, cands=cands, counts=(paths, pruned, skipped, vac), limit=sc.get('timeout', path_timeout), since=time.time())
            signal.setitimer(signal.ITIMER_REAL, sc.get('timeout', path_timeout))
            try:
                sc['fn'](c)
                signal.setitimer(signal.ITIMER_REAL, 0)
                paths += 1
                if not c.reached:
                    vac += 1
                if sample is None or len(c.decisions) > sample[1]:
                    sample = ({"scenario": name, "decisions": [str(d[1]) for d in c.decisions][:60], "inputs": {k: (list(v[1][0]) if v[0] == 'array' else v[0]) for k, v in list(c.inputs.items())[:8]}}, len(c.decisions))
            except core.Skip:
                signal.setitimer(signal.ITIMER_REAL, 0)
                skipped += 1
            except core.PathPruned as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                pruned += 1
            except core.Violated as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                cand = ('violated', e.what, e.model)
            except core.EngineLimit as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                cand = ('limit', str(e) + ' @ ' + _where(e), None)
            except PathTimeout as e:
                cand = ('timeout', 'path timeout @ ' + _where(e), None)
            except (MemoryError, KeyboardInterrupt):
                signal.setitimer(signal.ITIMER_REAL, 0)
                cand = ('limit', 'memory', None)
            except Exception as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                cand = ('exception', '%s: %s @ %s' % (type(e).__name__, str(e)[:200], _where(e)), None)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                with lock:
                    cur['since'] = None
            assumptions |= c.assumptions
            stack.extend(reversed(c.alternatives))
            if cand:
                vals = cand[2]
                if vals is None:
                    try:
                        r, m = c.model_of([], timeout=3000)
                        vals = c.extract(m) if m is not None else None
                    except BaseException:
                        vals = None
                ints = None
                if vals:
                    ints = {k: v for k, v in vals.items() if isinstance(v, int)} or None
                cands.append({'property': prop, 'scenario': name, 'kind': cand[0], 'what': cand[1], 'picks': list(c.picks), 'values': vals, 'ints': ints, 'tier': tier})
        cov = list(loader.COVERED)
        outq.put((name, stack, paths, pruned, skipped, vac, st.asdict(), cands, sample, sorted(assumptions), cov))


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))


def replay_jobs(jobs, timeout):
    if not jobs:
        return []
    d = os.path.join(VERIF, 'evidence', 'tmp')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'jobs-%d-%d.json' % (os.getpid(), random.randrange(10 ** 9)))
    with open(f, 'w') as fh:
        json.dump(jobs, fh)
    env = dict(os.environ, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    out = []
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'engine', 'replay.py'), '--jobs', f], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=timeout, text=True)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b''
        so = so.decode() if isinstance(so, bytes) else so
        out = [json.loads(l) for l in so.splitlines() if l.startswith('{') and l.endswith('}')]
        err = 'timeout'
    finally:
        try:
            os.remove(f)
        except OSError:
            pass
    while len(out) < len(jobs):
        out.append({'result': 'error', 'msg': 'replay did not finish: ' + err[-300:], 'values': None, 'seed': 0, 'trace': []})
    return out


def load_known():
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=P01 scenario=<name> match=<substring> :: description
                head, _, desc = l[len('finding:'):].partition('::')
                kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
                kv['desc'] = desc.strip()
                out.append(kv)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--scenario')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    budget = a.budget or (640 if tier == 'quick' else 4 * 3600)
    from engine import loader
    loader._monitor()
    loader.load_symbolic()
    mod = importlib.import_module('props.' + prop)
    scens = [s for s in mod.SCENARIOS if tier == 'thorough' or s.get('tier', 'quick') == 'quick']
    if a.scenario:
        scens = [s for s in mod.SCENARIOS if s['name'] == a.scenario]
    # import everything the scenarios need before forking
    path_timeout = 90 if tier == 'quick' else 600
    query_timeout = 20000 if tier == 'quick' else 120000
    ctx = mp.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    if os.environ.get('VERIF_PATH_TIMEOUT'):
        path_timeout = int(os.environ['VERIF_PATH_TIMEOUT'])

    def spawn():
        p = ctx.Process(target=worker, args=(prop, tier, inq, outq, path_timeout, query_timeout), daemon=True)
        p.start()
        return p
    procs = [spawn() for _ in range(a.jobs)]
    from collections import deque
    pending = deque((s['name'], [[]]) for s in scens)
    inflight = 0
    agg = {s['name']: dict(paths=0, pruned=0, skipped=0, vacuous=0, cands=[], asserts=0, queries=0, t_end=0) for s in scens}
    tot = {}
    samples, assumptions, covered = {}, set(), set()
    checked = []     # replayed candidates
    violation = None
    known_hits = []
    known = [k for k in load_known() if k.get('property') == prop]
    undecided = []
    budget_hit = False
    todo_replay = []
    dead = {}

    def known_match(c, r):
        for k in known:
            if k.get('scenario', c['scenario']) == c['scenario'] and k.get('match', '').replace('~', ' ') in (r['msg'] + ' ' + c['what']):
                return k
        return None

    while (pending or inflight) and violation is None:
        while pending and inflight < a.jobs * 2:
            name, st = pending.popleft()
            if len(st) > 1 and len(pending) < a.jobs:
                h = max(1, len(st) // 2)
                pending.append((name, st[:h]))
                st = st[h:]
            if len(agg[name]['cands']) >= 40:
                dead[name] = dead.get(name, 0) + len(st)
                continue
            inq.put((name, st))
            inflight += 1
        if not inflight:
            continue
        try:
            r = outq.get(timeout=5)
        except Exception:
            r = None
        if r is not None:
            inflight -= 1
            name, st, paths, pruned, skipped, vac, stats, cands, sample, ass, cov = r
            g = agg[name]
            g['paths'] += paths
            g['pruned'] += pruned
            g['skipped'] += skipped
            g['vacuous'] += vac
            g['asserts'] += stats['asserts']
            g['queries'] += stats['queries']
            g['t_end'] = time.time() - t0
            for k, v in stats.items():
                tot[k] = tot.get(k, 0) + v
            if sample and (name not in samples or sample[1] > samples[name][1]):
                samples[name] = sample
            assumptions |= set(ass)
            covered |= set(cov)
            if st:
                pending.append((name, st))
            for c in cands:
                g['cands'].append(c)
                todo_replay.append(c)
                if a.v:
                    print('candidate', c['scenario'], c['kind'], c['what'], c['picks'], file=sys.stderr)
        for k, p in enumerate(procs):
            if p.exitcode == STUCK:
                procs[k] = spawn()
        if r is not None:
            pass
        elif not any(p.is_alive() for p in procs):
            print("ERROR: workers died", file=sys.stderr)
            sys.exit(2)
        else:
            alive = sum(p.is_alive() for p in procs)
            if alive < a.jobs and outq.empty() and inq.empty() and inflight <= a.jobs - alive:
                print("ERROR: a worker died (memory?)", file=sys.stderr)
                sys.exit(2)
        if todo_replay and (len(todo_replay) >= 4 or not pending or time.time() - t0 > 20):
            jobs = [dict(c, random=6, timeout=20) for c in todo_replay]
            res = replay_jobs(jobs, 240)
            for c, rr in zip(todo_replay, res):
                if rr['result'] == 'fail':
                    k = known_match(c, rr)
                    if k is not None:
                        known_hits.append((k, rr['msg']))
                    else:
                        violation = (c, rr)
                        break
                else:
                    undecided.append((c, rr))
                    if a.v:
                        print('not reproduced', c['scenario'], c['what'], rr['result'], rr['msg'], file=sys.stderr)
            todo_replay = []
        if time.time() - t0 > budget:
            budget_hit = True
            break
    for p in procs:
        p.terminate()
    if todo_replay and violation is None:
        res = replay_jobs([dict(c, random=6, timeout=20) for c in todo_replay], 240)
        for c, rr in zip(todo_replay, res):
            if rr['result'] == 'fail':
                k = known_match(c, rr)
                if k is None:
                    violation = (c, rr)
                    break
                known_hits.append((k, rr['msg']))
            else:
                undecided.append((c, rr))
    wall = time.time() - t0
    total_paths = sum(g['paths'] for g in agg.values())
    unreached = [n for n, g in agg.items() if g['paths'] and not g['asserts']]
    nothing = [n for n, g in agg.items() if not g['paths'] and not g['cands']] if not budget_hit and violation is None else []
    seed = int(os.environ.get('VERIF_SEED') or 1)
    incomplete = sorted(set([n for n, _ in pending] + list(dead)))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code. Each path fixes the structural inputs chosen through the solver; "
                           "element values, couplings, dimensions (where stated) stay symbolic, and each assertion's negation is sent to z3. "
                           "'paths' were completed symbolically; 'unsat' counts discharged assertion queries. " + (mod.BOUNDS if hasattr(mod, 'BOUNDS') else ''),
            "exhaustive": bool(not budget_hit and not undecided and not incomplete and violation is None),
            "paths": total_paths,
            "paths_outside_domain": sum(g['skipped'] for g in agg.values()),
            "paths_pruned": sum(g['pruned'] for g in agg.values()),
            "obligations": tot.get('queries', 0), "discharged": tot.get('unsat', 0),
            "sat_queries": tot.get('sat', 0), "unknown_queries": tot.get('unknown', 0),
            "feasibility_queries": tot.get('feas', 0), "solver_seconds": round(tot.get('solver_s', 0.0), 2),
            "solver": "z3 " + _z3v(),
            "functions_encoded": sorted(covered),
            "scenarios": {n: {"paths": g['paths'], "assertions": g['asserts'], "outside_domain": g['skipped'], "pruned": g['pruned'],
                              "undecided": sum(1 for c, _ in undecided if c['scenario'] == n), "complete": n not in incomplete,
                              "bounds": next((s.get('bounds', '') for s in scens if s['name'] == n), '')} for n, g in agg.items()},
            "budget_exhausted": budget_hit,
            "undecided": [{"scenario": c['scenario'], "what": c['what'], "concrete": r['result'], "picks": c['picks']} for c, r in undecided[:20]],
            "undecided_paths": len(undecided),
            "samples": [samples[n][0] for n in list(samples)[:6]],
        },
        "assumptions": sorted(assumptions | set(getattr(mod, 'ASSUMPTIONS', [])) | {
            "real arithmetic: floating-point rounding, overflow and nan/inf are outside the encoding",
            "the symbolic array library implements numpy's documented semantics (counterexamples are replayed on real numpy)"}),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.scenario:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for n, g in agg.items():
        print("%s/%s: paths=%d skipped=%d pruned=%d assertions=%d candidates=%d%s t=%.1f" % (prop, n, g['paths'], g['skipped'], g['pruned'], g['asserts'], len(g['cands']), '' if n not in incomplete else ' INCOMPLETE', g['t_end']))
    print("%s: %d paths, %d obligations, %d discharged, %d unknown, solver %.1f s, wall %.1f s" % (prop, total_paths, tot.get('queries', 0), tot.get('unsat', 0), tot.get('unknown', 0), tot.get('solver_s', 0), wall))
    seen = set()
    for k, msg in known_hits:
        if k['desc'] not in seen:
            seen.add(k['desc'])
            print("KNOWN-FINDING: property=%s %s" % (prop, k['desc']))
    if violation:
        c, rr = violation
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, c['scenario']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'scenario': c['scenario'], 'picks': c['picks'], 'values': rr['values'], 'seed': rr['seed'], 'tier': tier,
                       'symbolic_finding': c['what'], 'concrete_failure': rr['msg'], 'trace': rr['trace']}, f, indent=1)
        print("scenario %s: %s" % (c['scenario'], rr['msg']))
        for n, v in rr['trace'][:60]:
            print("   %s = %s" % (n, str(v)[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if undecided:
        print("UNDECIDED: %d paths could not be decided symbolically (concrete spot runs passed); first: %s / %s" % (len(undecided), undecided[0][0]['scenario'], undecided[0][0]['what']))
    if budget_hit:
        print("BUDGET: time budget reached; unexplored paths remain in: %s" % ', '.join(incomplete))
    if unreached or nothing:
        print("ERROR: vacuous scenarios: %s" % (unreached + nothing))
        sys.exit(2)
    if total_paths == 0:
        print("ERROR: nothing was decided")
        sys.exit(2)
    if any(r['result'] == 'error' and c['kind'] not in ('timeout', 'limit') for c, r in undecided):
        print("ERROR: replay errors: %s" % [r['msg'] for _, r in undecided if r['result'] == 'error'][:3])
        sys.exit(2)
    sys.exit(0)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
