"""Entry point: python -m vf.run <PROPERTY> [--tier quick|thorough] [--unit substr]"""
import importlib
import json
import os
import sys
import time
import traceback


def worker(args):
    pid, idx, cfg, seed = args
    from vf import env
    env.load()
    import signal
    from vf import harness
    mod = importlib.import_module(f'vf.checks.{pid.lower()}')
    unit = mod.units(cfg['tier'])[idx]

    class Timeout(Exception):
        pass

    def on_alarm(*a):
        raise Timeout(f'unit exceeded its {cfg["unit_s"]} s')
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(cfg['unit_s']))
    try:
        r = harness.run_unit(unit, cfg, seed)
    except BaseException as e:
        r = {'unit': unit['name'], 'status': 'inconclusive', 'violations': [],
             'notes': [f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}'], 'stats': None,
             'functions': [], 'wall_s': 0.0, 'validated': 0, 'samples': []}
    finally:
        signal.alarm(0)
    r['index'] = idx
    return r


def load_known(pid):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', default='')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    from vf import env
    env.setup()
    verif = env.VERIF
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    budget = 780 if tier == 'quick' else 3 * 3600
    cfg = {'tier': tier, 'unit_s': 600 if tier == 'quick' else 3000,
           'deadline_s': 500 if tier == 'quick' else 2500,
           'nra_timeout_ms': 20000 if tier == 'quick' else 120000}
    env.load()
    mod = importlib.import_module(f'vf.checks.{pid.lower()}')
    units = mod.units(tier)
    sel = [i for i, u in enumerate(units) if a.unit in u['name']]
    results = []
    if a.jobs <= 1 or len(sel) == 1:
        for i in sel:
            results.append(worker((pid, i, cfg, seed)))
    else:
        import concurrent.futures as cf
        import multiprocessing as mp
        # longest units first
        sel.sort(key=lambda i: -units[i].get('cost', 1))
        ex = cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(sel)), mp_context=mp.get_context('spawn'))
        futs = {ex.submit(worker, (pid, i, cfg, seed)): i for i in sel}
        try:
            for f in cf.as_completed(futs, timeout=budget):
                i = futs[f]
                try:
                    r = f.result()
                except Exception as e:
                    r = {'unit': units[i]['name'], 'status': 'inconclusive', 'violations': [],
                         'notes': [f'worker died: {e}'], 'stats': None, 'functions': [], 'wall_s': 0,
                         'validated': 0, 'samples': [], 'index': i}
                results.append(r)
                if a.verbose:
                    print(f'  {r["unit"]}: {r["status"]} {r["wall_s"]:.1f}s', flush=True)
                if r['status'] == 'violation' and not _known(pid, r):
                    break
        except cf.TimeoutError:
            done = {r['index'] for r in results}
            for i in sel:
                if i not in done:
                    results.append({'unit': units[i]['name'], 'status': 'inconclusive', 'violations': [],
                                    'notes': ['time budget exhausted'], 'stats': None, 'functions': [],
                                    'wall_s': 0, 'validated': 0, 'samples': [], 'index': i})
        procs = list(getattr(ex, '_processes', {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    rc = report(pid, tier, seed, cfg, mod, units, results, verif, time.time() - t0, a)
    sys.stdout.flush()
    os._exit(rc)


def _known(pid, r):
    ks = load_known(pid)
    return all(any(k.get('status') == 'finding' and k['unit'] == r['unit'] and
                   k.get('obligation') in (None, v['obligation']) for k in ks) for v in r['violations'])


def report(pid, tier, seed, cfg, mod, units, results, verif, wall, a):
    results.sort(key=lambda r: r['index'])
    tot = {}
    funcs = set()
    prims = {}
    for r in results:
        for k, v in (r['stats'] or {}).items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        funcs |= set(r['functions'])
        for k, v in r.get('prims', {}).items():
            prims[k] = prims.get(k, 0) + v
    viol = [r for r in results if r['status'] == 'violation']
    new = [r for r in viol if not _known(pid, r)]
    inc = [r for r in results if r['status'] == 'inconclusive']
    edir = os.environ.get('VF_EVIDENCE') or os.path.join(verif, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for r in viol:
        v = r['violations'][0]
        path = os.path.join(rdir, f"{pid}_{r['unit'].replace('/', '_').replace(' ', '_')}.json")
        json.dump({'property': pid, 'unit': r['unit'], 'tier': tier, 'violations': r['violations']},
                  open(path, 'w'), indent=1)
        if r in new:
            lines.append(f'VIOLATION property={pid} replay={path}')
            print(f'{pid} {r["unit"]}: {v["obligation"]}: {v["detail"]}')
            print(f'   symbolic: {v["symbolic"]}')
        else:
            print(f'KNOWN-FINDING: property={pid} {r["unit"]}: {v["obligation"]}: {str(v["detail"]).splitlines()[0]}')
    for r in inc:
        print(f'{pid} {r["unit"]}: inconclusive: {r["notes"][0] if r["notes"] else ""}')
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            samples.append({'unit': r['unit'], **s})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0)),
            'transitions': int(tot.get('forks', 0)),
            'traces_validated_against_impl': sum(r['validated'] for r in results),
            'samples': samples[:12] or [{'unit': 'none'}],
            'explanation': 'states = symbolic paths executed, transitions = symbolic branch decisions met; '
                           'each obligation is an SMT query over all input values of a path within the bounds',
            'units': len(results), 'units_ok': sum(r['status'] == 'ok' for r in results),
            'obligations': int(tot.get('obligations', 0)), 'discharged': int(tot.get('discharged', 0)),
            'concrete_obligations': int(tot.get('concrete_obligations', 0)),
            'solver_queries': int(tot.get('queries', 0)), 'unsat': int(tot.get('unsat', 0)),
            'sat': int(tot.get('sat', 0)), 'unknown': int(tot.get('unknown', 0)),
            'solver_s': round(tot.get('solver_s', 0.0), 3),
            'functions_encoded': sorted(funcs),
            'primitives_interpreted': prims,
            'bounds': {r['unit']: units[r['index']].get('bounds', '') for r in results},
            'per_unit': [{'unit': r['unit'], 'status': r['status'], 'wall_s': round(r['wall_s'], 2),
                          'paths': (r['stats'] or {}).get('paths'), 'obligations': (r['stats'] or {}).get('obligations'),
                          'cut': (r['stats'] or {}).get('cut')} for r in results],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating-point arithmetic is modelled by real arithmetic; coefficients that differ by less than 1e-12 '
            'relatively are rounding',
            'no division by exactly zero on the explored paths unless the harness says otherwise'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    if not a.unit:
        json.dump(ev, open(os.path.join(edir, f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} [{tier}]: {len(results)} units, {ev["coverage"]["units_ok"]} ok, {len(viol)} violating, '
          f'{len(inc)} inconclusive; {ev["coverage"]["obligations"]} obligations, '
          f'{ev["coverage"]["solver_queries"]} queries, solver {ev["coverage"]["solver_s"]} s, wall {wall:.1f} s')
    for l in lines:
        print(l)
    if new:
        return 1
    return 2 if inc else 0


if __name__ == '__main__':
    main()
