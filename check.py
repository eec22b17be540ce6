#!/usr/bin/env python3-vt
"""check.py PID: decide one property on /repo's current working tree.

1. pyvc generates the proof obligations of the contracts the property rests on
   from /repo's current source and discharges them (pyvc/, contracts/).
2. The same contracts are replayed on the real code with concrete inputs
   (replay/): a refuted obligation is only confirmed there, and the functions
   outside the verifier's reach are checked there, within bounds.

exit 0: held; exit 1: VIOLATION line; exit 3: no answer.
"""
import json, os, subprocess, sys, tempfile, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':      # the order of sets of terms must not differ from run to run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VP_REPO', '/repo')
VENV = os.environ.get('VP_PYTHON', '/opt/venv/bin/python')
EVDIR = os.environ.get('VP_EVIDENCE', os.path.join(HERE, 'evidence'))
RPDIR = os.environ.get('VP_REPLAYS', os.path.join(HERE, 'replays'))
LEVELS = json.load(open(os.path.join(HERE, 'levels.json')))


def load_known(pid):
    out = {}
    with open(os.path.join(HERE, 'known-findings.json')) as f:
        for e in json.load(f)['known']:
            if e['property'] == pid: out[e['id']] = e['what']
    return out


def run_replay(pid, seed, tier, known, tmp):
    """-> (result dict or None, problem)"""
    out = os.path.join(tmp, 'replay.json')
    env = dict(os.environ, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1')
    limit = 400 if tier == 'quick' else 800
    p = subprocess.Popen([VENV, '-W', 'ignore', os.path.join(HERE, 'replay', 'run.py'), pid, str(seed), tier, out,
                          ','.join(known)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=tmp, start_new_session=True)
    try:
        log, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        return None, f'the replay gave no result within {limit} s'
    if not os.path.exists(out):
        return None, 'the replay process died: ' + log.decode(errors='replace')[-1500:]
    return json.load(open(out)), None


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    os.makedirs(EVDIR, exist_ok=True); os.makedirs(RPDIR, exist_ok=True)
    known = load_known(pid); lv = LEVELS[pid]
    tmp = tempfile.mkdtemp(prefix='vp_check_')
    try:
        # the two parts run side by side
        import threading
        box = {}
        th = threading.Thread(target=lambda: box.update(r=run_replay(pid, seed, tier, known, tmp)))
        th.start()
        eng = None; eng_err = None
        try:
            from pyvc import driver
            eng = driver.run(pid, REPO, tier=tier, seed=seed)
        except Exception:
            eng_err = traceback.format_exc()
        th.join()
        rep, problem = box.get('r', (None, 'no replay'))
    finally:
        subprocess.run(['/bin/rm', '-rf', tmp])
    obs = eng['obligations'] if eng else []
    discharged = [o for o in obs if o['status'] == 'discharged']
    refuted = [o for o in obs if o['status'] == 'refuted']
    knownob = [o for o in obs if o['status'] == 'known']
    obs = [o for o in obs if o['status'] != 'known']
    undecided = [o for o in obs if o['status'] not in ('discharged', 'refuted')]
    viol = list(rep['violations']) if rep else []
    # ---- evidence (grouped: the file stays well below a megabyte)
    def by_contract(obs):
        r = {}
        for o in obs:
            c, _, n = o['name'].partition(']: ') if ']: ' in o['name'] else o['name'].partition(': ')
            g = r.setdefault(c + (']' if ']: ' in o['name'] else ''), dict(function=o.get('function'), seconds=0., obligations={}))
            g['seconds'] = round(g['seconds'] + (o.get('seconds') or 0.), 3)
            g['obligations'].setdefault(f'{o["status"]} ({o.get("backend")})', []).append(n)
        return r
    cov = dict(
        obligations=len(obs), discharged=len(discharged),
        checker_cmd=f'python3-vt {HERE}/check.py {pid}  (pyvc over {REPO}; z3 {eng["z3"] if eng else "?"} and the pyvc term normalizer)',
        trusted_base=(eng or {}).get('trusted', []) or ['see DESIGN.md'],
        by_backend=(eng or {}).get('backends', {}), solver_seconds=round((eng or {}).get('solver_s', 0.), 3),
        functions_under_contract=(eng or {}).get('functions', []),
        vacuity=(eng or {}).get('vacuity', {}),
        obligations_by_contract=by_contract(obs),
        not_proved=[dict(name=o['name'], status=o['status'], reason=str(o.get('detail'))[:300]) for o in obs if o['status'] != 'discharged'],
        known_findings=[dict(name=o['name'], finding=o['finding']) for o in knownob],
        engine_error=eng_err,
        evaluations=rep['evaluations'] if rep else 0,
        distinct_nontrivial=rep['distinct'] if rep else 0,
        rule='BOUNDED contract replay on the real code: ' + lv['rule'],
        samples=rep['samples'] if rep else [],
        explanation=lv['note'], bounded_only=lv.get('bounded', ''))
    ev = dict(property=pid, tier=tier, seed=seed, level=lv['level'], coverage=cov,
              assumptions=(eng or {}).get('assumptions', []) + lv.get('assumptions', []),
              wall_s=round(time.time()-t0, 3), violations=0)
    lines, code = [], 0
    def replayfile(tag, content):
        path = os.path.join(RPDIR, f'{pid}-{tag}.json')
        with open(path, 'w') as f: json.dump(content, f, indent=1, default=str)
        return path
    if rep:
        for k, w in rep['known'].items(): print(f'KNOWN-FINDING: property={pid} [{k}] {w}')
    for f in sorted(set(o['finding'] for o in knownob) - set(rep['known'] if rep else ())):
        print(f'KNOWN-FINDING: property={pid} [{f}] {known.get(f)}: ' + '; '.join(o['name'] for o in knownob if o['finding'] == f))
    if viol:
        path = replayfile('replay', dict(property=pid, seed=seed, tier=tier, failures=viol,
                          refuted_obligations=refuted, undecided_obligations=[o['name'] for o in undecided],
                          how=f'{VENV} {HERE}/replay/run.py {pid} {seed} {tier} /tmp/out.json "{",".join(known)}" verbose'))
        for v in viol[:4]: print(f'  replayed on the real code: {v["what"][:400]}')
        for o in refuted[:6]: print(f'  failed obligation: {o["name"]}')
        lines.append(f'VIOLATION property={pid} replay={path}'); code = 1
    elif refuted:
        conf = [o for o in refuted if o.get('confirmed')]
        path = replayfile('obligation', dict(property=pid, seed=seed, tier=tier, refuted_obligations=refuted,
                          how=f'cd {HERE} && python3-vt check.py {pid}'))
        for o in refuted[:6]: print(f'  failed obligation: {o["name"]}: {str(o.get("detail"))[:300]}')
        lines.append(f'VIOLATION property={pid} replay={path}' + ('' if conf else ' no-failing-input-found')); code = 1
    elif problem and 'no result within' in problem:
        # inputs on which the unchanged code answers in seconds: the changed code hangs
        path = replayfile('hang', dict(property=pid, seed=seed, tier=tier, what=problem,
                          how=f'{VENV} {HERE}/replay/run.py {pid} {seed} {tier} /tmp/out.json "" verbose'))
        lines.append(f'VIOLATION property={pid} replay={path}'); code = 1
    elif rep is None or rep['error'] or (lv['level'] == 'proof' and eng is None):
        print(f'no answer: {problem or (rep or {}).get("error") or eng_err}'); code = 3
    ev['violations'] = len(viol) + len(refuted)
    if lv['level'] == 'proof' and lv.get('min_obligations', 1) > len(obs):
        print(f'no answer: only {len(obs)} obligations generated'); code = code or 3
    if lv['level'] == 'proof' and undecided and code == 0:
        # the changed code left the verifier's subset: nothing is proved about those functions in this run, the
        # bounded replay stands in for them and the evidence says so
        for o in undecided[:6]: print(f'NOT PROVED in this run (bounded stand-in used): {o["name"]}: {str(o.get("detail"))[:200]}')
        cov['explanation'] += ' In this run some obligations were not discharged (see not_proved): bounded replay stands in for them.'
    with open(os.path.join(EVDIR, f'{pid}.json'), 'w') as f: json.dump(ev, f, default=str)
    if eng: print(f'{pid}: {len(discharged)}/{len(obs)} obligations discharged in {eng["solver_s"]:.2f} s (solver), ', end='')
    if rep: print(f'{rep["evaluations"]} bounded replays ({rep["distinct"]} distinct) in {rep["wall"]:.1f} s, ', end='')
    print(f'total {time.time()-t0:.1f} s')
    for l in lines: print(l)
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    sys.exit(main())
