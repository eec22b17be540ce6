"""Runs the contracts of one property: VCs are generated from /repo's current source, every contract in its own process."""
import importlib, multiprocessing as mp, os, pkgutil, queue, time, traceback
import z3


def load():
    import contracts
    if not contracts.REG:
        for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
            importlib.import_module('contracts.' + m.name)
    return contracts.REG


def work(i, repo, seed, out):
    """in a child process"""
    try:
        import sys, resource
        sys.setrecursionlimit(20000)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pyvc.contract import Ctx, Program
        from pyvc.prover import STATS
        c = load()[i]
        t = time.time()
        ctx = Ctx(Program(repo), c['name'], c.get('models'), c.get('contracts'), seed)
        try: c['fn'](ctx)
        except Exception as e:
            ctx.record('within the verified subset', 'undecided', None, f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}')
        obs = []
        for o in ctx.obs.values():
            o = dict(o); o['backend'] = ' + '.join(sorted(o['backend'])); obs.append(o)
        out.put((i, dict(obs=obs, vac=ctx.vac, visited=sorted(ctx.visited), trusted=sorted(ctx.trusted), stats=dict(STATS), paths=ctx.paths, assumptions=ctx.assumptions, seconds=time.time()-t)))
    except BaseException as e:
        out.put((i, dict(error=f'{type(e).__name__}: {e}')))


def run(pid, repo, tier='quick', seed=1, jobs=None):
    reg = load()
    todo = [i for i, c in enumerate(reg) if pid in c['pids']]
    todo.sort(key=lambda i: -reg[i].get('cost', 1))
    limit = 200 if tier == 'quick' else 600
    total = 420 if tier == 'quick' else 840
    jobs = jobs or max(1, min(6, len(todo)))
    ctx = mp.get_context('fork'); q = ctx.Queue()
    running, res = {}, {}
    t0 = time.time()
    pend = list(todo)
    while pend or running:
        while pend and len(running) < jobs and time.time() - t0 < total:
            i = pend.pop(0)
            p = ctx.Process(target=work, args=(i, repo, seed, q), daemon=True); p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r
            if i in running: running.pop(i)[0].join(2)
        except queue.Empty: pass
        for i, (p, t) in list(running.items()):
            if time.time() - t > limit or time.time() - t0 > total:
                p.kill(); p.join(); running.pop(i); res[i] = dict(error=f'no verdict within {limit} s')
            elif not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty() and i in running: running.pop(i); res.setdefault(i, dict(error='the proof process died'))
        if time.time() - t0 > total and not running:
            for i in pend: res[i] = dict(error='not reached within the time limit')
            break
    obs, funcs, trusted, assumptions, vac, backends = [], set(), set(), set(), {}, {}
    solver = 0.
    for i in todo:
        r = res.get(i, dict(error='no result')); c = reg[i]
        if 'error' in r:
            obs.append(dict(name=f'{c["name"]}: verified', function=c['name'], status='undecided', backend='', seconds=0., detail=r['error'])); continue
        for o in r['obs']:
            if o['status'] == 'discharged': backends[o['backend']] = backends.get(o['backend'], 0) + 1
            obs.append(o)
        funcs |= set(r['visited']); trusted |= set(r['trusted']); assumptions |= set(r['assumptions'])
        solver += r['stats']['z3_seconds']
        vac[c['name']] = dict(paths=r['paths'], feasible_end_states=sum(r['vac'].values()), seconds=round(r['seconds'], 2), doc=' '.join((c['fn'].__doc__ or '').split())[:400])
        if sum(r['vac'].values()) == 0 and all(o['status'] == 'discharged' for o in r['obs']) and not c.get('novac'):
            obs.append(dict(name=f'{c["name"]}: precondition satisfiable on some path', function=c['name'], status='undecided', backend='', seconds=0., detail='no feasible path reached the postconditions'))
    return dict(obligations=obs, z3=z3.get_version_string(), solver_s=solver, trusted=sorted(trusted), backends=backends, functions=sorted(funcs), vacuity=vac, assumptions=sorted(assumptions))
