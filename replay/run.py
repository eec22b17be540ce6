"""run.py PID seed tier out.json [known,known]: contract replay of one property on the real code."""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
pid, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
known = [k for k in (sys.argv[5] if len(sys.argv) > 5 else '').split(',') if k]
t0 = time.time()
tmp = tempfile.mkdtemp(prefix='vp_replay_')
cwd = os.getcwd(); os.chdir(tmp)
cx = lib.Ctx(pid, seed, tier, tmp, known)
err = None
try:
    import importlib
    f = None
    for m in ('cases_a', 'cases_b', 'cases_c'):
        f = f or getattr(importlib.import_module(m), pid, None)
    f(cx)
except Exception as e:
    err = traceback.format_exc()
    fr = traceback.extract_tb(e.__traceback__)
    repo = os.environ.get('VP_REPO', '/repo') + '/'
    inside = [f for f in fr if f.filename.startswith(repo)]
    def local(tb):
        """the concrete inputs: locals of the innermost harness frame"""
        last = {}
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(lib.HERE + '/cases_'): last = tb.tb_frame.f_locals
            tb = tb.tb_next
        return {k: lib.jsonable(v) for k, v in last.items() if not k.startswith('_') and k not in ('cx', 'rng')
                and isinstance(v, (int, float, complex, str, bool, dict, list, tuple, lib.np.ndarray))}
    if inside:
        # on the unchanged tree no case raises, so the changed code raises on a valid input
        cx.fail(f'the code raises {type(e).__name__}: {str(e)[:200]} at {os.path.basename(inside[-1].filename)}:'
                f'{inside[-1].lineno} ({inside[-1].name}) on a valid input', local(e.__traceback__))
    elif not isinstance(e, (ImportError, AttributeError, NameError)):
        # the results of the code cannot even be examined: file missing, wrong rank, ...
        cx.fail(f'the result of the code cannot be examined: {type(e).__name__}: {str(e)[:200]}', local(e.__traceback__))
finally:
    os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)
res = dict(pid=pid, evaluations=cx.evals, distinct=len(cx.nontrivial), samples=cx.samples, violations=cx.viol[:8],
           known=cx.known_hit, error=err, wall=time.time()-t0)
with open(out, 'w') as fo: json.dump(res, fo)
if len(sys.argv) > 6: print(json.dumps(dict(res, samples=None), indent=1)[:4000])
