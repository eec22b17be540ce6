"""The methods of the fitted objects that hand over to the functions of utils and postproc (C14, C15, C16, C17, C20), and the
getters: a caller of the object gets exactly what the contracts of those functions promise for its own arguments."""
import ast
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc.arrays import mkarr
from pyvc.interp import Func
from . import contract
from .spod import cls
from .modes import NOOP
from .proj import same_array

SP, PO = ('pyspod.spod.base.Base', 'pyspod.spod.utils.'), ('pyspod.pod.base.Base', 'pyspod.pod.utils.')
PP = 'pyspod.utils.postproc.'


def recorder(calls, qual, ret):
    def con(I, a, k):
        f = find(I, qual); calls.append(I.bind_args(Func(f.node, f.module, f.qual, f.closure, None, f.cls), a, k))
        return ret
    return con


def same(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, (P, int, float)) or isinstance(b, P) and isinstance(a, (int, float)): return bool((to(a) - to(b)).is_zero()) if hasattr(P, 'is_zero') else to(a) == to(b)
    if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))): return type(a) is type(b) and a == b
    return False


def handover(ctx, where, method, callee, args, expect, attrs=None, result=None, before=None):
    """method(**args) calls callee with exactly `expect` (other parameters at their defaults) and returns its result"""
    base, ut = where; qual = callee if '.' in callee else ut + callee
    def run(I):
        nfr = var('nfr'); I.assume(ge(nfr, 2)); calls = []; ret = (Obj('$r0'), Obj('$r1')) if result is None else result
        I.contracts[qual] = recorder(calls, qual, ret)
        o = Obj(cls(I, base), {**dict(_comm=Obj('$comm'), _savedir_sim='DIR', _freq=tensor_arr(Tensor('freq', 'r', 1), [nfr]), _xshape=(var('n1'), var('n2')), _modes_dir='DIR/modes',
                                   _savefreq_disk=True, _savefreq_disk2=True, _file_coeffs='old file', _coeffs_dir='OLD'), **(attrs or {})}); o.stub = True
        f = I.getattr(o, method); A = {n: (v(o) if callable(v) else v) for n, v in args.items()}
        r = I.call(f, [], dict(A))
        if not ctx.reachable(I): return
        if not calls: raise Unsupported(f'{qual} is not called')
        ctx.cond(I, 'the function is called once', len(calls) == 1)
        f0 = find(I, qual); defaults = I.bind_args(f0, [Obj('$x') for _ in f0.node.args.args[:len(f0.node.args.args) - len(f0.node.args.defaults)]], {})
        for p, v in calls[0].items():
            w = expect[p](o, A) if p in expect else defaults[p]
            if isinstance(v, Arr) and isinstance(w, Arr) and v is not w: ctx.eq(I, f'argument {p}', v, w)
            else: ctx.cond(I, f'argument {p}', same(v, w))
        ctx.cond(I, 'the result of the function is returned', r is ret or (isinstance(r, tuple) and isinstance(ret, tuple) and len(r) == len(ret) and all(x is y for x, y in zip(r, ret))))
        if before: before(ctx, I, o, ret)
        return calls
    ctx.explore(run)


arg = lambda n: (lambda o, A: A[n])
at_ = lambda n: (lambda o, A: o.st[n])
def kept(**names):
    def post(ctx, I, o, ret):
        for n, j in names.items(): ctx.cond(I, f'{n} is kept for later steps', o.st.get(n) is ret[j])
    return post

_R = lambda n: var(n, 'r')
for _mi in (False, True):
    for _t in ('all', 'band'):
        _a = dict(data=Obj('$data'), results_dir=Obj('$dir'), **(dict(modes_idx=Obj('$ids')) if _mi else {}), **(dict(T_lb=_R('Tl'), T_ub=_R('Tu'), tol=_R('tol'), svd=Obj('$svd')) if _t == 'band' else {}))
        _e = {n: arg(n) for n in ('data', 'results_dir') + (('modes_idx',) if _mi else ())}
        contract('C14', f'{SP[0]}.compute_coeffs_op[{"modes given, " if _mi else ""}{_t}]', models=NOOP)(
            lambda ctx, a=_a, e=dict(_e, comm=at_('_comm'), **({n: arg(n) for n in ('T_lb', 'T_ub', 'tol', 'svd')} if _t == 'band' else dict(svd=lambda o, A: True))):
                handover(ctx, SP, 'compute_coeffs_op', 'compute_coeffs_op', a, e, before=kept(_file_coeffs=0, _coeffs_dir=1)))
    contract('C20', f'{PO[0]}.compute_coeffs_op[{"modes given" if _mi else "all modes"}]', models=NOOP)(
        lambda ctx, a=dict(data=Obj('$data'), results_dir=Obj('$dir'), **(dict(modes_idx=Obj('$ids')) if _mi else {})): handover(ctx, PO, 'compute_coeffs_op', 'compute_coeffs_op', a,
            {**{n: arg(n) for n in a}, 'comm': at_('_comm')}, before=kept(_file_coeffs=0, _coeffs_dir=1)))
for _t in (False, True):
    _a = dict(coeffs_dir=Obj('$dir'), **(dict(time_idx=Obj('$ids')) if _t else {}))
    contract('C15', f'{SP[0]}.compute_reconstruction[{"times given" if _t else "default times"}]', models=NOOP)(
        lambda ctx, a=_a: handover(ctx, SP, 'compute_reconstruction', 'compute_reconstruction', a, {**{n: arg(n) for n in a}, 'time_idx': (lambda o, A: A.get('time_idx')), 'comm': at_('_comm')}, before=kept(_file_recons=0)))
    for _c in (False, True):
        contract('C20', f'{PO[0]}.compute_reconstruction[{"times given" if _t else "default times"}{", coefficients given" if _c else ""}]', models=NOOP)(
            lambda ctx, a=dict(_a, **(dict(coeffs=Obj('$coeffs')) if _c else {})): handover(ctx, PO, 'compute_reconstruction', 'compute_reconstruction', a, {**{n: arg(n) for n in a}, 'time_idx': (lambda o, A: A.get('time_idx')), 'comm': at_('_comm')}, before=kept(_file_recons=0)))
contract('C17', f'{SP[0]}.find_nearest_freq[axis of the fit]', models=NOOP)(lambda ctx: handover(ctx, SP, 'find_nearest_freq', PP + 'find_nearest_freq', dict(freq_req=_R('f')), dict(freq_req=arg('freq_req'), freq=at_('_freq'))))
contract('C17', f'{SP[0]}.find_nearest_freq[list given]', models=NOOP)(lambda ctx: handover(ctx, SP, 'find_nearest_freq', PP + 'find_nearest_freq', dict(freq_req=_R('f'), freq=lambda o: ListV([_R('a'), _R('b')])), dict(freq_req=arg('freq_req'), freq=arg('freq'))))
contract('C17', f'{SP[0]}.find_nearest_freq[axis given]', models=NOOP)(lambda ctx: handover(ctx, SP, 'find_nearest_freq', PP + 'find_nearest_freq', dict(freq_req=_R('f'), freq=lambda o: tensor_arr(Tensor('F', 'r', 1), [var('n')])), dict(freq_req=arg('freq_req'), freq=arg('freq'))))
contract('C17', f'{SP[0]}.find_nearest_coords', models=NOOP)(lambda ctx: handover(ctx, SP, 'find_nearest_coords', PP + 'find_nearest_coords', dict(coords=Obj('$c'), x=Obj('$x')), dict(coords=arg('coords'), x=arg('x'), data_space_dim=at_('_xshape'))))
contract('C16', f'{SP[0]}.get_modes_at_freq', models=NOOP)(lambda ctx: handover(ctx, SP, 'get_modes_at_freq', PP + 'get_modes_at_freq', dict(freq_idx=var('k')), dict(results_path=lambda o, A: 'DIR', freq_idx=arg('freq_idx')), result=Obj('$modes')))


def given_data(ctx, base, nd, no_v, t0, t1):
    """post: snapshots t_0 .. t_end-1 of the data, with a variables axis"""
    def run(I):
        nt, ns = var('nt'), [var(f'm{i}') for i in range(nd)]; nv = 1 if no_v else var('nv'); I.assume(ge(nt, 1), *[ge(d, 1) for d in ns])
        if not no_v: I.assume(ge(nv, 1))
        a, b = (var('a') if t0 else 0), (var('b') if t1 else nt); I.assume(le(0, a), le(a, b), le(b, nt))
        X = ctx.T('X', 'r', 1 + nd + (0 if no_v else 1)); dims = [nt] + ns + ([] if no_v else [nv])
        o = Obj(cls(I, base), dict(_nv=nv, _xdim=nd)); o.stub = True
        r = I.call(I.getattr(o, 'get_data'), [tensor_arr(X, dims)], dict(**(dict(t_0=a) if t0 else {}), **(dict(t_end=b) if t1 else {})))
        if not ctx.reachable(I): return
        same_array(ctx, I, 'the snapshots asked for, time, space and variable axes', r, [to(b) - to(a)] + ns + [to(nv)], lambda v: el(X, [v[0] + a] + v[1:1 + nd] + ([] if no_v else [v[-1]])))
    ctx.explore(run)
for _b, _p in ((SP[0], 'C16'), (PO[0], 'C20')):
    for _nd in (1, 2, 3):
        for _no in (False, True):
            for _t0, _t1 in ((False, False), (True, True)): contract(_p, f'{_b}.get_data[{_nd} space axes{", no variables axis" if _no else ""}{", times given" if _t0 else ""}]', models=NOOP)(lambda ctx, a=(_b, _nd, _no, _t0, _t1): given_data(ctx, *a))


GET = {SP[0]: dict(savedir_sim=0, file_coeffs=0, dim=0, shape=0, nt=0, comm=0, nx=0, nv=0, xdim=0, xshape=0, n_freq=0, freq=0, dt=0, n_dft=0, eigs=0, n_blocks=0, n_modes=0, n_modes_save=0, modes_dir=0, weights=0),
       PO[0]: dict(savedir=0, dim=0, shape=0, nt=0, nx=0, nv=0, xdim=0, xshape=0, dt=0, eigs=0, n_modes_save=0, weights=0)}
OF = dict(C01='n_blocks n_dft n_modes_save nt', C04='freq n_freq dt', C05='eigs n_modes weights modes_dir', C17='xshape')
def getters(ctx, base, names):
    """post: each getter returns what the fit stored (the attributes the contracts of the fit speak about)"""
    def run(I):
        o = Obj(cls(I, base), {'_' + n: Obj('$' + n) for n in GET[base]}); o.stub = True
        for n in names: ctx.cond(I, f'{n} is the value of the fit', I.getattr(o, n) is o.st['_' + n])
        ctx.reachable(I)
    ctx.explore(run)
for _p, _n in OF.items(): contract(_p, f'{SP[0]} getters[{_n}]', models=NOOP)(lambda ctx, n=_n.split(): getters(ctx, SP[0], n))
contract('C20', f'{PO[0]} getters', models=NOOP)(lambda ctx: getters(ctx, PO[0], list(GET[PO[0]])))
