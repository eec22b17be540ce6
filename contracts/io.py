"""C23: configuration and data files (utils/io.py)."""
from pyvc.contract import *
from pyvc.term import *
from pyvc.values import *
from pyvc import term as T
from . import contract
from .par import COMM, mkcomm

IO = 'pyspod.utils.io.'
REQ = ['time_step', 'n_space_dims', 'n_variables', 'n_dft']


def config(ctx, req, opt, cmdline):
    """pre: the YAML document {required: [entries], optional: [entries]}, entries are mappings of any keys to any values.
    post: exactly its pairs, a key of the optional section over the same key of the required one"""
    def run(I):
        n = [0]
        def sec(entries):
            out, pairs = [], {}
            for e in entries:
                d = {}
                for k in e:
                    n[0] += 1; d[k] = Opaque(f'value {n[0]}')
                out.append(DictV(dict(d))); pairs.update(d)
            return ListV(out), pairs
        r, want = sec(req); doc = dict(required=r)
        if opt is not None: doc['optional'], po = sec(opt); want = {**want, **po}
        doc = DictV(doc)
        parser = Obj('$argparser', {})
        def parse(I, a, k):
            argv = a[1] if len(a) > 1 else None
            if argv is not None and [x for x in argv.st] != ['--config_file', 'FILE']: raise Unsupported('other arguments')
            ctx.cond(I, 'the command line is read only when no file is given', (argv is None) == cmdline)
            return Obj('$args', dict(config_file='FILE'))
        def opened(I, a, k):
            ctx.cond(I, 'the file asked for is read', a[0] == 'FILE' and (a[1] if len(a) > 1 else k.get('mode', 'r')) in ('r', 'rb', 'rt')); return Obj('$file', {})
        def load(I, a, k):
            ctx.cond(I, 'the opened file is parsed', isinstance(a[0], Obj) and a[0].cls == '$file'); return doc
        I.models = dict(I.models)
        I.models.update({'argparse.ArgumentParser': lambda I, a, k: parser, '$argparser.add_argument': lambda I, a, k: None, '$argparser.parse_args': parse,
            'open': opened, 'builtins.open': opened, 'yaml.load': load, 'yaml.safe_load': load, 'yaml.full_load': load})
        out = I.call(find(I, IO + 'read_config'), [] if cmdline else ['FILE'], {})
        ctx.cond(I, 'exactly the keys of the two sections', isinstance(out, DictV) and set(out.st) == set(want))
        if isinstance(out, DictV):
            for k, v in want.items(): ctx.cond(I, 'every value as stored, the optional section first', out.st.get(k) is v)
        for e, d in zip(req, r.st): ctx.cond(I, 'the document is not modified', list(d.st) == list(e))
        ctx.reachable(I)
    ctx.explore(run)


E1 = [(k,) for k in REQ]
for _n, (_r, _o, _c) in {
    'required only': (E1, None, False), 'no optional entries': (E1, [], False), 'optional': (E1, [('overlap',), ('mean_type',)], False),
    'optional overrides': (E1 + [('a',)], [('n_dft',), ('b',), ('a',)], False), 'unknown keys': (E1 + [('x',), ('y',)], [('z',)], False),
    'repeated keys': (E1 + [('a',), ('a',)], [('b',), ('b',)], False), 'several keys per entry': ([('time_step', 'n_dft'), ('n_variables', 'n_space_dims', 'a')], [('b', 'a'), ('c',)], False),
    'missing required keys': ([('time_step',)], [('n_dft',)], False), 'empty required': ([], [('n_dft',)], False), 'other order': (E1[::-1], [('optional',), ('required',)], False),
    'command line': (E1, [('overlap',)], True)}.items():
    contract('C23', f'{IO}read_config[{_n}]')(lambda ctx, r=_r, o=_o, c=_c: config(ctx, r, o, c))


def data_file(ctx, name, fmt, kind, par):
    """post: the reader of the format (the one given, else the extension) is used on that file and its content returned"""
    def run(I):
        comm = mkcomm(I)[0] if par else None
        got = {k: Opaque(f'content by {k}') for k in ('npy', 'nc')}
        items = {k: Opaque(f'dataset {k}') for k in ('a', 'B')}
        def reader(kd):
            def f(I, a, k):
                ctx.cond(I, 'the reader of the format is used', kd == kind); ctx.cond(I, 'the file asked for is read', a[0] == name)
                if kd == 'npy': ctx.cond(I, 'read whole and unchanged', len(a) == 1 and not k)
                if kd == 'mat': ctx.cond(I, 'opened for reading', (a[1] if len(a) > 1 else k.get('mode', 'r')) == 'r'); return DictV(dict(items))
                return got[kd]
            return f
        I.models = dict(I.models)
        I.models.update({'numpy.load': reader('npy'), 'xarray.open_dataset': reader('nc'), 'h5py.File': reader('mat'), 'os.path.splitext': lambda I, a, k: tuple(__import__('os').path.splitext(a[0]))})
        arr = I.models.get('numpy.array')
        I.models['numpy.array'] = lambda I, a, k: a[0] if isinstance(a[0], Opaque) and len(a) == 1 and not k else arr(I, a, k)
        st, d = ctx.attempt(I, lambda: I.call(find(I, IO + 'read_data'), [name], dict(format=fmt, comm=comm)))
        if kind is None: ctx.cond(I, 'other formats are rejected with ValueError', st == 'raise' and d.typ == 'ValueError')
        elif st == 'raise': ctx.cond(I, 'a supported format is not rejected', False)
        elif kind == 'mat':
            ctx.cond(I, 'every dataset under its name, no other', isinstance(d, DictV) and set(d.st) == set(items) and all(d.st[k] is items[k] for k in items))
        else: ctx.cond(I, 'the content is returned', d is got[kind])
        ctx.reachable(I)
    ctx.explore(run)


for _k in ('npy', 'nc', 'mat'):
    for _f in (_k, '.' + _k, _k.upper(), '.' + _k.capitalize()):
        contract('C23', f'{IO}read_data[format {_f}]')(lambda ctx, k=_k, f=_f: data_file(ctx, 'dir/file.xyz', f, k, False))
        if _f[0] == '.': contract('C23', f'{IO}read_data[extension {_f}]')(lambda ctx, k=_k, f=_f: data_file(ctx, 'dir.npy/file.v2' + f, None, k, True))
    contract('C23', f'{IO}read_data[format {_k}, file of another]')(lambda ctx, k=_k: data_file(ctx, 'file.' + dict(npy='nc', nc='mat', mat='npy')[k], k, k, True))
    contract('C23', f'{IO}read_data[extension {_k.upper()}, empty format]')(lambda ctx, k=_k: data_file(ctx, 'f.' + k.upper(), '', k, False))
for _f in ('txt', '.dat', 'hdf5', 'npz', '.mat2', 'n', 'np', ' npy'):
    contract('C23', f'{IO}read_data[format {_f!r}]')(lambda ctx, f=_f: data_file(ctx, 'file.npy', f, None, False))
contract('C23', f'{IO}read_data[no extension]')(lambda ctx: data_file(ctx, 'npy', None, None, False))
contract('C23', f'{IO}read_data[unknown extension]')(lambda ctx: data_file(ctx, 'npy.bin', None, None, False))
