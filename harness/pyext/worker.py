"""Executes scripts of calls sent as JSON lines and reports values, exceptions and the state of variables."""
import json
import os
import struct
import sys

import numpy as np

sys.path.insert(0, sys.argv[1])
import d10  # noqa: E402

COLORS = {getattr(d10, n): n for n in
          ['Rgb', 'Srgb', 'Hsl', 'Hsv', 'Yuv', 'Xyz',
           'LabD65O2', 'LabD65O10', 'LabD50O2', 'LabD50O10', 'LabEO2', 'LabEO10',
           'LchD65O2', 'LchD65O10', 'LchD50O2', 'LchD50O10', 'LchEO2', 'LchEO10']}
FIELDS = {'Rgb': 'red green blue', 'Srgb': 'red green blue', 'Hsl': 'hue saturation lightness',
          'Hsv': 'hue saturation value', 'Yuv': 'y u v', 'Xyz': 'x y z'}
FIELDS = {n: FIELDS.get(n, 'l a b' if n.startswith('Lab') else 'l c h').split() + ['alpha'] for n in COLORS.values()}

JUNK = {
    'object': lambda: object(), 'bytes': lambda: b'xyz', 'complex': lambda: 1 + 2j, 'dict': lambda: {1: 2},
    'list': lambda: [1, 2, 3], 'tuple3': lambda: (1, 2, 3), 'type': lambda: int, 'lambda': lambda: (lambda *a: None),
    'builtin': lambda: len, 'surrogate': lambda: '\ud800', 'nul': lambda: 'a\0b', 'gen': lambda: (i for i in range(3)),
    'image': lambda: d10.Image(2, 2), 'empty': lambda: d10.Image(0, 0), 'rgb': lambda: d10.Rgb(.5, .25, .75, .5),
    'srgb': lambda: d10.Srgb(.5, .25, .75), 'format': lambda: d10.EncodingFormat.gif(), 'npf': lambda: np.float32(.5),
    'npi': lambda: np.int64(3), 'npa': lambda: np.zeros((2, 2, 3), np.float32), 'nps': lambda: np.str_('rgb'),
    'np0': lambda: np.array(3.0), 'nan': lambda: float('nan'), 'inf': lambda: float('inf'), 'ninf': lambda: float('-inf'),
    'badint': lambda: BadInt(), 'images': lambda: [d10.Image(2, 1), d10.Image(1, 2)], 'rgbs': lambda: [d10.Rgb(0, 0, 0)] * 4,
    'class': lambda: d10.Image, 'module': lambda: d10, 'ellipsis': lambda: ..., 'notimpl': lambda: NotImplemented,
    'slice': lambda: slice(0, 2), 'set': lambda: {1}, 'bytearray': lambda: bytearray(8), 'memview': lambda: memoryview(b'12345678'),
}


class BadInt:
    def __index__(self):
        raise ZeroDivisionError('index')

    def __float__(self):
        raise ZeroDivisionError('float')

    def __str__(self):
        raise ZeroDivisionError('str')


class CallbackError(Exception):
    pass


def f32(bits):
    return struct.unpack('<f', struct.pack('<I', bits))[0]


def bits(v):
    return struct.pack('<f', v).hex()


def layout(a, kind):
    """An array equal to a with another memory layout"""
    if kind == 'c':
        return np.ascontiguousarray(a)
    if kind == 'f':
        return np.asfortranarray(a)
    if kind == 'reversed':
        ix = tuple(slice(None, None, -1) for _ in a.shape)
        return a[ix].copy()[ix]
    if kind == 'reversed0' and a.ndim:
        return a[::-1].copy()[::-1]
    if kind == 'strided':
        big = np.full([s * 2 + 1 for s in a.shape], 77, a.dtype)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'window':
        big = np.full([s + 3 for s in a.shape], 77, a.dtype)
        v = big[tuple(slice(1, s + 1) for s in a.shape)]
        v[...] = a
        return v
    if kind == 'axes' and a.ndim == 3:
        return a.transpose(2, 0, 1).copy().transpose(1, 2, 0)
    if kind == 'readonly':
        a = np.array(a)
        a.flags.writeable = False
        return a
    if kind == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if kind == 'unaligned':
        buf = bytearray(a.nbytes + 1)
        v = np.frombuffer(memoryview(buf)[1:], a.dtype, a.size).reshape(a.shape)
        v[...] = a
        return v
    if kind == 'subclass':
        class Sub(np.ndarray):
            pass
        return np.array(a).view(Sub)
    if kind == 'list':
        return a.tolist()
    if kind == 'broadcast' and a.ndim and a.shape[0] > 0:
        return np.broadcast_to(a[:1], a.shape)
    return a


def make_array(spec):
    dt = np.dtype(spec['dtype'])
    n = 1
    for s in spec['shape']:
        n *= s
    raw = bytes.fromhex(spec['hex'])
    if dt == np.bool_:
        a = np.frombuffer(raw, np.uint8, n).astype(bool)
    else:
        a = np.frombuffer(raw, dt, n)
    return layout(a.reshape(spec['shape']), spec['layout'])


def make_fn(spec, env):
    calls = env['#calls'] = []
    perm, at, how = spec['perm'], spec.get('at'), spec.get('how')

    def disturb():
        if how == 'raise':
            raise CallbackError('stop')
        if how == 'base':
            raise KeyboardInterrupt('stop')
        if how == 'none':
            return True, None
        if how == 'int':
            return True, 3
        if how == 'srgb':
            return True, d10.Srgb(0.5, 0.5, 0.5)
        if how == 'image':
            return True, d10.Image(1, 1)
        if how == 'read':
            env['i0'].get_pixel_clamped(0, 0)
        if how == 'write':
            env['i0'].put_pixel(0, 0, d10.Rgb(0.5, 0.25, 0.125, 0.5))
        if how == 'nested':
            env['i0'].map_colors(lambda c: c)
        if how == 'drop':
            env['i0'] = d10.Image(1, 1)
        return False, None

    def map1(c):
        calls.append(dump(c))
        if at is not None and len(calls) - 1 == at:
            done, v = disturb()
            if done:
                return v
        d = [c.red, c.green, c.blue, c.alpha]
        return d10.Rgb(*[d[p] for p in perm])

    def map3(x, y, c):
        calls.append([x, y, dump(c)])
        if at is not None and len(calls) - 1 == at:
            done, v = disturb()
            if done:
                return v
        d = [c.red, c.green, c.blue, c.alpha, x / 64, y / 64]
        return d10.Rgb(*[d[p] for p in perm])

    def comp(x, y, cs):
        calls.append([x, y, [dump(c) for c in cs]])
        if at is not None and len(calls) - 1 == at:
            done, v = disturb()
            if done:
                return v
        c = cs[(x + 2 * y + spec['pick']) % len(cs)]
        d = [c.red, c.green, c.blue, c.alpha, x / 64, y / 64]
        return d10.Rgb(*[d[p] for p in perm])

    def chan(v):
        calls.append(bits(v))
        if at is not None and len(calls) - 1 == at:
            done, r = disturb()
            if done:
                return r
        return v * 0.5 + 0.25

    return {'map1': map1, 'map3': map3, 'comp': comp, 'chan': chan, 'args0': lambda: None}[spec['kind']]


DTYPES = {'np.float32': np.float32, 'np.float64': np.float64, 'np.uint8': np.uint8, 'np.uint16': np.uint16,
          'np.uint32': np.uint32, 'np.bool_': np.bool_, 'bool': bool, 'int': int, 'float': float, 'np.int8': np.int8,
          'np.float16': np.float16, 'dtype:float32': np.dtype('float32'), 'dtype:uint8': np.dtype('uint8'),
          'np.int64': np.int64, 'np.complex64': np.complex64}


def dec(a, env):
    if isinstance(a, list):
        return [dec(v, env) for v in a]
    if not isinstance(a, dict):
        return a
    (k, v), = a.items()
    if k == 'f':
        return f32(v)
    if k == 'i':
        return int(v)
    if k == 'v':
        return env[v]
    if k == 'c':
        return d10.Rgb(*[f32(b) for b in v])
    if k == 'col':
        return getattr(d10, v[0])(*[f32(b) for b in v[1]])
    if k == 't':
        return tuple(dec(x, env) for x in v)
    if k == 'np':
        return make_array(v)
    if k == 'fn':
        return make_fn(v, env)
    if k == 'dt':
        return DTYPES[v]
    if k == 'x':
        return JUNK[v]()
    if k == 'img':
        return image(v)
    raise ValueError(k)


def image(v):
    w, h, data = v
    vals = struct.unpack('<%df' % (w * h * 4), bytes.fromhex(data))
    return d10.Image.from_list(w, h, [d10.Rgb(*vals[i:i + 4]) for i in range(0, len(vals), 4)])


def dump(v):
    if v is None:
        return {'n': 0}
    if isinstance(v, bool):
        return {'b': v}
    if isinstance(v, int):
        return {'i': v}
    if isinstance(v, float):
        return {'f': struct.pack('<d', v).hex()}
    if isinstance(v, str):
        return {'s': v.encode('utf-8', 'backslashreplace').decode()}
    t = type(v)
    if t in COLORS:
        n = COLORS[t]
        return {'col': [n, ''.join(bits(getattr(v, f)) for f in FIELDS[n])]}
    if t is d10.Image:
        return {'img': [v.width, v.height, ''.join(bits(x) for c in v.to_list() for x in (c.red, c.green, c.blue, c.alpha))]}
    if isinstance(v, np.ndarray):
        return {'arr': [v.dtype.str, list(v.shape), v.astype(v.dtype.newbyteorder('<')).tobytes().hex()]}
    if isinstance(v, (list, tuple)):
        return {'l': [dump(x) for x in v]}
    if isinstance(v, d10.EncodingFormat):
        return {'o': 'EncodingFormat'}
    return {'o': t.__name__}


def run(step, env):
    m = step['m']
    on = step.get('on')
    a = [dec(x, env) for x in step.get('a', [])]
    kw = {k: dec(x, env) for k, x in step.get('kw', {}).items()}
    target = getattr(d10, on[4:]) if on.startswith('d10.') else d10 if on == 'd10' else dec({'v': on}, env)
    if m == '()':
        return target(*a, **kw)
    if m == '[]':
        return target[a[0]]
    if m == '[]=':
        target[a[0]] = a[1]
        return None
    if m == 'del':
        del target[a[0]]
        return None
    if m == 'len':
        return len(target)
    if m == '==':
        return target == a[0]
    if m == '!=':
        return target != a[0]
    if m == '<':
        return target < a[0]
    if m == 'str':
        return str(target)
    if m == 'repr':
        return repr(target)
    if m.startswith('set:'):
        setattr(target, m[4:], a[0])
        return None
    if m.startswith('get:'):
        return getattr(target, m[4:])
    return getattr(target, m)(*a, **kw)


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        env = {k: dec(v, {}) for k, v in req.get('vars', {}).items()}
        results = []
        for step in req['steps']:
            env.pop('#calls', None)
            try:
                v = run(step, env)
                r = {'ok': dump(v)}
                if 'to' in step:
                    env[step['to']] = v
            except BaseException as e:
                r = {'exc': type(e).__name__, 'exception': isinstance(e, Exception), 'msg': str(e)[:200]}
            if '#calls' in env and step.get('calls'):
                r['calls'] = env['#calls']
            results.append(r)
        dumps = {}
        for name in req.get('dump', []):
            try:
                dumps[name] = dump(env[name])
            except BaseException as e:
                dumps[name] = {'exc': type(e).__name__, 'msg': str(e)[:200]}
        out.write(json.dumps({'r': results, 'd': dumps}) + '\n')
        out.flush()


main()
