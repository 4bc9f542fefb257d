"""Python binding under monitoring: every result is compared with the C++
library called directly (py_ref.cpp), every error with what NumPy's rules say,
and inputs, reference counts and threads are watched.
modes: ops (free functions), hist (histories of the clipper classes),
err (misuse), par (threads, leaks)"""
import sys, os, json, weakref, ctypes, mmap, struct, gc, threading, hashlib
import numpy as np
import polyops as P

ARGS = {}
for a in sys.argv[1:]:
    k, _, v = a.partition('=')
    ARGS[k] = v
MODE = ARGS['--mode']
SEED = int(ARGS.get('--seed', 1))
CASES = int(ARGS.get('--cases', 100))
SHARD = int(ARGS.get('--shard', 0))
NSH = int(ARGS.get('--nshards', 1))
ONLY = int(ARGS['--only']) if '--only' in ARGS else None

lib = ctypes.CDLL(os.environ['VERIF_PYREF'])
for n, r, a in (('ref_new', ctypes.c_void_p, [ctypes.c_int]), ('ref_free', None, [ctypes.c_void_p]),
                ('ref_add', None, [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]),
                ('ref_add_offset', None, [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_int]),
                ('ref_set_orig', None, [ctypes.c_void_p, ctypes.c_size_t]), ('ref_get_orig', ctypes.c_size_t, [ctypes.c_void_p]),
                ('ref_reset', None, [ctypes.c_void_p]), ('ref_execute', ctypes.c_size_t, [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]),
                ('ref_data', ctypes.POINTER(ctypes.c_int64), [ctypes.c_void_p])):
    f = getattr(lib, n)
    f.restype, f.argtypes = r, a

class Viol(Exception):
    def __init__(self, key, detail):
        self.key, self.detail = key, detail

ctr = {}
def count(k, n=1):
    ctr[k] = ctr.get(k, 0) + n

class Ref:
    """the C++ library itself"""
    def __init__(self, tracked):
        self.t = tracked
        self.h = lib.ref_new(int(tracked))
    def __del__(self):
        lib.ref_free(self.h)
    def add(self, ar, bset, off=None):
        d = np.ascontiguousarray(ar, dtype=np.int64)
        if d.shape[0] == 0:
            return
        if off is None:
            lib.ref_add(self.h, d.ctypes.data, d.shape[0], int(bset))
        else:
            lib.ref_add_offset(self.h, d.ctypes.data, d.shape[0], int(bset), off[0], off[1], int(off[2]))
    def execute(self, op, tree):
        n = lib.ref_execute(self.h, int(op), int(tree))
        p = lib.ref_data(self.h)
        self.v = p[:n]
        self.i = 0
        r = self._loops(tree)
        assert self.i == n
        return r
    def _next(self):
        self.i += 1
        return self.v[self.i - 1]
    def _loops(self, tree):
        out = []
        for _ in range(self._next()):
            pts, orig = [], []
            for _ in range(self._next()):
                x, y, k = self._next(), self._next(), self._next()
                pts.append((x, y))
                orig.append([self._next() for _ in range(k)] if k >= 0 else None)
            out.append((pts, orig, self._loops(True) if tree else None))
        return out

def same_point_map(m, orig, n):
    if type(m) is not P.PointMap:
        raise Viol('point-map type', 'originals is a ' + str(type(m)))
    if len(m) != n or len(m.offsets) != n + 1:
        raise Viol('point-map length', 'the point map has %d entries for %d points' % (len(m), n))
    if m.offsets.dtype != np.intp or m.indices.dtype != np.intp:
        raise Viol('point-map dtype', '%s %s' % (m.offsets.dtype, m.indices.dtype))
    got = [list(map(int, m[i])) for i in range(n)]
    if got != orig:
        raise Viol('point-map', 'origins %s instead of %s' % (got, orig))
    flat = [x for o in orig for x in o]
    if list(map(int, m.indices)) != flat or int(m.offsets[0]) != 0 or int(m.offsets[-1]) != len(flat):
        raise Viol('point-map arrays', 'offsets %s indices %s for %s' % (m.offsets, m.indices, orig))
    exp = [i for i, o in enumerate(orig) for _ in o]
    if list(map(int, m.index_map())) != exp:
        raise Viol('index_map', '%s instead of %s' % (m.index_map(), exp))
    out = np.full(len(flat), -7, dtype=np.intp)
    r = m.index_map(out)
    if r is not out or list(map(int, out)) != exp:
        raise Viol('index_map out', 'not written to the given array')
    for bad in (-1, n, n + 5):
        try:
            m[bad]
        except IndexError:
            continue
        raise Viol('point-map index', 'index %d of %d is accepted' % (bad, n))
    count('point_maps_compared')

def same_loops(got, want, tree, tracked, dtype):
    if type(got) is not tuple:
        raise Viol('result type', 'the result is a %s' % type(got))
    if len(got) != len(want):
        raise Viol('result loops', '%d loops instead of %d' % (len(got), len(want)))
    for g, (pts, orig, kids) in zip(got, want):
        if tree or tracked:
            names = {(True, False): P.RecursiveLoop, (False, True): P.TrackedLoop, (True, True): P.TrackedRecursiveLoop}[(tree, tracked)]
            if type(g) is not names:
                raise Viol('result class', 'a loop is a %s' % type(g))
            a = g.loop
        else:
            a = g
        if type(a) is not np.ndarray or a.dtype != dtype:
            raise Viol('result dtype', 'dtype %s instead of %s' % (getattr(a, 'dtype', type(a)), dtype))
        if a.shape != (len(pts), 2) or not a.flags.writeable or not a.flags.owndata:
            raise Viol('result shape', 'shape %s, %d points' % (a.shape, len(pts)))
        exp = np.array(pts, dtype=np.int64).reshape(-1, 2).astype(dtype)
        if not np.array_equal(a, exp):
            raise Viol('result points', '%s instead of %s' % (a.tolist(), exp.tolist()))
        count('loops_compared')
        if tracked:
            same_point_map(g.originals, orig, len(pts))
        if tree:
            same_loops(g.children, kids, tree, tracked, dtype)
            if kids:
                count('children_compared', len(kids))

INT = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
# ------------------------------------------------------------- generation

def gen_loop(r, lim, dt):
    """one loop as an exotic array-like; returns (object, exact int64 array, NumPy dtype)"""
    kind = r.integers(0, 7)
    lo = 0 if dt.startswith('u') else -lim
    if kind == 0:
        n = int(r.integers(0, 4))
        pts = r.integers(lo, lim + 1, (n, 2))
    elif kind < 3:
        x0, y0 = r.integers(lo, lim, 2)
        x1, y1 = int(r.integers(x0 + 1, lim + 1)), int(r.integers(y0 + 1, lim + 1))
        pts = np.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1]])
        if r.integers(0, 4) == 0:
            pts = pts[::-1]
    elif kind < 5:
        n = int(r.integers(3, 12))
        a = np.sort(r.random(n)) * 2 * np.pi
        c = (lim + lo) / 2
        rad = (lim - lo) / 2 * (0.2 + 0.8 * r.random(n))
        pts = np.stack([c + rad * np.cos(a), c + rad * np.sin(a)], 1).astype(np.int64)
    else:
        n = int(r.integers(3, 10))
        pts = r.integers(lo, lim + 1, (n, 2))
    if len(pts) and r.integers(0, 5) == 0:
        k = int(r.integers(0, len(pts)))
        pts = np.insert(pts, k, pts[k], 0)
    pts = pts.astype(np.int64)
    base = pts.astype(dt)
    how = int(r.integers(0, 16))
    if how == 0:
        obj = pts.tolist()
        if not obj:
            obj = base
    elif how == 1:
        obj = [tuple(map(int, p)) for p in pts] or base
    elif how == 2:
        obj = np.asfortranarray(base)
    elif how == 3:
        big = np.full((2 * len(pts) + 1, 5), 77, dtype=dt)
        big[1::2][:, 1:4:2] = base
        obj = big[1::2][:, 1:4:2]
    elif how == 4:
        obj = np.ascontiguousarray(base[::-1])[::-1]
    elif how == 5:
        obj = np.ascontiguousarray(base[:, ::-1])[:, ::-1]
    elif how == 6:
        obj = base.astype(np.dtype(dt).newbyteorder('>'))
    elif how == 7:
        rec = np.zeros(len(pts), dtype=[('pad', 'u1'), ('p', dt, (2,)), ('q', 'i4')])
        rec['p'] = base
        obj = rec['p']
    elif how == 8:
        obj = base.copy()
        obj.flags.writeable = False
    elif how == 9:
        class Sub(np.ndarray):
            pass
        obj = base.view(Sub)
    elif how == 10:
        obj = memoryview(np.ascontiguousarray(base)) if len(pts) else base
    elif how == 11:
        obj = [np.array(p) for p in base] or base
    elif how == 12 and len(pts):
        # all points on a broadcast axis
        col = base[:, :1].copy()
        pts = np.concatenate([pts[:, :1]] * 2, 1)
        obj = np.broadcast_to(col, (len(pts), 2))
    elif how == 13 and len(pts):
        pts = np.repeat(pts[:1], len(pts), 0)
        obj = np.broadcast_to(base[:1], (len(pts), 2))
    elif how == 14:
        class Iface:
            def __array__(self, *a, **k):
                return base
        obj = Iface()
    else:
        obj = base
    count('input form %d' % how)
    d = np.asarray(obj)
    if not np.array_equal(d.astype(np.int64), pts.reshape(d.shape)):
        raise RuntimeError('generator is wrong: %r %r' % (d, pts))
    return obj, pts, d.dtype

LIM = {'i1': 100, 'u1': 200, 'i2': 30000, 'u2': 60000}
def gen_loops(r, kmax, exotic=True):
    one = str(r.choice(INT)) if r.integers(0, 2) else None
    size = int(r.choice([8, 30, 100, 1000, 1 << 20]))
    out = []
    for _ in range(int(r.integers(0, kmax + 1))):
        dt = one or str(r.choice(INT))
        if r.integers(0, 6) == 0:
            dt = str(r.choice(['f8', 'f4', 'O']))
        out.append(gen_loop(r, min(size, LIM.get(dt, size)), dt))
    return out

def promote(dts, cur=None):
    for d in dts:
        cur = d if cur is None else np.promote_types(d, cur)
    return cur

def as_iterable(r, objs):
    k = int(r.integers(0, 4))
    return objs if k == 0 else tuple(objs) if k == 1 else iter(objs) if k == 2 else (o for o in objs)

class Watch:
    """inputs must come back untouched"""
    def __init__(self, loops):
        self.l = loops
        self.before = [np.array(np.asarray(o), copy=True) for o, _, _ in loops]
    def check(self):
        for (o, _, _), b in zip(self.l, self.before):
            a = np.asarray(o)
            if a.shape != b.shape or not np.array_equal(a, b):
                raise Viol('input changed', 'an input array was modified')

CAST = ['no', 'equiv', 'safe', 'same_kind', 'unsafe']
OUT = [None, None, None, 'i8', 'i4', 'f8', 'f4', '>i4', 'O', 'i2', np.int64, np.dtype('<u8'), float]
note = ''

def run_op(r):
    global note
    fn = int(r.integers(0, 4))
    subj = gen_loops(r, 4)
    clip = gen_loops(r, 3) if fn == 2 else []
    tree, tracked = bool(r.integers(0, 2)), bool(r.integers(0, 2))
    casting = str(r.choice(['same_kind', 'unsafe', 'unsafe', 'safe', 'equiv', 'no']))
    out = OUT[int(r.integers(0, len(OUT)))]
    op = P.BoolOp(int(r.integers(0, 5)))
    mag, step, closed = float(r.integers(-30, 31)) / 2, int(r.integers(1, 20)), bool(r.integers(0, 2))
    if mag == 0:
        mag = 3.0
    kw = {}
    if casting != 'same_kind' or r.integers(0, 2):
        kw['casting'] = casting
    if out is not None:
        kw['dtype'] = out
    if tree or r.integers(0, 2):
        kw['tree_out'] = tree
    if tracked or r.integers(0, 2):
        kw['track_points'] = tracked
    note = 'fn=%d op=%s subject=%s clip=%s mag=%s step=%s closed=%s %s' % (fn, op, [(p.tolist(), str(d)) for _, p, d in subj], [(p.tolist(), str(d)) for _, p, d in clip], mag, step, closed, kw)
    ref = Ref(tracked)
    off = (mag, step, closed) if fn == 3 else None
    # a cast is only needed for loops which have points
    fails = any(len(p) and not np.can_cast(d, np.int64, casting) for _, p, d in subj + clip)
    ok = not fails
    if ok:
        for _, p, _ in subj:
            ref.add(p, 0, off)
        for _, p, _ in clip:
            ref.add(p, 1)
    w = Watch(subj + clip)
    so, co = [o for o, _, _ in subj], [o for o, _, _ in clip]
    try:
        if fn == 0:
            got, op = P.union(as_iterable(r, so), **kw), P.BoolOp.union
        elif fn == 1:
            got, op = P.normalize(as_iterable(r, so), **kw), P.BoolOp.normalize
        elif fn == 2:
            got = P.boolean_op(as_iterable(r, so), as_iterable(r, co), op if r.integers(0, 2) else int(op), **kw)
        else:
            got, op = P.offset(as_iterable(r, so), mag, step, **({} if closed and r.integers(0, 2) else {'closed': closed}), **kw), P.BoolOp.union
    except TypeError as e:
        if ok:
            raise Viol('unexpected TypeError', str(e))
        count('casts_refused')
        w.check()
        return
    if not ok:
        raise Viol('cast accepted', 'input that cannot be cast under rule %s was accepted' % casting)
    del so, co
    w.check()
    if not (subj + clip):
        if got != ():
            raise Viol('empty input', 'no input gives %r' % (got,))
        return
    dtype = promote([d for _, _, d in subj + clip]) if out is None else np.dtype(out)
    want = ref.execute(op, tree)
    # the conversion of the result is defined only where it fits
    if out is not None and dtype.kind in 'iu' and want:
        def ext(ls):
            for pts, _, kids in ls:
                for x, y in pts:
                    yield x
                    yield y
                if kids:
                    yield from ext(kids)
        info = np.iinfo(dtype)
        if any(v < info.min or v > info.max for v in ext(want)):
            count('results_too_wide')
    same_loops(got, want, tree, tracked, dtype)
    if want:
        nontrivial(note)
    for obj, pts, d in subj:
        if len(pts) and np.can_cast(d, np.int64, casting):
            exact = sum(int(pts[i][0]) * int(pts[(i + 1) % len(pts)][1]) - int(pts[(i + 1) % len(pts)][0]) * int(pts[i][1]) for i in range(len(pts)))
            g = P.winding_dir(obj, casting=casting)
            if type(g) is not int or g != exact:
                raise Viol('winding_dir', '%r instead of %d for %s' % (g, exact, pts.tolist()))
            count('winding_dirs')

def run_hist(r):
    global note
    tracked = bool(r.integers(0, 2))
    c = P.TrackedClipper() if tracked else P.Clipper()
    ref = Ref(tracked)
    cur = None
    log = []
    for _ in range(int(r.integers(3, 14))):
        k = int(r.integers(0, 12))
        if k < 5:
            many = bool(r.integers(0, 2))
            loops = gen_loops(r, 3) if many else [x for x in gen_loops(r, 3)[:1]]
            if not many and not loops:
                continue
            bset = int(r.integers(0, 2))
            casting = str(r.choice(['unsafe', 'unsafe', 'same_kind']))
            off = (float(r.integers(1, 20)) * (1 if r.integers(0, 2) else -1), int(r.integers(1, 20)), bool(r.integers(0, 2))) if r.integers(0, 4) == 0 else None
            log.append('add%s set=%d %s off=%s' % ('s' if many else '', bset, [(p.tolist(), str(d)) for _, p, d in loops], off))
            note = 'tracked=%s ' % tracked + ' | '.join(log)
            fails = [len(p) > 0 and not np.can_cast(d, np.int64, casting) for _, p, d in loops]
            name = ('add_offset' if off else 'add_loop') + ('s' if many else '')
            args = []
            explicit = bool(r.integers(0, 2))
            if explicit:
                args.append(P.BoolSet(bset) if r.integers(0, 2) else bset)
            else:
                name += '_subject' if bset == 0 else '_clip'
            if off:
                args += [off[0], off[1]]
                if not off[2] or r.integers(0, 2):
                    args.append(off[2])
            w = Watch(loops)
            data = as_iterable(r, [o for o, _, _ in loops]) if many else loops[0][0]
            try:
                getattr(c, name)(data, *args, casting=casting)
                if any(fails):
                    raise Viol('cast accepted', name + ' accepted input that cannot be cast')
            except TypeError as e:
                if not any(fails):
                    raise Viol('unexpected TypeError', str(e))
                # what was added before the failure is unspecified: start over
                c.reset()
                lib.ref_reset(ref.h)
                cur = None
                count('failed_adds')
                del data
                continue
            del data
            w.check()
            for _, p, _ in loops:
                ref.add(p, bset, off)
            cur = promote([d for _, _, d in loops], cur)
        elif k < 9:
            op = P.BoolOp(int(r.integers(0, 5)))
            tree = bool(r.integers(0, 2))
            out = OUT[int(r.integers(0, len(OUT)))]
            log.append('execute %s tree=%s dtype=%s' % (op, tree, out))
            note = 'tracked=%s ' % tracked + ' | '.join(log)
            kw = {} if out is None else {'dtype': out}
            got = c.execute(op, tree_out=tree, **kw)
            if cur is None:
                if got != ():
                    raise Viol('execute without input', repr(got))
                continue
            want = ref.execute(op, tree)
            same_loops(got, want, tree, tracked, cur if out is None else np.dtype(out))
            cur = None
            count('executions_in_histories')
            if want:
                nontrivial(note)
        elif k == 9:
            log.append('reset')
            c.reset()
            lib.ref_reset(ref.h)
            cur = None
        elif k == 10 and tracked:
            if c.next_orig_i != lib.ref_get_orig(ref.h):
                raise Viol('next_orig_i', '%d instead of %d' % (c.next_orig_i, lib.ref_get_orig(ref.h)))
            v = int(r.integers(0, 1 << 40))
            log.append('next_orig_i=%d' % v)
            note = ' | '.join(log)
            c.next_orig_i = v
            lib.ref_set_orig(ref.h, v)
            count('origin_numbers_set')
        else:
            gc.collect()

def raises(exc, f, what):
    try:
        f()
    except exc:
        count('misuses_refused')
        return
    except Exception as e:
        raise Viol('misuse: ' + what, 'raised %r instead of %s' % (e, exc))
    raise Viol('misuse: ' + what, 'was accepted')

class Boom(Exception):
    pass

def run_err(r):
    """misuse is refused with an exception, and nothing is broken afterwards"""
    global note
    sq = [[0, 0], [20, 0], [20, 20], [0, 20]]
    good = gen_loop(r, 50, 'i4')
    def broken():
        yield good[0]
        raise Boom()
    class BadArray:
        def __array__(self, *a, **k):
            raise Boom()
    tests = [
        (TypeError, lambda: P.union([[1, 2, 3]]), 'one dimension'),
        (TypeError, lambda: P.union([[[1, 2, 3], [3, 4, 5]]]), 'points with three coordinates'),
        (TypeError, lambda: P.union([[[[1, 2]]]]), 'three dimensions'),
        (TypeError, lambda: P.union(5), 'not iterable'),
        (TypeError, lambda: P.union([5]), 'scalar loop'),
        (Boom, lambda: P.union(broken()), 'failing iterator'),
        (Boom, lambda: P.union([BadArray()]), 'failing conversion'),
        (Boom, lambda: P.boolean_op([good[0]], broken(), P.BoolOp.xor, track_points=True), 'failing iterator of clip'),
        ((TypeError, ValueError), lambda: P.boolean_op([sq], [sq], 5), 'operation 5'),
        ((TypeError, ValueError), lambda: P.boolean_op([sq], [sq], -1), 'operation -1'),
        ((TypeError, ValueError), lambda: P.boolean_op([sq], [sq], 'union'), 'operation as text'),
        ((TypeError, OverflowError), lambda: P.boolean_op([sq], [sq], 1 << 40), 'huge operation'),
        (ValueError, lambda: P.offset([sq], 3, 0), 'arc step 0'),
        (ValueError, lambda: P.offset([sq], 3, -4), 'negative arc step'),
        ((TypeError, OverflowError), lambda: P.offset([sq], 3, 1 << 40), 'huge arc step'),
        (TypeError, lambda: P.offset([sq], 'x', 3), 'magnitude as text'),
        ((TypeError, ValueError), lambda: P.union([sq], casting='nonsense'), 'casting rule'),
        (TypeError, lambda: P.union([sq], dtype='nonsense'), 'dtype name'),
        (TypeError, lambda: P.union([np.array(sq, dtype='c16')]), 'complex coordinates'),
        ((TypeError, ValueError), lambda: P.union([np.array([['a', 'b'], ['c', 'd']])], casting='unsafe'), 'text coordinates'),
        ((TypeError, ValueError), lambda: P.union([np.array([[None, None], [1, 2]], dtype='O')], casting='unsafe'), 'None as coordinate'),
        ((TypeError, OverflowError), lambda: P.union([np.array([[1 << 80, 0], [1, 2], [5, 9]], dtype='O')], casting='unsafe'), 'coordinate out of range'),
        (TypeError, lambda: P.winding_dir([1, 2]), 'winding_dir of one dimension'),
        (TypeError, lambda: P.winding_dir([[1.5, 2.5]]), 'winding_dir of fractions'),
        (TypeError, lambda: P.PointMap(np.zeros(3, dtype='f8'), np.zeros(3, dtype=np.intp)), 'point map with fractions'),
        (TypeError, lambda: P.PointMap(np.zeros(6, dtype=np.intp)[::2], np.zeros(3, dtype=np.intp)), 'point map with gaps'),
        (TypeError, lambda: P.union([sq], dtype=[('a', 'i4')], casting='no', track_points=1, tree_out=1, nonsense=2), 'unknown argument'),
    ]
    order = r.permutation(len(tests))[:10]
    c = P.TrackedClipper() if r.integers(0, 2) else P.Clipper()
    for i in order:
        exc, f, what = tests[int(i)]
        note = what
        raises(exc, f, what)
    for what, exc, f in (
            ('set 2', (TypeError, ValueError), lambda: c.add_loop(sq, 2)), ('set -1', (TypeError, ValueError), lambda: c.add_loops([sq], -1)),
            ('set of an offset', (TypeError, ValueError), lambda: c.add_offset(sq, 7, 3, 3)), ('set of offsets', (TypeError, ValueError), lambda: c.add_offsets([sq], 7, 3, 3)),
            ('arc step', ValueError, lambda: c.add_offset_subject(sq, 3, 0)), ('operation of execute', (TypeError, ValueError), lambda: (c.add_loop_subject(sq), c.execute(9))),
            ('dtype of execute', TypeError, lambda: (c.add_loop_subject(sq), c.execute(0, dtype='nonsense'))), ('failing iterator', Boom, lambda: c.add_loops_clip(broken()))):
        if r.integers(0, 2):
            note = what
            raises(exc, f, what)
    # afterwards everything works as before
    c.reset()
    ref = Ref(type(c) is P.TrackedClipper)
    loops = [x for x in gen_loops(r, 3) if np.can_cast(x[2], np.int64, 'same_kind') or not len(x[1])]
    c.add_loop_subject(sq)
    ref.add(np.array(sq), 0)
    c.add_loops_clip([o for o, _, _ in loops])
    for _, p, _ in loops:
        ref.add(p, 1)
    op = P.BoolOp(int(r.integers(0, 5)))
    note = 'after misuse: %s %s' % (op, [p.tolist() for _, p, _ in loops])
    got = c.execute(op, dtype='i8')
    want = ref.execute(op, False)
    # the rounding generator may have been advanced by an operation that failed later
    same_loops(got, want, False, type(c) is P.TrackedClipper, np.dtype('i8'))
    nontrivial(note)

def simple(r):
    fn = int(r.integers(0, 3))
    loops = [gen_loop(r, 300, 'i4') for _ in range(4)]
    tree, tracked = bool(r.integers(0, 2)), bool(r.integers(0, 2))
    op = P.BoolOp(int(r.integers(0, 5)))
    a, b = [x[0] for x in loops[:2]], [x[0] for x in loops[2:]]
    def go(tree=tree, tracked=tracked):
        if fn == 0:
            return P.boolean_op(a, b, op, tree_out=tree, track_points=tracked)
        if fn == 1:
            return P.offset(a + b, 7.5, 4, tree_out=tree, track_points=tracked)
        c = P.TrackedClipper() if tracked else P.Clipper()
        c.add_loops_subject(a)
        c.add_offsets_clip(b, 3.0, 2)
        return c.execute(op, tree_out=tree)
    ref = Ref(tracked)
    for i, (_, p, _) in enumerate(loops):
        ref.add(p, int(i >= 2) if fn != 1 else 0, (7.5, 4, True) if fn == 1 else (3.0, 2, True) if fn == 2 and i >= 2 else None)
    want = ref.execute(P.BoolOp.union if fn == 1 else op, tree)
    dt = promote([d for _, _, d in loops])
    return go, want, tree, tracked, dt

def run_par(r):
    """independent operations in several threads, and steady memory"""
    global note
    jobs = [simple(r) for _ in range(4)]
    note = 'threads'
    errs = []
    start = threading.Barrier(4)
    def work(j):
        go, want, tree, tracked, dt = j
        try:
            start.wait()
            for _ in range(6):
                same_loops(go(), want, tree, tracked, dt)
                count('threaded_operations')
        except Viol as e:
            errs.append(e)
        except Exception as e:
            errs.append(Viol('exception in a thread', repr(e)))
    ts = [threading.Thread(target=work, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    go = jobs[0][0]
    note = 'leaks'
    descr = np.dtype('i4')
    def rounds(n):
        for _ in range(n):
            go()
            try:
                P.union([[1, 2, 3]])
            except TypeError:
                pass
            try:
                P.union([[[1.5, 2], [3, 4], [8, 1]]])
            except TypeError:
                pass
            P.union([[[0, 0], [9, 0], [5, 5]]], dtype='i4', tree_out=True, track_points=True)
    rounds(10)
    best = None
    for _ in range(4):   # the smallest growth of several attempts, at least one block each time: caches and free lists are not leaks
        gc.collect()
        b0, r0 = sys.getallocatedblocks(), sys.getrefcount(descr)
        rounds(100)
        gc.collect()
        g = (sys.getallocatedblocks() - b0, sys.getrefcount(descr) - r0)
        best = g if best is None else (min(best[0], g[0]), min(best[1], g[1]))
        if best[0] < 100 and best[1] < 100:
            break
    if best[0] >= 100:
        raise Viol('leak', '%d blocks more after 100 repetitions' % best[0])
    if best[1] >= 100:
        raise Viol('dtype references', 'references to a dtype grow by %d in 100 repetitions' % best[1])
    # inputs and results are released
    def probe():
        arrs = [np.array([[0, 0], [50, 0], [50, 50], [0, 50]], dtype=d) for d in ('i8', 'i4', 'f8', 'O', 'i2')]
        dead = [weakref.ref(a) for a in arrs]
        for tree in (False, True):
            for tracked in (False, True):
                for out in (None, 'i4', 'O'):
                    got = P.union(arrs, casting='unsafe', dtype=out, tree_out=tree, track_points=tracked)
                    dead.append(weakref.ref(got[0].loop if tree or tracked else got[0]))
                    c = P.TrackedClipper() if tracked else P.Clipper()
                    c.add_loops_subject(arrs[:2])
                    c.add_offset_subject(arrs[4], 3.0, 2)
                    dead.append(weakref.ref(c))
                    got = c.execute(0, dtype=out, tree_out=tree)
                    dead.append(weakref.ref(got[0].loop if tree or tracked else got[0]))
                    if tracked:
                        dead.append(weakref.ref(got[0].originals.indices))
                    for bad in (arrs[2], arrs[3]):
                        try:
                            c.add_loop_clip(bad)
                        except TypeError:
                            pass
        P.winding_dir(arrs[0])
        return dead
    dead = probe()
    gc.collect()
    if any(d() is not None for d in dead):
        raise Viol('objects kept alive', '%d of %d objects outlive their last use' % (sum(d() is not None for d in dead), len(dead)))
    count('leak_probes')
    nontrivial(note + str(jobs[0][1]))

sigs = set()
nontriv = 0
samples = []
def nontrivial(s):
    global nontriv
    nontriv += 1
    sigs.add(hashlib.md5(s.encode()).hexdigest()[:16])
    if len(samples) < 3:
        samples.append(s[:1200])

def main():
    prog = None
    if ARGS.get('--progress'):
        fd = os.open(ARGS['--progress'], os.O_RDWR | os.O_CREAT, 0o644)
        os.ftruncate(fd, 16)
        prog = mmap.mmap(fd, 16)
        prog[:] = struct.pack('<QQ', 0xffffffffffffffff, 0)
    fn = {'ops': run_op, 'hist': run_hist, 'err': run_err, 'par': run_par}[MODE]
    ev = nv = 0
    for i in ([ONLY] if ONLY is not None else range(SHARD, CASES, NSH)):
        if prog:
            prog[:8] = struct.pack('<Q', i)
        r = np.random.default_rng([SEED, i, ord(MODE[0]), ord(MODE[1])])
        ev += 1
        try:
            fn(r)
        except Viol as e:
            nv += 1
            print('VIOL ' + json.dumps({'case': i, 'key': e.key, 'detail': (e.detail + ' || ' + note)[:6000]}), flush=True)
        except Exception as e:
            nv += 1
            print('VIOL ' + json.dumps({'case': i, 'key': 'exception: ' + type(e).__name__, 'detail': (repr(e) + ' || ' + note)[:6000]}), flush=True)
        if nv >= 25:
            break
    if prog:
        prog[8:] = struct.pack('<Q', 1)
    print('STATS ' + json.dumps({'evals': ev, 'nontrivial': nontriv, 'violations': nv, 'ctr': ctr, 'samples': samples, 'sigs': sorted(sigs)}), flush=True)

main()
