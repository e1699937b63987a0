"""Obligations: contracts of real functions, discharged by symbolic execution, refuted only by a run of the real code."""
import contextlib
import hashlib
import importlib
import io
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import eng, ints, load, npshim, terms
from .eng import Arr, Buf, ENG, cases, paths, CtxPush, NeedRadix
from .ints import IP, ip, sym, Cond, NeedSplit, OutOfReach, PC
from .terms import Term, T, S, ZERO, ONE, pc, fresh


Timeout = eng.Timeout_


# ---------------------------------------------------------------- inputs
class Inputs:
    """declared inputs of a function: name -> (kind, symbol, shape)"""

    def __init__(self):
        self.decl = {}
        self.pre = []

    def real(self, name, *shape, pos=False, symm=False, anti=False, sym_name=None):
        s = sym_name or name
        if pos:
            terms.POS.add(s)
        if symm:
            terms.SYMM.add(s)
        if anti:
            terms.ANTI.add(s)
        self.decl[name] = ('real', s, tuple(ip(x) if not isinstance(x, IP) else x for x in shape))
        return self

    def mask(self, name, n, count):
        """selects `count` (a symbol, or n itself) of n points"""
        ints.SIZES[name] = (count if isinstance(count, IP) else sym(count), ip(n) if not isinstance(n, IP) else n)
        self.decl[name] = ('mask', name, (n,))
        return self

    def const(self, name, v):
        self.decl[name] = ('const', v, ())
        return self

    def int(self, name, p):
        self.decl[name] = ('int', ip(p) if not isinstance(p, IP) else p, ())
        return self

    def spd(self, name, n):
        """symmetric positive definite matrix"""
        n = ip(n) if not isinstance(n, IP) else n
        terms.SYMM.add(name)
        terms.POS.add(f'{name}:diag')
        npshim.SPDN[name] = n
        return self.real(name, n, n)

    def cho(self, name, n, lower):
        """Cholesky factorisation of the symmetric positive definite matrix `name`"""
        self.spd(name, n)
        self.decl[name] = ('cho', (name, lower), self.decl[name][2])
        return self

    def vary(self, name, fn, shape):
        """array with entries given by a function of the indices (for derived inputs)"""
        self.decl[name] = ('fn', fn, shape)
        return self

    def assume(self, *conds):
        self.pre += conds
        return self

    def symbolic(self):
        out = {}
        for k, (kind, s, shape) in self.decl.items():
            if kind == 'real':
                a = Arr(shape, None)
                a.buf = Buf(a.shape_, (lambda s: lambda i, e: S(s, *i))(s), 'f', name=k)
                a.dims = [('a', j, ip(0)) for j in range(len(shape))]
                if not shape:
                    a = Arr((), (lambda s: lambda i, e: S(s))(s))
                out[k] = a
            elif kind == 'fn':
                a = Arr(shape, None)
                a.buf = Buf(a.shape_, s, 'f', name=k)
                a.dims = [('a', j, ip(0)) for j in range(len(shape))]
                out[k] = a
            elif kind == 'cho':
                nm, low = s
                out[k] = (npshim.Chol(Arr(shape, (lambda nm: lambda i, e: S(nm, *i))(nm)), low), low)
            elif kind == 'mask':
                out[k] = Arr(shape, lambda i, e: (_ for _ in ()).throw(OutOfReach('entry of a mask')), 'b', mask=s)
            elif kind == 'int':
                out[k] = eng.si(s)
            else:
                out[k] = s
        return out

    def concrete(self, val):
        import numpy as np
        out = {}
        for k, (kind, s, shape) in self.decl.items():
            sh = tuple(val.int(x) for x in shape) if shape else ()
            if kind == 'real':
                if not sh:
                    out[k] = val.real(s, ())
                else:
                    a = np.zeros(sh)
                    for idx in np.ndindex(*sh):
                        a[idx] = val.real(s, idx)
                    out[k] = a
            elif kind == 'fn':
                a = np.zeros(sh)
                with CtxPush(_concrete_pc(val)):
                    for idx in np.ndindex(*sh):
                        a[idx] = terms.num(_resolve(lambda: s(tuple(ip(x) for x in idx), {}), val), val)
                out[k] = a
            elif kind == 'cho':
                from scipy.linalg import cho_factor
                a = np.array([[val.real(s[0], (i, j)) for j in range(sh[1])] for i in range(sh[0])])
                c = cho_factor(a, lower=s[1])
                junk = np.array([[val.real('junk', (i, j)) for j in range(sh[1])] for i in range(sh[0])])
                out[k] = (np.tril(c[0]) + np.triu(junk, 1) if s[1] else np.triu(c[0]) + np.tril(junk, -1), s[1])
            elif kind == 'mask':
                a = np.zeros(sh, dtype=bool)
                a[list(val.positions(s))] = True
                out[k] = a
            elif kind == 'int':
                out[k] = val.int(s)
            else:
                out[k] = s
        return out


class RVal(terms.Val):
    """a valuation: a model of the integers, and reproducible random reals"""

    def __init__(self, model, q, seed, scale=1.0, mode=None, shake=0.0):
        self.q, self.m, self.seed, self.scale = q, model, seed, scale
        # unusual inputs: 'dup' (coinciding points), ('at', c) (values around a threshold c of the code), 'mag' (magnitudes)
        self.mode, self.shake = mode, shake
        masks = {}
        for k, v in model.items():
            if k.startswith('sub '):
                masks[k[4:]] = v
        self.i, self.masks = {}, masks
        self.cache = {}
        self.zero = False

    def isym(self, y):
        if y in self.i:
            return self.i[y]
        if y in npshim.ARG:
            kind, t, n = npshim.ARG[y]
            xs = []
            old = dict(self.i)
            for k in range(self.int(n)):
                self.i['%x0'] = k
                xs.append(terms.num(t, self))
            self.i = old
            self.i[y] = xs.index(max(xs) if kind == 'max' else min(xs))
            return self.i[y]
        if y in ints._SEL:
            mk, p = ints._SEL[y]
            return self.positions(mk)[self.int(p)]
        v = self.q._value(self.m, y)
        if v is None:
            raise KeyError(y)
        return v

    def positions(self, mk):
        if mk not in self.masks:
            cnt, tot = ints.SIZES[mk]
            r = random.Random(f'{mk}{self.seed}')
            n, c = self.int(tot), self.int(cnt)
            if c > n:
                raise KeyError(mk)
            self.m['sub ' + mk] = self.masks[mk] = tuple(sorted(r.sample(range(n), c)))
        return self.masks[mk]

    def real(self, name, idx):
        sg = 1
        if name in terms.SYMM and len(idx) > 1 and idx[-1] < idx[-2]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        if name in terms.ANTI:
            if idx[-1] == idx[-2]:
                return 0.0
            if idx[-1] < idx[-2]:
                idx = idx[:-2] + (idx[-1], idx[-2])
                sg = -1
        if self.mode == 'dup' and name not in terms.SYMM and len(idx) > 1:
            if name in terms.ANTI:
                idx = idx[:-2] + (idx[-2] // 2, idx[-1] // 2)
                if idx[-2] == idx[-1]:
                    return 0.0
            else:
                idx = (idx[0] // 2,) + idx[1:]
        k = (name, idx)
        if k not in self.cache:
            if name == 'nan':
                v = float('nan')
            elif name == 'inf':
                v = float('inf')
            elif name == 'pi':
                v = math.pi
            elif name == 'ln10':
                v = math.log(10)
            elif name in npshim.EXT:
                return self.extreme(name, idx)
            elif name in npshim.SPDN or name in npshim.LIND:
                return self.matrix(name)[idx]
            else:
                h = int(hashlib.sha256(f'{name}|{idx}|{self.seed}'.encode()).hexdigest()[:12], 16) / 16 ** 12
                v = (0.3 + 1.4 * h) if name in terms.POS else (2 * h - 1) * 1.2
                v *= self.scale
                if name in terms.MIX:
                    mode = int(hashlib.sha256(f'{name}|mode|{self.seed}'.encode()).hexdigest()[:6], 16) % 3
                    if mode == 1 or mode == 2 and int(h * 1e6) % 3:
                        v *= 1e-11
                if self.mode and self.mode != 'dup':
                    v *= self.factor(name, h)
                if self.shake:
                    v *= 1 + self.shake * (int(h * 1e7) % 7 - 3)
                if self.zero and name in terms.ANTI:
                    v = 0.0
            self.cache[k] = v
        return sg * self.cache[k]

    def shaken(self):
        """the same inputs with other last digits"""
        out = []
        for e in (1e-10, 3e-11):
            k = ('shaken', e)
            if k not in self.cache:
                v = RVal(self.m, self.q, self.seed, self.scale, self.mode, e)
                v.masks, v.zero = self.masks, self.zero
                self.cache[k] = v
            self.cache[k].i = dict(self.i)
            out.append(self.cache[k])
        return out

    def factor(self, name, h):
        u = int(hashlib.sha256(f'{name}|style|{self.seed}'.encode()).hexdigest()[:6], 16)
        if self.mode == 'mag':
            return 10.0 ** (u % 7 - 3)
        c = self.mode[1]
        fs = (1.0, 0.05 * c, 0.4 * c, 2.5 * c, 20 * c, 0.0 if name not in terms.POS else 1.0)
        if u % 4 == 0:
            return 1.0
        return fs[(u // 4 if u % 4 == 1 else int(h * 1e8)) % len(fs)]

    def matrix(self, name):
        """a symmetric positive definite input, or something derived from a matrix"""
        import numpy as np
        k = ('matrix', name)
        if k in self.cache:
            return self.cache[k]
        if name in npshim.SPDN:
            n = self.int(npshim.SPDN[name])
            r = np.random.default_rng(int(hashlib.sha256(f'{name}|{self.seed}'.encode()).hexdigest()[:12], 16))
            a = r.standard_normal((n, n))
            v = a @ a.T / n + np.eye(n) * 0.5
        else:
            what, m = npshim.LIND[name]
            t, n = npshim.LINM[m]
            n = self.int(n)
            a = np.zeros((n, n))
            old = dict(self.i)
            for i in range(n):
                for j in range(n):
                    self.i.update({'%x0': i, '%x1': j})
                    a[i, j] = terms.num(t, self)
            self.i = old
            if what == 'inv':
                v = np.linalg.inv(a)
            elif what == 'chol':
                v = np.diag(np.linalg.cholesky(a))
            elif what == 'is_pd':
                v = np.array(1.0 if np.linalg.eigvalsh(a)[0] > 0 else -1.0)
            elif what == 'eig':
                v = np.linalg.eigvalsh(a)
            elif what in ('eigval', 'eigvec'):
                v = np.linalg.eig(a)[what == 'eigvec']
            elif what.startswith('cond'):
                p = {'None': None, '2': 2, 'fro': 'fro', '1': 1}[what[4:]]
                v = np.array(np.linalg.cond(a, p))
            else:
                raise KeyError(name)
        self.cache[k] = v
        return v

    def extreme(self, name, at=()):
        import itertools
        kind, t, shape = npshim.EXT[name]
        rs = [range(self.int(s)) for s in shape]
        xs = []
        old = dict(self.i)
        for idx in itertools.product(*rs):
            self.i.update({f'%x{k}': v for k, v in enumerate(idx)})
            self.i.update({f'%y{k}': v for k, v in enumerate(at)})
            xs.append(terms.num(t, self))
            self.i = dict(old)
        if any(isinstance(x, complex) for x in xs):
            raise Unresolved('root of a negative number')
        if kind == 'median':
            xs = sorted(xs)
            return (xs[(len(xs) - 1) // 2] + xs[len(xs) // 2]) / 2
        return (max if kind == 'max' else min)([x for x in xs if x == x])


# ---------------------------------------------------------------- the two worlds
class SymWorld:
    sym = True
    np = npshim.NUMPY

    def __init__(self, repo):
        self.shadow = load.Shadow(repo)
        self.undo = []

    def get(self, path):
        """'gpgradpy.src.kernel.Kernel:Kernel' """
        mod, _, name = path.partition(':')
        parts = mod.split('.')
        for k in range(1, len(parts) + 1):
            m = self.shadow.load('.'.join(parts[:k]))
        return getattr(m, name) if name else m

    def patch(self, cls, name, f):
        self.undo.append((cls, name, cls.__dict__.get(name, None)))
        setattr(cls, name, f)

    def unpatch(self):
        for cls, name, old in reversed(self.undo):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.undo = []


class RealWorld:
    sym = False

    @property
    def np(self):
        import numpy
        return numpy

    def __init__(self, repo):
        if repo not in sys.path:
            sys.path.insert(0, repo)

    def get(self, path):
        mod, _, name = path.partition(':')
        m = importlib.import_module(mod)
        return getattr(m, name) if name else m

    def patch(self, *a):
        pass


# ---------------------------------------------------------------- partial objects
UNMODELLED = []


class NotModelled(OutOfReach):
    """the code uses something of an object that the contract does not give it"""


class Pool:
    """the objects of a first run, to be used again (with the state they are in) in the following ones"""

    def __init__(self):
        self.objs, self.again, self.k = [], False, 0

    def next(self, cls):
        if self.k < len(self.objs) and self.objs[self.k][0] is cls:
            self.k += 1
            return self.objs[self.k - 1][1]
        return None

    def rewind(self):
        self.again, self.k = True, 0


POOL = None


def make(cls, **attrs):
    """an object of the class with the given attributes, without running its constructor"""
    def missing(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        UNMODELLED.append(name)
        raise NotModelled(f'attribute {name} of the object')
    if POOL is not None and POOL.again:
        o = POOL.next(cls)
        if o is not None:
            return o
    for k in attrs:
        if VOCABULARY and k not in VOCABULARY:
            raise NotModelled(f'the code has no {k}')
    o = object.__new__(type(cls.__name__, (cls,), {'__getattr__': missing}))
    if POOL is not None:
        POOL.objs.append((cls, o))
    for k, v in attrs.items():
        if hasattr(v, 'bind') and callable(getattr(cls, k, None)):
            v = v.bind(getattr(cls, k))
        setattr(o, k, v)
    return o


# names in the code: a contract on a private name that the code does not have (any more) says nothing about the code
from ..names import vocabulary
VOCABULARY = set()


def own_names():
    import ast
    import glob
    import os
    if not OWN:
        OWN.add('')
        for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '*.py')):
            for n in ast.walk(ast.parse(open(f).read())):
                for k in ('id', 'name', 'arg') if not isinstance(n, ast.keyword) else ():
                    v = getattr(n, k, None)
                    if isinstance(v, str) and v[:1] == '_':
                        OWN.add(v)
    return OWN


OWN = set()


def private_names(f):
    """private names that a function (of a contract) uses"""
    import types
    seen = set()
    out = set()
    todo = [f]
    while todo:
        g = todo.pop()
        if isinstance(g, types.FunctionType):
            if id(g) in seen or not g.__module__.startswith('vlib.ded.c_'):
                continue
            seen.add(id(g))
            for cell in g.__closure__ or ():
                try:
                    todo.append(cell.cell_contents)
                except ValueError:
                    pass
            codes = [g.__code__]
            while codes:
                c = codes.pop()
                for nm in c.co_names:
                    if nm in g.__globals__:
                        todo.append(g.__globals__[nm])
                    elif nm[:1] == '_' and nm[:2] != '__':
                        out.add(nm)
                consts = list(c.co_consts)
                while consts:
                    k = consts.pop()
                    if isinstance(k, types.CodeType):
                        codes.append(k)
                    elif isinstance(k, tuple):
                        consts.extend(k)
                    elif isinstance(k, str) and k[:1] == '_' and k[:2] != '__' and k.isidentifier() and len(k) > 1:
                        out.add(k)
        elif isinstance(g, Ob):
            todo += [g.run, g.stubs]
        elif isinstance(g, (list, tuple)):
            todo.extend(x for x in g if isinstance(x, (types.FunctionType, list, tuple, str)))
        elif isinstance(g, str) and g[:1] == '_' and g[:2] != '__' and g.isidentifier() and len(g) > 1:
            out.add(g)
        elif isinstance(g, dict):
            todo.extend(x for kv in g.items() for x in kv if isinstance(x, (types.FunctionType, list, tuple, str)))
    return out


# errors of the computation itself, which do not come from what a partial object leaves out
class Broken(Exception):
    """raised by the run of an obligation: the result is not one the contract allows"""


class Outside(Exception):
    """the inputs of a run do not meet the preconditions of the obligation"""


HARD = (ValueError, IndexError, ZeroDivisionError, Broken)


def hard(e):
    return isinstance(e, HARD) or type(e) is Exception


def real_run(ob, rw, d):
    """('ok', result), ('raise', exception) or ('skip', reason)"""
    del UNMODELLED[:]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = ('ok', ob.run(rw, d))
    except (NotModelled, Outside) as e:
        r = ('skip', str(e))
    except Exception as e:
        r = ('raise', e)
        if isinstance(e, AttributeError) and VOCABULARY and getattr(e, 'name', None) not in VOCABULARY:
            r = ('skip', f'the code has no {e.name}')
        elif ob.partial and (ob.raises is None or not ob.raises(e, None)) and not hard(e):
            r = ('skip', f'{type(e).__name__}: {e}')
    return r if not UNMODELLED else ('skip', f'attribute {UNMODELLED[0]} of the object')


# ---------------------------------------------------------------- obligations
class Post:
    """out[name][idx] == spec()"""

    def __init__(self, label, out, idx, spec, pre=()):
        self.label, self.out, self.idx, self.spec, self.pre = label, out, tuple(ip(i) if not isinstance(i, IP) else i for i in idx), spec, pre


class Ob:
    """one function under contract"""

    def __init__(self, name, pids, funcs, inputs, run, posts=None, stubs=None, raises=None, atzero=None, frame=True,
                 limit=90, shapes=None, sizes=None, bounded=None, check=None, trusts=(), conformable=True, cost=None, partial=False):
        # partial: the object has only the attributes the contract names: an exception does not show anything
        self.partial = partial
        self.name, self.pids, self.funcs = name, tuple(pids), tuple(funcs)
        self.inputs, self.run, self.posts, self.stubs, self.raises = inputs, run, posts, stubs, raises
        self.atzero, self.frame, self.limit, self.shapes = atzero, frame, limit, shapes
        self.bounded = bounded
        self.check = check
        self.trusts, self.conformable = tuple(trusts), conformable
        self.cost = cost if cost is not None else limit


def element(a, idx):
    """term of an output entry"""
    if isinstance(a, (int, float)) or a is None:
        if a is None:
            raise OutOfReach('no value')
        return T(a) if not isinstance(a, float) else terms.const(a)
    a = eng.as_arr(a)
    f = eng._real(a)
    if a.ndim != len(idx):
        raise WrongShape(f'{a.ndim} dimensions instead of {len(idx)}')
    return f(tuple(idx), {})


class WrongShape(Exception):
    pass


class Failure:
    def __init__(self, what, q, post=None, diff=None):
        self.what, self.q, self.post, self.diff = what, q, post, diff


def _alarm(*a):
    raise Timeout()


class Result:
    def __init__(self, ob):
        self.ob, self.status, self.why = ob, 'discharged', ''
        self.obligations = self.discharged = 0
        self.replay = None
        self.seconds = 0.0
        self.conformed = 0


def prove(ob, repo, numeric=True):
    """discharge one obligation"""
    r = Result(ob)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, ob.limit, 10)
    w = None
    fails, und = [], []
    if not VOCABULARY:
        VOCABULARY.update(vocabulary(repo))
    lost = sorted(x for x in (private_names(ob.run) | private_names(ob.stubs)) - own_names() if not any(v.endswith(x) for v in VOCABULARY))
    if lost:
        r.status, r.why, r.obligations = 'undecided', f'the code has no {", ".join(lost)}', 1
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        return r
    try:
        base = PC()
        terms.CTX[:] = [base]
        w = SymWorld(repo)
        inp = ob.inputs()
        for c in inp.pre:
            if not eng.assume(c, True):
                raise OutOfReach('contradictory precondition')

        def once():
            w.unpatch()
            if ob.stubs:
                ob.stubs(w)
            d = inp.symbolic()
            out = ob.run(w, d)
            return d, out
        npaths = 0
        for q, res, exc in paths(once):
            npaths += 1
            _path(ob, inp, q, res, exc, r, fails, und)
        if not npaths:
            raise OutOfReach('no path')
    except Timeout:
        und.append('time limit')
    except (OutOfReach, NeedSplit, NeedRadix, RecursionError, MemoryError) as e:
        und.append(f'{type(e).__name__}: {e}'[:300])
    except Exception as e:
        und.append(f'{type(e).__name__}: {e} at {_where(e)}'[:300])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if w is not None:
            w.unpatch()
    if fails or und:
        r.obligations = max(r.obligations, r.discharged + 1)
    if fails:
        rep = None
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 60, 10)
            rep = replay(ob, inp, fails, repo)
        except Timeout:
            pass
        except Exception as e:
            und.append(f'replay: {type(e).__name__}: {e} at {_where(e)}')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if rep is not None:
            r.status, r.why, r.replay = 'refuted', rep['what'], rep
        else:
            r.status = 'undecided'
            r.why = '; '.join(sorted({f.what for f in fails}) + und)[:400] + ' (not confirmed on the real code)'
    elif und:
        r.status, r.why = 'undecided', '; '.join(dict.fromkeys(und))[:400]
    if r.status == 'undecided':
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 50, 10)
            rep = sample(ob, ob.inputs(), repo)
            if rep is not None:
                r.status, r.why, r.replay = 'refuted', rep['what'], rep
        except Timeout:
            pass
        except Exception as e:
            r.why += f' (sampling: {type(e).__name__}: {e} at {_where(e)})'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    r.seconds = time.time() - t0
    return r


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/repo' in f.filename:
            return f'{os.path.basename(f.filename)}:{f.lineno}'
    return f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else ''


def _path(ob, inp, q, res, exc, r, fails, und):
    if exc is not None:
        r.obligations += 1
        if ob.raises is not None and ob.raises(exc, q):
            r.discharged += 1
        else:
            fails.append(Failure(f'{type(exc).__name__}: {exc} at {_where(exc)}'[:200], q))
        return
    if ob.raises is not None and ob.posts is None and ob.check is None:
        r.obligations += 1
        fails.append(Failure('no exception', q))
        return
    d, out = res
    # frame: the arguments are not modified
    if ob.frame:
        r.obligations += 1
        bad = [k for k, a in d.items() if isinstance(a, Arr) and a.buf is not None and a.buf.written]
        if bad:
            fails.append(Failure(f'argument {", ".join(bad)} is modified', q))
        else:
            r.discharged += 1
    if ob.shapes:
        for name, shape in ob.shapes.items():
            r.obligations += 1
            a = eng.as_arr(out[name])
            if a.ndim != len(shape):
                fails.append(Failure(f'{name} has {a.ndim} dimensions', q))
                continue
            ok = all(pc().decide(Cond('==', x - (y if isinstance(y, IP) else ip(y)))) for x, y in zip(a.shape_, shape))
            if ok:
                r.discharged += 1
            else:
                fails.append(Failure(f'shape of {name}: {[pc().norm(x).key for x in a.shape_]}', q))
    if ob.check is not None:
        ob.check(ob, d, out, q, r, fails, und)
    for p in (ob.posts(d, out) if ob.posts else []):
        def one(p=p):
            g = element(out[p.out], [pc().norm(i) for i in p.idx])
            s = p.spec()
            t = terms.settle(g - T(s))
            if not t.d or eng.is_zero(t):
                return None
            if ob.atzero is not None and ob.atzero(t):
                return None
            return t
        n0 = r.obligations
        try:
            q0 = pc().copy()
            with CtxPush(q0):
                dead = False
                for c in p.pre:
                    if not eng.assume(c, True):
                        dead = True
                if dead:
                    continue
                for q2, t in cases(one):
                    r.obligations += 1
                    if t is None:
                        r.discharged += 1
                    else:
                        fails.append(Failure(f'{p.label}', q2, p, t))
        except (OutOfReach, NeedSplit, NeedRadix, RecursionError) as e:
            if r.obligations == n0:
                r.obligations += 1
            und.append(f'{p.label}: {type(e).__name__}: {e}'[:200])
        except WrongShape as e:
            r.obligations += 1
            fails.append(Failure(f'{p.label}: {e}', q))


# ---------------------------------------------------------------- replay on the real code
def _models(q, syms, n):
    out = []
    for _ in range(n * 20):
        m = {}
        if not q._ok(m):
            continue
        ok = True
        for s in syms:
            if q._value(m, s) is None:
                ok = False
                break
        if ok and q._ok(m):
            out.append(m)
            if len(out) >= n:
                break
    return sorted(out, key=lambda m: sum(v for v in m.values() if isinstance(v, int)))


def _decl_syms(inp):
    s = set()
    for k, (kind, x, shape) in inp.decl.items():
        for p in shape:
            s |= (p if isinstance(p, IP) else ip(p)).syms()
        if kind == 'mask':
            s |= ints.SIZES[x][0].syms() | ints.SIZES[x][1].syms()
        if kind == 'int':
            s |= x.syms()
    return s


def _pre_holds(inp, val):
    """do the numbers satisfy the precondition on the reals"""
    try:
        return all(_num_cond(c, val) for c in inp.pre if isinstance(c, eng.RealCond))
    except (Unresolved, KeyError, ZeroDivisionError, ValueError, OverflowError, OutOfReach):
        return False


def replay(ob, inp, fails, repo, tries=16):
    """a run of the real code that shows the failure"""
    import numpy as np
    rw = RealWorld(repo)
    t_end = time.time() + 50
    for f in fails[:12]:
        with CtxPush(f.q):
            syms = set(_decl_syms(inp))
            if f.post is not None:
                for i in f.post.idx:
                    syms |= pc().norm(i).syms() | i.syms()
            for k, m in enumerate(_models(f.q, sorted(syms), tries)):
                if time.time() > t_end:
                    return None
                for seed in (k, 100 + k):
                    val = RVal(dict(m), f.q, seed)
                    try:
                        d = inp.concrete(val)
                    except (KeyError, Unresolved):
                        continue
                    if not _pre_holds(inp, val):
                        continue
                    keep = {n: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for n, v in d.items()}
                    how, out = real_run(ob, rw, d)
                    if how == 'skip':
                        continue
                    err = out if how == 'raise' else None
                    base = dict(function=', '.join(ob.funcs), obligation=ob.name,
                                inputs={n: (v.tolist() if isinstance(v, np.ndarray) else repr(v)) for n, v in keep.items()})
                    if err is not None:
                        if (ob.partial and hard(err) or ob.raises is not None and ob.posts is not None and ob.raises(err, None)) and not f.what.startswith(type(err).__name__ + ':'):
                            continue
                        if ob.raises is None or not ob.raises(err, f.q):
                            return dict(base, what=f'{ob.name}: raises {type(err).__name__}: {err}'[:300])
                        continue
                    if ob.raises is not None and ob.posts is None and ob.check is None:
                        return dict(base, what=f'{ob.name}: does not raise an exception')
                    for n, v in keep.items():
                        if isinstance(v, np.ndarray) and not np.array_equal(v, d[n], equal_nan=v.dtype.kind == 'f'):
                            return dict(base, what=f'{ob.name}: modifies its argument {n}')
                    if ob.shapes:
                        for n, sh in ob.shapes.items():
                            want = tuple(val.int(x if isinstance(x, IP) else ip(x)) for x in sh)
                            if np.shape(out[n]) != want:
                                return dict(base, what=f'{ob.name}: shape of {n} is {np.shape(out[n])} instead of {want}')
                    if f.post is not None and ob.posts is not None:
                        bad = _compare(f.post, out, val)
                        if bad is not None:
                            return dict(base, **bad)
    return None


def _compare(p, out, val):
    """entry of a real run against the contract; None if it agrees (or the contract says nothing there)"""
    import numpy as np
    idx = tuple(val.int(i) for i in p.idx)
    q = _concrete_pc(val)
    with CtxPush(q):
        try:
            for c in p.pre:
                if not (_num_cond(c, val) if isinstance(c, eng.RealCond) else _int_cond(c, val)):
                    return None
            spec = _resolve(p.spec, val)
            want = terms.num(spec, val)
        except (Unresolved, NeedRadix, OutOfReach, KeyError, ZeroDivisionError, ValueError, OverflowError, np.linalg.LinAlgError):
            return None
    if out.get(p.out) is None:      # not available in this case
        return None
    o = np.asarray(out[p.out], dtype=float)
    if o.ndim != len(idx):
        return dict(what=f'{p.label}: {p.out} has {o.ndim} dimensions instead of {len(idx)}')
    if any(not 0 <= j < n for j, n in zip(idx, o.shape)):
        return dict(what=f'{p.label}: {p.out} has shape {o.shape}, it has no entry {list(idx)}')
    got = float(o[idx])
    tol = 1e-6 * (abs(got) + abs(want)) + 1e-10 * _scale(spec, val)
    if val.mode and val.mode != 'dup' and not abs(got) < 1e200:
        return None
    if val.mode:
        # how far a change of the last digits of the inputs can move the value
        for v2 in val.shaken():
            try:
                with CtxPush(_concrete_pc(val)):
                    w2 = terms.num(_resolve(p.spec, v2), v2)
            except (Unresolved, NeedRadix, OutOfReach, KeyError, ZeroDivisionError, ValueError, OverflowError, np.linalg.LinAlgError):
                return None
            if not abs(w2 - want) <= 1e-3 * abs(want) + 1e-12:
                return None
            tol += 100 * abs(w2 - want)
        tol = 100 * tol + 1e-9 * max([1.0] + [abs(x) for x in val.cache.values() if isinstance(x, float) and abs(x) < 1e100])
    if p.out + ' of' in out:    # a difference: what it is small compared to
        tol += 1e-7 * float(np.max(np.abs(np.asarray(out[p.out + ' of'], dtype=float)), initial=0))
    if abs(got - want) <= tol or (got != got and want != want):
        return None
    return dict(what=f'{p.label}: entry {list(idx)} of {p.out} is {got:.12g}, the contract requires {want:.12g}',
                entry=list(idx), got=got, want=want)


def _sign(x):
    x = float(x)
    return (x > 0) - (x < 0)


class Unresolved(Exception):
    pass


def _resolve(f, val):
    """f() in a context where the integers are known; conditions on the reals are decided by the numbers"""
    for _ in range(60):
        try:
            return T(f())
        except NeedSplit as e:
            if not isinstance(e.cond, eng.RealCond) or not eng.assume(e.cond, _num_cond(e.cond, val)):
                raise Unresolved()
    raise Unresolved()


def _num_cond(c, val):
    x = terms.num(c.t, val)
    if getattr(val, 'mode', None) and not val.shake and any(not abs(terms.num(c.t, v) - x) <= 1e-3 * abs(x) for v in val.shaken()):
        raise Unresolved()
    if abs(x) < 1e-9 * _scale(c.t, val) and x != 0:
        raise Unresolved()
    return x > 0 if c.op == '>' else (x >= 0 if c.op == '>=' else x == 0)


def _int_cond(c, val):
    v = val.int(c.p)
    return v == 0 if c.op == '==' else v >= 0


def _constants(limit=5):
    """thresholds on the reals in the conditions that the symbolic execution has met"""
    cs = set()
    for t in list(eng.RTERM.values()):
        c0 = t.d.get((), None)
        if not c0 or len(t.d) > 4:
            continue
        for m, c in t.d.items():
            if m and isinstance(c, (int, float, Fraction)) and isinstance(c0, (int, float, Fraction)):
                a = abs(float(c0) / float(c))
                cs |= {x for x in (a, math.sqrt(a)) if 1e-18 < x < 0.05 or 20 < x < 1e12}
    return sorted(cs)[:limit]


def sample(ob, inp, repo, seconds=15, tries=40, modes=True):
    """the contract on runs of the real code with small random inputs, for obligations that are not decided"""
    import numpy as np
    rw = RealWorld(repo)
    cs = _constants()
    terms.CTX[:] = [PC()]
    for c in inp.pre:
        if not eng.assume(c, True):
            return None
    q = pc()
    ms = _models(q, sorted(_decl_syms(inp)), tries)
    kinds = [None] + ([] if not modes else ['dup', 'mag'] + [('at', c) for c in cs])
    for what in kinds:
        t_end = time.time() + (seconds if what is None else max(1.5, seconds / len(kinds)))
        for k, m in enumerate(ms):
            if time.time() > t_end:
                break
            bad = _sample(ob, inp, rw, q, RVal(dict(m), q, 500 + k, mode=what))
            if bad is not None:
                return bad
    return None


def _posts(ob, inp, val):
    """what the contract says in this case"""
    if not ob.posts:
        return []
    with CtxPush(_concrete_pc(val)):
        for _ in range(60):
            try:
                return ob.posts(inp.symbolic(), None)
            except NeedSplit as e:
                try:
                    if isinstance(e.cond, eng.RealCond):
                        v = _num_cond(e.cond, val)
                    else:
                        for y in e.cond.p.syms():
                            pc().assume(Cond('==', sym(y) - val.isym(y)))
                        v = _int_cond(e.cond, val)
                    if not eng.assume(e.cond, v):
                        return []
                except (Unresolved, KeyError, ZeroDivisionError, ValueError, OverflowError, OutOfReach):
                    return []
    return []


def _sample(ob, inp, rw, q, val):
    """one run"""
    import numpy as np
    try:
        d = inp.concrete(val)
    except (KeyError, Unresolved):
        return None
    except Exception:
        if val.mode:
            return None
        raise
    if not _pre_holds(inp, val):
        return None
    keep = {n: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for n, v in d.items()}
    info = dict(function=', '.join(ob.funcs), obligation=ob.name,
                inputs={n: (v.tolist() if isinstance(v, np.ndarray) else repr(v)) for n, v in keep.items()})
    how, out = real_run(ob, rw, d)
    if how == 'raise' and (ob.raises is None or not ob.raises(out, q)) and (not val.mode or isinstance(out, Broken)):
        return dict(info, what=f'{ob.name}: raises {type(out).__name__}: {out}'[:300])
    if how != 'ok':
        return None
    for n, v in keep.items():
        if ob.frame and isinstance(v, np.ndarray) and not np.array_equal(v, d[n], equal_nan=v.dtype.kind == 'f'):
            return dict(info, what=f'{ob.name}: modifies its argument {n}')
    for n, sh in (ob.shapes or {}).items():
        if out.get(n) is None:
            continue
        want = tuple(val.int(x if isinstance(x, IP) else ip(x)) for x in sh)
        if np.shape(out[n]) != want:
            return dict(info, what=f'{ob.name}: shape of {n} is {np.shape(out[n])} instead of {want}')
    for p in _posts(ob, inp, val):
        for _ in range(6):
            v2 = RVal({y: x for y, x in val.m.items() if not (y in ints.RANGE and y.startswith('~'))}, val.q, val.seed, mode=val.mode)
            v2.cache = val.cache
            if any(v2.q._value(v2.m, y) is None for i in p.idx for y in sorted(i.syms())):
                continue
            bad = _compare(p, out, v2)
            if bad is not None:
                return dict(info, **bad)
    return None


def _concrete_pc(val):
    """a context in which the integers have the values of the valuation"""
    c = PC()
    for y in list(val.m):
        if y.startswith('sub ') or y in c.sub or y in ints._SEL:
            continue
        c.assume(Cond('==', sym(y) - val.m[y]))
    return c


def _scale(t, val):
    r = 0.0
    for m, c in t.d.items():
        r += abs(terms.num(Term({m: c}), val))
    return r


def conform(ob, repo, n=2):
    """the symbolic execution against runs of the real code, at random inputs: list of differences"""
    import numpy as np
    terms.CTX[:] = [PC()]
    w = SymWorld(repo)
    rw = RealWorld(repo)
    inp = ob.inputs()
    for c in inp.pre:
        eng.assume(c, True)

    def once():
        w.unpatch()
        if ob.stubs:
            ob.stubs(w)
        d = inp.symbolic()
        return d, ob.run(w, d)
    bad, cnt = [], 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 60, 10)
    try:
        cnt = _conform(ob, rw, inp, once, n, bad)
    except Timeout:
        cnt = 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    w.unpatch()
    return cnt, bad


def _conform(ob, rw, inp, once, n, bad):
    import numpy as np
    cnt = 0
    for q, res, exc in paths(once):
        if exc is not None:
            continue
        d, out = res
        syms = set(_decl_syms(inp))
        for k, m in enumerate(_models(q, sorted(syms), n)):
            val = RVal(dict(m), q, 1000 + k)
            try:
                dc = inp.concrete(val)
            except (KeyError, Unresolved):
                continue
            try:
                if not all(_sign(terms.num(eng.RTERM[x], val)) in sg for x, sg in q.real.items() if x in eng.RTERM):
                    continue
            except KeyError:
                continue
            with contextlib.redirect_stdout(io.StringIO()):
                ro = ob.run(rw, dc)
            with CtxPush(_concrete_pc(val)):
                for name, a in out.items():
                    if a is None or ro[name] is None:
                        if a is not ro[name]:
                            bad.append((name, 'None'))
                        continue
                    x = np.asarray(ro[name], dtype=float)
                    for _ in range(6):
                        idx = tuple(random.randrange(s) for s in x.shape)
                        try:
                            g = terms.num(_resolve(lambda: element(a, [ip(j) for j in idx]), val), val)
                        except (Unresolved, NeedRadix, KeyError):
                            continue       # depends on a condition on the reals that the path leaves open
                        except OutOfReach:
                            continue
                        cnt += 1
                        if g != g and x[idx] != x[idx]:
                            continue
                        if not abs(g - x[idx]) <= 1e-8 * (1 + abs(g) + abs(x[idx])):
                            bad.append((name, idx, g, float(x[idx])))
    return cnt
