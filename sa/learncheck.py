"""C08 and C20: path analysis of the main loops of the active learners."""
import ast

from . import runs
from .core import Result
from .names import Names
from .oraclecheck import Base
from .paths import *  # noqa: F403
from .paths import iadd, isub, ONE, ZERO, subst_term
from .program import AnalysisBroken
from .recordcheck import mentions
from .sulcheck import drive, verdict

ORA = ('s', 0, 'eq_oracle')
ASK = {'find_cex', 'equivalence_query'}
BUILD = {'gen_hypothesis', 'generate_hypothesis', 'build_hypothesis', 'update_hypothesis'}
STATS = {'num_queries', 'num_steps', 'num_cached_queries'}
NEUTRAL = {'print', 'len', 'round', 'str', 'print_learning_info', 'print_observation_table', 'all_prefixes', 'all_suffixes',
           'isinstance', 'type'}
LIMITS = ('max', 'round', 'stop', 'unambig', 'limit', 'min_', 'n_resample', 'error')
_out = {}


def resizing(names):
    """names of the methods of models that add or remove states"""
    out = set()
    for c in names.subclasses('Automaton'):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith('__'):
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                            'remove', 'append', 'pop', 'clear', 'extend', 'insert') and ast.unparse(n.func.value) == 'self.states' or \
                            isinstance(n, ast.Assign) and any(ast.unparse(t) == 'self.states' for t in n.targets):
                        out.add(f.name)
    return out


class LearnClient(Base):
    TRACKED = ASK | BUILD | STATS

    def __init__(self, names, mode, fn):
        super().__init__(names, None, mode)
        self.fn = fn
        self.oracle = self.sul = None
        for p in params(fn):
            if 'oracle' in p and 'custom' not in p and self.oracle is None:
                self.oracle = ('s', 0, p)
            elif p == 'sul' or 'sul' in p.split('_'):
                self.sul = ('s', 0, p)
        self.suls = {c for c in names.subclasses('SUL')}
        self.resize = resizing(names)
        self.local = {n for n in ast.walk(fn.mod.tree) if isinstance(n, ast.FunctionDef)
                      and isinstance(n.parent, ast.Module) and len(list(ast.walk(n))) < 150}

    def args(self, config=None):
        out = []
        for p in params(self.fn):
            if p in (config or {}):
                out.append(C(config[p]))
            elif ('s', 0, p) in (self.oracle, self.sul):
                out.append(('s', 0, p))
            else:
                out.append(('s', -1, p))
        return out

    def limit(self, t):
        return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 's' and x[1] == -1 and isinstance(x[2], str) and
                   any(l in x[2] for l in LIMITS) for x in walk(t))

    def start(self):
        st = St()
        st.g.update(cex=NONE, asked=NONE, used=C(True), A=ZERO, H=ZERO, S=NONE, learner=NONE, osul=NONE, fresh=C(True),
                    resized=NONE, nres=ZERO, given=EMPTY)
        return st

    def always_inline(self, fn):
        return fn in self.local

    def thin(self, it, s):
        c = s.g['cex']
        none = None if c == NONE else s.facts.get(eqkey(c, NONE))
        lim = tuple(v for k, v in s.facts.items() if k[0] == 't' and self.max_rounds(k[1]))
        return s.g['A'], s.g['H'], s.g['used'], none, lim

    def attr(self, it, s, node, obj, name):
        if name in ('size', 'states') and s.g['resized'] != NONE and it.resolve(s, obj) == s.g['resized']:
            return ('call', '!now', ZERO, s.g['resized'], C(name), s.g['nres'])
        if name in STATS and (obj, name) not in s.fields:
            return ('call', '!stat', ZERO, obj, C(name), s.g['A'])
        return None

    def store(self, it, s, node, obj, name, val):
        if obj == self.oracle and name == 'sul':
            s.g['osul'] = val

    def is_sul(self, t):
        return t == self.sul or t[0] == 'call' and t[1] == '!sul'

    def call(self, it, s, node, recv, name, args, kw):
        vals = list(args) + list(kw.values())
        if name in ASK and recv is not None and vals:
            s = s.copy()
            g = s.g
            self.ob('C08', 'counterexample used', node, s, self.was_used(it, s),
                    'the oracle is asked again although the counterexample reported before was not handed to the learner')
            if g['S'] != NONE and g['S'][0] == 'call' and g['S'][1] == '!sul' and recv == self.oracle:
                o = it.resolve(s, s.fields.get((self.oracle, 'sul'), g['osul']))
                self.ob('C06', 'oracle tests the wrapped system', node, s,
                        True if o == g['S'] else False if o == NONE or o == self.sul else None,
                        f'{self.fn.name} wraps the system but lets the equivalence oracle test the system itself, so nothing '
                        'the tests show is recorded')
            g['A'] = iadd(g['A'], ONE)
            v = it.fresh('!cex', recv)
            g['asked'], g['cex'], g['used'], g['fresh'] = it.resolve(s, vals[0]), v, C(False), C(True)
            return [(s, v)]
        if name in BUILD and recv is not None:
            s = s.copy()
            s.g['H'] = iadd(s.g['H'], ONE)
            return [(s, it.fresh('!hyp', recv))]
        if name in self.resize and recv is not None:
            s = s.copy()
            s.g['resized'], s.g['nres'] = it.resolve(s, recv), iadd(s.g['nres'], ONE)
            return [(s, it.fresh(name, recv, *vals))]
        if recv is None:
            c = self.names.resolve(node.mod.name, name)
            if isinstance(c, ast.ClassDef):
                s = s.copy()
                rv = [it.resolve(s, v) for v in vals]
                if c in self.suls:
                    return [(s, it.fresh('!sul', *rv))]
                v = it.fresh('!new', C(c.name), *rv)
                inner = [x for x in rv if self.is_sul(x) or x[0] == 'f' and x[2] == 'sul']
                if inner and s.g['S'] == NONE:
                    s.g['S'], s.g['learner'] = inner[0], v
                if s.g['cex'] != NONE and any(mentions(x, s.g['cex']) for x in rv):
                    s.g['used'], s.g['fresh'] = C(True), C(False)
                return [(s, v)]
            elif name not in NEUTRAL:
                for x in vals:
                    if self.is_sul(it.resolve(s, x)):
                        s.g['given'] = concat(s.g['given'], mk_seq((('e', mk_pair(it.resolve(s, x), C(name))),)))
        elif name in ('query', 'adaptive_query', 'step', 'pre') and self.is_sul(it.resolve(s, recv)):
            s.g['given'] = concat(s.g['given'], mk_seq((('e', mk_pair(it.resolve(s, recv), C(name))),)))
        if name not in NEUTRAL:
            s2 = s.copy()
            rv = [it.resolve(s2, v) for v in vals]
            if self.use(it, s2, recv, name, rv):
                fn = self.function(it, node, name) if recv is None else None
                if recv is None and fn is not None and it.touches(fn):
                    return None
                return [(s2, it.fresh(name, *([recv] if recv is not None else []), *rv))]
        return None

    def use(self, it, s, recv, name, rv):
        """is the pending counterexample handed to an object of the learner?"""
        c = s.g['cex']
        if c == NONE or not any(mentions(x, c) for x in rv):
            return False
        obj = [x for x in rv + ([recv] if recv is not None else []) if self.structure(x)]
        if obj:
            s.g['used'] = C(True)
            s.g['fresh'] = C(False)
            return True
        return False

    def structure(self, t):
        while t[0] in ('f', 'ver') and len(t) > 1:
            t = t[1]
        return t[0] == 'call' and t[1] == '!new'

    def was_used(self, it, s):
        g = s.g
        c = g['cex']
        if g['used'] == C(True) or c == NONE:
            return True
        if g['used'] != C(False) or c[0] == 's':
            return None
        if any(k[0] == 't' and k[1][0] == 'in' and mentions(k[1][1], c) for k in s.facts):
            return None
        if any(mentions(k, c) and n == 0 for k, n in s.lens.items()):
            return None
        if s.facts.get(('t', c)) is False or s.facts.get(eqkey(c, NONE)) is True:
            return True
        return False

    def at_return(self, it, s, node, v, fn):
        g = s.g
        v2 = it.resolve(s, v)
        h, d = v2, None
        if v2[0] == 'seq' and len(v2[1]) == 2 and all(p[0] == 'e' for p in v2[1]):
            h, d = v2[1][0][1], v2[1][1][1]
        self.outcome(it, s, node, h)
        if d is not None and d[0] == 'd':
            self.info(it, s, node, h, d)

    def outcome(self, it, s, node, h):
        g = s.g
        ob = lambda kind, ok, msg: self.ob('C08', kind, node, s, ok, f'{self.fn.name} {msg}')
        lim = [(k, v) for k, v in s.facts.items() if self.limit(k) and (
            k[0] == 'eq' and v and NONE not in k[1:] and not any(x[0] == 'c' and x[1] == 'str' for x in k[1:]) or
            k[0] == 'pos' or k[0] == 't' and k[1][0] in ('call', 'app') and v)]
        c = g['cex']
        none = it.truth(s, ('eq', c, NONE, 1)) if c != NONE else None
        if c == NONE and g['A'] == ZERO:
            acc = False
        elif none is True or s.facts.get(('t', c)) is False:
            acc = it.tri(s, h, g['asked'])
            if acc is not True and h[0] == 'call' and h[1] == '!hyp' and g['asked'][0] == 'call' and g['asked'][1] == '!hyp' \
                    and h[3] == g['asked'][3]:
                acc = True          # built once more from the same observations
        elif c[0] == 's' or unknown(c):
            acc = None
        else:
            acc = False
        if it.mode == 'refute' and is_int(g['A']) and is_int(g['H']):
            self.rounds(it, s, ob, acc)
        if lim:
            for k, v in lim if it.mode == 'prove' else ():
                if k[0] == 'eq' and v and any(self.max_rounds(x) for x in k[1:]):
                    p = next(x for x in k[1:] if self.max_rounds(x))
                    n = k[2] if k[1] == p else k[1]
                    ok = True if is_int(n) and True in (it.tri(s, n, g['A']), it.tri(s, n, g['H'])) else None
                    ob('limit of rounds', ok, '')
            acc = True
        ob('result accepted', acc, 'returns a hypothesis although the oracle did not report that there is no counterexample '
           'for it and no limit given by the caller was reached')

    def max_rounds(self, x):
        return len(x) == 3 and x[0] == 's' and x[1] == -1 and 'max' in x[2] and 'round' in x[2]

    def rounds(self, it, s, ob, acc):
        """the values of the limit of rounds that lead along this exact path"""
        ps = {x for k in s.facts for x in walk(k) if isinstance(x, tuple) and len(x) == 3 and x[0] == 's' and self.max_rounds(x)}
        A, H = s.g['A'][2], s.g['H'][2]
        for p in ps:
            keys = [(k, v) for k, v in s.facts.items() if mentions(k, p)]
            vals = [n for n in range(1, max(A, H) + 3) if all(self.holds(k, v, p, n) is not False for k, v in keys)]
            if not all(self.holds(k, v, p, n) for k, v in keys for n in vals):
                continue
            if acc is True:
                ob('limit of rounds', all(n >= min(A, H) for n in vals), f'goes on after its limit of {vals[0] if vals else 0} '
                   f'rounds: {A} hypotheses were sent to the oracle and {H} built')
            elif not any(k[0] == 't' and k[1][0] in ('call', 'app') and v and self.limit(k) for k, v in s.facts.items()) and \
                    any(k[0] in ('eq', 'pos') and NONE not in k[1:] for k, v in keys):
                ob('limit of rounds', not vals or vals in ([A], [H]) or (None if max(A, H) not in vals and A != H and not H
                   else False), f'stops by its limit when the limit is {vals} although {A} hypotheses were sent to the oracle '
                   f'and {H} built')

    def holds(self, k, v, p, n):
        q = C(n)
        fold = lambda x: iadd(subst_term(x, p, q), ZERO) if x == p or x[0] == 'lin' else subst_term(x, p, q)
        if k[0] == 'val':
            a = fold(k[1])
            return v == a if a[0] == 'c' else None
        if k[0] == 't':
            a = fold(k[1])
            return bool(v) == bool(a[2]) if a[0] == 'c' else None
        if k[0] == 'eq':
            a, b = (fold(x) for x in k[1:3])
            if a[0] == 'c' and b[0] == 'c':
                return (a == b) == v
            a = isub(a, b) if a[0] != 'c' or is_int(a) else a
            return (a == ZERO) == v if a[0] == 'c' and b[0] != 'c' else None
        if k[0] == 'pos':
            a = iadd(subst_term(k[1], p, q), ZERO)
            return (a[2] > 0) == v if a[0] == 'c' else None
        return None

    def stat(self, it, s, t, obj, name):
        """is t the counter of obj, read after the last question to the oracle?"""
        if t[0] == 'call' and t[1] == '!stat':
            if t[4] != C(name):
                return False
            o = True if t[3] == obj else (False if obj != NONE and not unknown(t[3]) and not unknown(obj) else None)
            return o if o is not True else it.tri(s, t[5], s.g['A'])
        c, d = as_lin(t)
        if d and all(x[0] == 'call' and x[1] == '!stat' for x in d) and (c or len(d) > 1 or set(d.values()) != {1}):
            return False            # counters of different meaning vary independently of each other
        if t[0] == 'app' and t[1] in ('+', '-', '*', '/', '//') and len(t) > 3 and all(
                x[0] == 'call' and x[1] == '!stat' for x in t[2:]):
            return False
        return False if t[0] == 'c' else None

    def minus(self, it, s, t, pos, neg):
        """t == counter pos - counter neg"""
        if t[0] == 'app' and t[1] == '-':
            a, b = self.stat(it, s, t[2], *pos), self.stat(it, s, t[3], *neg)
            return False if False in (a, b) else True if a and b else None
        c, d = as_lin(t)
        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
            p = next(k for k, v in d.items() if v == 1)
            n = next(k for k, v in d.items() if v == -1)
            a, b = self.stat(it, s, p, *pos), self.stat(it, s, n, *neg)
            return False if False in (a, b) else True if a and b else None
        return False if t[0] == 'call' and t[1] == '!stat' else None

    def info(self, it, s, node, h, d):
        g = s.g
        E = {k[2][2]: it.resolve(s, v) for k, v in s.fields.items() if len(k) == 3 and k[0] == d and k[1] == '[]' and k[2][0] == 'c'}
        ob = lambda kind, ok, msg: self.ob('C20', kind, node, s, ok, f'{self.fn.name} {msg}')
        for k in ('learning_rounds', 'automaton_size', 'queries_learning', 'steps_learning', 'queries_eq_oracle',
                  'steps_eq_oracle', 'learning_time', 'eq_oracle_time', 'total_time'):
            ob('entry ' + k, k in E, f'does not report {k}')
        sul = g['S']
        shared = sul != NONE and not self.is_sul(sul)
        if g['osul'] != NONE and g['osul'][0] == 'f' and structure_of(g['osul']) is not None:
            sul, shared = g['osul'], True           # the counters of the trace store include the oracle's
        for p in parts(g['given']) if sul != NONE else ():
            x, f = index(p[1], ZERO), index(p[1], ONE)
            if p[0] == 'e':
                ob('system asked', True if x == sul else False if x == self.sul and not unknown(sul) else None,
                   f'lets {show(f)} ask {show(x)} although it reports the counters of {show(sul)}')
        for k, n in (('queries', 'num_queries'), ('steps', 'num_steps')):
            if k + '_learning' in E and sul != NONE:
                t = E[k + '_learning']
                ok = self.minus(it, s, t, (sul, n), (self.oracle, n)) if shared else self.stat(it, s, t, sul, n)
                ob(k + '_learning', ok, f'reports {show(t)} as {k} of learning')
            if k + '_eq_oracle' in E:
                t = E[k + '_eq_oracle']
                ob(k + '_eq_oracle', self.stat(it, s, t, self.oracle, n), f'reports {show(t)} as {k} of the oracle')
        if 'cache_saved' in E and sul != NONE:
            t = E['cache_saved']
            ob('cache_saved', self.stat(it, s, t, sul, 'num_cached_queries'), f'reports {show(t)} as cached queries')
        if 'automaton_size' in E:
            t = E['automaton_size']
            good = (('f', h, 'size'), length(('f', h, 'states')))
            if g['resized'] != NONE and g['resized'] == h:
                now = [('call', '!now', ZERO, h, C(k), g['nres']) for k in ('size', 'states')]
                stale, good = good, (now[0], length(now[1]))
                if t in stale or t[0] == 'call' and t[1] == '!now' and t not in good:
                    ob('automaton_size', False, 'reports the size the model had before states were removed or added')
                    t = good[0]
            ok = True if t in good else False if t[0] == 'c' or t[0] == 'f' and t[1] == h or (
                t[0] in ('len', 'f') and not mentions(t, h) and not unknown(h) and g['asked'] == h) else None
            ob('automaton_size', ok, f'reports {show(t)} as size of the returned model')
        if 'learning_rounds' in E:
            t = E['learning_rounds']
            a, b = it.tri(s, t, g['A']), it.tri(s, t, g['H'])
            ok = True if True in (a, b) else False if a is False and b is False and g['H'] != ZERO else None
            ob('learning_rounds', ok, f"reports {show(t)} rounds after {show(g['A'])} questions to the oracle and "
               f"{show(g['H'])} hypotheses")
        T, L, Q = E.get('total_time'), E.get('learning_time'), E.get('eq_oracle_time')
        if T is not None and L is not None and Q is not None:
            want = {('app', '-', T, Q), isub(T, Q)}
            if L[0] == 'app' and L[1] == 'round':
                L = L[2]
            ok = True if L in want or it.tri(s, L, isub(T, Q)) is True else None
            if ok is None and (L in (T, Q) or L in (('app', '-', Q, T), isub(Q, T), ('app', '+', T, Q), ('app', '+', Q, T))):
                ok = False
            ob('learning_time', ok, f'reports {show(L)} as learning time')


class TeacherClient(Base):
    """a method of a learning package that passes the question to an oracle answers 'no counterexample' only if the oracle did"""
    TRACKED = ASK

    def start(self):
        st = St()
        st.g.update(asked=NONE)
        return st

    def call(self, it, s, node, recv, name, args, kw):
        if name in ASK and recv is not None and recv != SELF:
            s = s.copy()
            v = it.fresh('!cex', recv)
            s.g['asked'] = v
            return [(s, v)]
        return None

    def at_return(self, it, s, node, v, fn):
        v = it.resolve(s, v)
        none = True if v == NONE else it.truth(s, ('eq', v, NONE, 1))
        if none is not True:
            self.ob('C08', 'no counterexample', node, s, True if none is False or mentions(v, s.g['asked']) else None, '')
            return
        a = s.g['asked']
        ok = a != NONE and (True if it.truth(s, ('eq', a, NONE, 1)) is True or s.facts.get(('t', a)) is False or v == a else
                            False if s.facts.get(eqkey(a, NONE)) is False or s.facts.get(('t', a)) is True else None)
        self.ob('C08', 'no counterexample', node, s, ok, f'{self.cls.name}.{fn.name} reports that there is no counterexample '
                'although the oracle did not say so')


def teachers(names):
    out = []
    for m in names.prog.modules.values():
        if '.learning_algs' not in m.name:
            continue
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name in ASK and any(
                            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ASK
                            for x in ast.walk(f)):
                        out.append((c, f))
    return out


def structure_of(t):
    while t[0] in ('f', 'ver'):
        t = t[1]
    return t if t[0] == 'call' and t[1] == '!new' else None


def params(fn):
    return [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]


def learners(names):
    """public module-level functions of the learning package that ask an oracle (directly or through helpers)"""
    out = []
    for m in names.prog.modules.values():
        if '.learning_algs' not in m.name:
            continue
        fns = [n for n in m.tree.body if isinstance(n, ast.FunctionDef)]
        direct = {n.name for n in fns if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ASK
                                             for x in ast.walk(n))}
        for _ in fns:
            direct |= {n.name for n in fns if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                                                  x.func.id in direct for x in ast.walk(n))}
        out += [n for n in fns if n.name in direct and n.name.startswith('run_') and any('oracle' in p for p in params(n))]
    return sorted(out, key=lambda f: (f.mod.name, f.name))

FREE = object()


def configs(fn):
    """the call with default options, and calls that differ from it in one option"""
    a = fn.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    base, vary = {}, []
    for x in pos:
        used = sorted(constants(fn, x.arg)) if x.arg not in dflt else []
        if used:
            base[x.arg] = used[0]
            vary += [(x.arg, v) for v in used[1:]]
    for p, d in dflt.items():
        if any(l in p for l in LIMITS) and not isinstance(getattr(d, 'value', 0), str) and 'stopping' not in p:
            continue
        if p == 'print_level':
            base[p] = 0
        elif p == 'return_data':
            base[p] = True
        elif isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (str, bool))):
            base[p] = d.value
            used = sorted(constants(fn, p) - {d.value})
            vary += [(p, v) for v in used]
            if isinstance(d.value, bool):
                vary.append((p, not d.value))
            elif d.value is None and not used:
                vary.append((p, FREE))
            elif d.value is not None and tested(fn, p):
                vary.append((p, None))
    out = [base]
    for p, v in vary:
        c = dict(base)
        if v is FREE:
            del c[p]
        else:
            c[p] = v
        out.append(c)
    return out


def tested(fn, p):
    """is parameter p compared with None or tested for truth?"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == p:
            q = n.parent
            if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not) or isinstance(q, (ast.BoolOp, ast.IfExp, ast.While)) or \
                    isinstance(q, ast.If) and q.test is n or isinstance(q, ast.Compare) and any(
                        isinstance(x, ast.Constant) and x.value is None for x in [q.left] + q.comparators):
                return True
    return False


def constants(fn, p):
    """the strings fn compares its parameter p with"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and any(isinstance(x, ast.Name) and x.id == p for x in [n.left] + n.comparators):
            for x in [n.left] + n.comparators:
                for c in ast.walk(x):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        out.add(c.value)
    return out


def analyse():
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    res, stats = [], {'learners': 0, 'configurations': 0, 'paths': 0, 'exact paths': 0, 'notes': []}
    fl = learners(names)
    if len(fl) < 4:
        raise AnalysisBroken('active learners not found')
    for fn in fl:
        stats['learners'] += 1
        part, note = {}, ''
        for i, cfg in enumerate(configs(fn)):
            stats['configurations'] += 1
            for mode, its in (('prove', 2), ('refute', 2)) + ((('refute', 3),) if i == 0 else ()):
                cli = LearnClient(names, mode, fn)
                n, note2 = drive(prog, cli, fn, cli.args(cfg), cli.start(),
                                 lambda it, s, nd, v: cli.at_return(it, s, nd, v, fn), mode, iters=its)
                stats['paths' if mode == 'prove' else 'exact paths'] += n
                if mode == 'prove' or note2:
                    note += note2
                for o, l in cli.obs.items():
                    part.setdefault(o, {}).setdefault(mode, []).extend(l)
        if note:
            stats['notes'].append(f'{fn.name}: {note}')
        for (prop, kind, node), e in sorted(part.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2].lineno)):
            res.append((prop, None, fn, kind, node) + verdict(e, note))
    for c, fn in teachers(names):
        part, note = {}, ''
        stats['teachers'] = stats.get('teachers', 0) + 1
        for mode in ('prove', 'refute'):
            cli = TeacherClient(names, c, mode)
            args = [SELF] + [('s', -1, p) for p in params(fn)[1:]]
            n, note2 = drive(prog, cli, fn, args, cli.start(), lambda it, s, nd, v: cli.at_return(it, s, nd, v, fn), mode)
            note += note2 if mode == 'prove' else ''
            for o, l in cli.obs.items():
                part.setdefault(o, {}).setdefault(mode, []).extend(l)
        for (prop, kind, node), e in sorted(part.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2].lineno)):
            res.append((prop, None, fn, kind, node) + verdict(e, note))
    _out['r'] = (res, stats)
    return _out['r']
