"""C06 (recorders) and C07: path analysis of the functions that store observations."""
import ast

from . import runs
from .core import Result
from .names import Names
from .oraclecheck import Base
from .paths import *  # noqa: F403
from .paths import iadd, ONE, ZERO
from .program import AnalysisBroken, construct_key, where
from .sulcheck import conj, e1, merge

INP, OUT = ('s', -1, 'inp'), ('s', -1, 'out')
INS, OUTS = ('s', -1, 'inputs'), ('s', -1, 'outputs')
DATA = ('s', -1, 'data')
# (class, function, kind of recorder); a function that no longer exists is skipped
SINGLE = [('CacheTree', 'step_in_cache'), ('CacheDict', 'step_in_cache'), ('MooreNode', 'extend_and_get'),
          ('MealyNode', 'extend_and_get')]
SERIES = [('CacheTree', 'add_to_cache'), ('CacheDict', 'add_to_cache'), ('ObservationTree', 'insert_observation'),
          ('AdaptiveObservationTree', 'insert_observation'), ('AdaptiveObservationTree', 'insert_observation_rebuilding'),
          ('TraceTree', 'add_trace')]
MULTI = [('TraceTree', 'add_to_tree'), ('StochasticTeacher', 'add')]
RESETS = [('CacheTree', 'reset'), ('CacheDict', 'reset'), ('TraceTree', 'reset'), ('StochasticTeacher', 'back_to_root')]
LOOKUP = [('CacheTree', 'in_cache'), ('CacheDict', 'in_cache')]
RECORDERS = {'step_in_cache', 'extend_and_get', 'add_to_tree'}
_out = {}


def mentions(t, *xs):
    return any(w in xs for w in walk(t)) or t in xs


class RecordClient(Base):
    TRACKED = RECORDERS | {'reset', 'curr_node', 'output', 'value', 'children', 'prefix_access_pair'}

    def __init__(self, names, cls, mode, fn, role):
        super().__init__(names, cls, mode)
        self.fn, self.role = fn, role
        by = {}
        for c in names.classes():
            if c.mod is fn.mod:
                for n in c.body:
                    if isinstance(n, ast.FunctionDef):
                        by.setdefault(n.name, []).append(n)
        self.unique = {k: v[0] for k, v in by.items() if len(v) == 1}

    def start(self):
        st = St()
        st.g.update(stored=EMPTY, given=EMPTY, RI=EMPTY, RO=EMPTY, RR=ZERO, late=C(False), chain=C(True),
                    last=('f', SELF, 'root'), put=EMPTY, at=EMPTY, over=C(False))
        return st

    # stores ---------------------------------------------------------------
    def leaf(self, v):
        if v[0] == 'seq':
            return [p[1] for p in v[1]] if all(p[0] == 'e' for p in v[1]) else []
        return [v]

    def note(self, s, key, v):
        s.g[key] = concat(s.g[key], e1(v))

    def store(self, it, s, node, obj, name, val):
        for x in self.leaf(it.resolve(s, val)):
            self.note(s, 'stored', x)
        self.note(s, 'at', mk_pair(it.resolve(s, val), ('f', obj, name)))
        if val[0] == 'call':
            self.note(s, 'put', mk_pair(val, ('f', obj, name), NONE))

    def setitem(self, it, s, node, b, k, v):
        for x in self.leaf(it.resolve(s, v)):
            self.note(s, 'stored', x)
            self.note(s, 'put', mk_pair(x, b, it.resolve(s, k)))
        self.note(s, 'at', mk_pair(it.resolve(s, v), ('idx', b, it.resolve(s, k))))
        self.note(s, 'stored', it.resolve(s, k))

    def call(self, it, s, node, recv, name, args, kw):
        vals = list(args) + list(kw.values())
        if self.role == 'series' and name in RECORDERS and len(vals) == 2:
            s = s.copy()
            g = s.g
            if recv != SELF:
                ok = it.tri(s, recv, g['last'])
                if ok is not True:
                    g['chain'] = C(False) if ok is False and g['chain'] == C(True) else C(ok)
            g['RI'], g['RO'] = concat(g['RI'], e1(vals[0])), concat(g['RO'], e1(vals[1]))
            v = it.fresh('!node', recv, vals[0])
            g['last'] = v
            return [(s, v)]
        if self.role == 'series' and recv == SELF and name == 'reset' and not vals:
            s = s.copy()
            if s.g['RI'] != EMPTY:
                s.g['late'] = C(True)
            s.g['RR'] = iadd(s.g['RR'], ONE)
            return [(s, NONE)]
        if name == 'append' and recv is not None:
            self.note_append(it, s, recv, vals)
        if recv is None and name == 'sorted' and self.role == 'pta' and args:
            return [(s, args[0])]
        if recv is None and isinstance(self.names.resolve(node.mod.name, name), ast.ClassDef):
            s = s.copy()
            for v in vals:
                self.note(s, 'stored', it.resolve(s, v))
            v = it.fresh('!new', *[it.resolve(s, x) for x in vals])
            return [(s, v)]
        if recv is not None and recv != SELF and name not in self.unique and name not in ('append', 'keys', 'get', 'values',
                                                                                       'items', 'pop'):
            s2 = None
            for v in vals:
                for x in self.leaf(it.resolve(s, v)):
                    s2 = s2 or s.copy()
                    self.note(s2, 'given', x)
            if s2 is not None:
                return [(s2, it.fresh(name, recv, *[it.resolve(s2, v) for v in vals]))]
        return None

    def note_append(self, it, s, recv, vals):
        if vals:
            self.note(s, 'put', mk_pair(vals[0], recv, NONE))

    def resolve_method(self, it, st, node, recv, name):
        return self.unique.get(name) if recv != SELF and recv[0] != 'g' else None

    # ------------------------------------------------------------------ C07
    def facts(self, it, s, out):
        """(compared equal, seen different, absent, present)"""
        eq = ne = absent = present = False
        for k, v in s.facts.items():
            if k[0] == 'eq':
                a, b = k[1], k[2]
                if out in (a, b) or it.resolve(s, a) == out or it.resolve(s, b) == out:
                    o = b if a == out or it.resolve(s, a) == out else a
                    if o[0] == 'c' or o[0] == 'g' or o in (INP, OUT):
                        continue
                    if v:
                        eq = True
                    else:
                        ne = True
                else:
                    x = b if a[0] in ('c', 'g') else a
                    snt = a if x is b else b
                    if (snt == NONE or snt[0] == 'g') and (mentions(x, SELF, INP, DATA) or self.role == 'pta') and x not in (INP, OUT) \
                            and not (x[0] == 'idx' and x[1] in (DATA, OUTS)):
                        if v:
                            absent = True
                        else:
                            present = True
            elif k[0] == 't' and k[1][0] == 'in':
                x = k[1][1]
                if x == out:
                    if v:
                        eq = True
                elif x[0] == 'g':
                    absent, present = absent or v, present or not v
                elif v:
                    present = True
                else:
                    absent = True
        return eq, ne, absent, present

    def empty_before(self, it, s, out):
        """was every place that out was stored in found to be empty? None: not stored"""
        res = None
        for p in parts(s.g['at']):
            if index(p[1], ZERO) != out:
                continue
            loc = index(p[1], ONE)
            ok = False
            for k, v in s.facts.items():
                if k[0] == 'eq' and v and NONE in k[1:] and loc in k[1:]:
                    ok = True
                if k[0] == 't' and k[1][0] == 'in' and v is False and loc[0] == 'idx' and k[1][1] == loc[2] and \
                        mentions(k[1][2], loc[1]):
                    ok = True
            res = ok if res is None else res and ok
        return res

    def discipline(self, it, s, out):
        if self.role == 'pta':
            eq, ne, absent, present = self.facts(it, s, out)
            e = self.empty_before(it, s, out)
            if e is False:
                return (None if eq else False), 'stores a label in a place that was not found to be empty'
            if e or eq:
                return True, ''
            if any(p[1] == out for p in parts(it.resolve(s, s.g['given']))):
                return None, ''
            return False, 'neither stores the label nor compares it with the stored one'
        eq, ne, absent, present = self.facts(it, s, out)
        stored = [p[1] for p in parts(it.resolve(s, s.g['stored'])) if p[0] == 'e']
        given = [p[1] for p in parts(it.resolve(s, s.g['given'])) if p[0] == 'e']
        st = out in stored
        if eq:
            return True, ''
        if out in given:
            return None, ''
        if ne:
            return False, 'returns normally although the stored output was found to differ from the new one'
        if st and absent:
            return True, ''
        if present:
            return False, 'returns normally without comparing the stored output with the new one'
        if st:
            return False, 'stores the new output without testing whether another one is stored already'
        return False, 'neither stores the new output nor compares it with the stored one'

    def at_return(self, it, s, node, v, fn):
        c = self.cls.name + '.' if self.cls is not None else ''
        ob = lambda prop, kind, ok, msg: self.ob(prop, kind, node, s, ok, f'{c}{fn.name} ' + msg)
        g = s.g
        role = self.role
        v2 = it.resolve(s, v)
        if role == 'single':
            ok, why = self.discipline(it, s, OUT)
            ob('C07', 'contradiction', ok, why)
            if it.truth(s, ('eq', INP, NONE, 1)) is not True:
                self.moved(it, s, ob, v2)
        elif role == 'multi':
            self.moved(it, s, ob, v2, multi=True)
        elif role == 'series':
            RI, RO = it.resolve(s, g['RI']), it.resolve(s, g['RO'])
            li, lo = (it.norm_int(s, length(it.resolve(s, x))) for x in (INS, OUTS))
            same = s.facts.get(eqkey(length(INS), length(OUTS))) or it.tri(s, li, lo)
            ok = conj(it.tri(s, RI, it.resolve(s, INS)), it.tri(s, RO, it.resolve(s, OUTS)))
            if it.mode == 'refute' and same is not True:
                ok = None if ok is not True else True
            if it.mode == 'prove' and ok is None:
                ok = conj(it.tri(s, RI, INS), True if it.tri(s, RO, slice_seq(OUTS, ZERO, length(INS))) is True else None)
            if parts(it.resolve(s, g['stored'])) and RI == EMPTY and li != ZERO:
                ok = False if it.mode == 'refute' else None
            ob('C07', 'all pairs recorded', ok, f'hands {show(RI)} / {show(RO)} to the recorder instead of all pairs')
            ob('C06', 'positions of a series', {True: True, False: False}.get(g['chain'][2]) if g['chain'][0] == 'c' else None,
               'records a pair at a position other than the one after the pair before')
            if self.needs_reset:
                ok = it.tri(s, g['late'], C(False)) if g['RR'] != ZERO else False if li != ZERO else None
                if g['RR'] == ZERO and any(k[0] == SELF for k in s.fields):
                    ok = None
                ob('C06', 'series from the start', ok, 'records a series without restarting the position')
        elif role == 'reset':
            self.restart(it, s, ob)
        elif role == 'lookup':
            self.lookup(it, s, ob, v2)
        elif role == 'pta':
            if v2 == NONE or it.truth(s, ('eq', v2, NONE, 1)) is True:
                return
            d = it.resolve(s, DATA)
            if d[0] != 'seq' or any(p[0] != 'e' for p in d[1]):
                return
            for p in d[1]:
                lab = index(p[1], ONE)
                if self.atype == 'mealy' and it.tri(s, length(it.resolve(s, index(p[1], ZERO))), ZERO) is not False:
                    continue        # a Mealy machine has no output for the empty sequence
                ok, why = self.discipline(it, s, lab)
                ob('C07', 'contradiction', ok, why + f' ({show(lab)})')
        elif role == 'locdet':
            self.locdet(it, s, ob, v2)
        elif role == 'initial':
            self.initial(it, s, ob)
        elif role == 'labeled':
            ok, why = self.discipline(it, s, index(('s', -1, 'example'), ONE))
            ob('C07', 'contradiction', ok, why)

    def locdet(self, it, s, ob, v2):
        """a node is deterministic only if each of its inputs has been found to have at most one output"""
        if it.mode == 'prove' or it.truth(s, v2) is not True:
            return
        for ln in {x for k in s.facts for x in walk(k) if x[0] == 'len' and x[1][0] == 'idx'}:
            ok = s.facts.get(('val', ln), NONE) in (ZERO, ONE) or any(
                k[0] == 'pos' and v and k[1][0] == 'lin' and k[1][1] <= 2 and k[1][2] == ((ln, -1),) for k, v in s.facts.items())
            ob('C07', 'nodes with two outputs', ok, 'calls a node deterministic that may have two outputs for an input')

    def initial(self, it, s, ob):
        """the first outputs of all traces are the same"""
        els = [('s', -1, f'trace {i}') for i in range(3)]
        for p in els[1:]:
            a, b = index(els[0], ZERO), index(p, ZERO)
            ok = it.tri(s, a, b)
            if ok is not True:
                known = any(mentions(x, b) for k in s.facts for x in k[1:] if isinstance(x, tuple))
                ok = None if known or any(x in ('call', 'app', 'top') for k in s.facts for x in walk_names(k)) else False
            ob('C07', 'initial outputs', ok,
               f'accepts traces whose first outputs {show(a)} and {show(b)} may be different')

    # ------------------------------------------------------------------ state merging of contradicting traces
    def attr(self, it, st, node, obj, name):
        if self.role == 'guard' and obj == SELF and name == 'transition_behavior':
            return C('deterministic')
        return super().attr(it, st, node, obj, name)

    def at_loop(self, it, s, node):
        if self.role != 'guard':
            return False
        asked = [(k, v) for k, v in s.facts.items() if k[0] == 't' and k[1][0] == 'call' and 'determin' in k[1][1]]
        if any(v is True for _, v in asked):
            ok = True
        elif asked:
            ok = False
        else:
            ok = None if self.later or any('determin' in x for k in s.facts for x in walk_names(k)) else False
        self.ob('C07', 'determinism of the traces', node, s, ok,
                f'{self.cls.name}.{self.fn.name} merges states of a deterministic machine although the traces '
                + ('were found to contradict each other' if asked else 'have not been tested for contradictions'))
        return True

    later = False
    needs_reset = False
    atype = None

    # ------------------------------------------------------------------ positions
    def position(self, it, s, v2):
        """[(field or 'result', old, new)]"""
        if self.fn.name == 'extend_and_get':
            return [('result', SELF, v2)]
        out = []
        for f in ('curr_node', 'inputs'):
            old = ('f', SELF, f)
            if any(isinstance(n, ast.Attribute) and n.attr == f for n in ast.walk(self.init)):
                out.append((f, old, it.resolve(s, s.fields.get((SELF, f), old))))
        return out[:1]

    def moved(self, it, s, ob, v2, multi=False):
        need = (INP, OUT) if multi else (INP,)
        for f, old, new in self.position(it, s, v2):
            if f == 'inputs':
                ok = it.tri(s, new, concat(old, e1(INP)))
            elif new == old:
                ok = False
            elif new[0] == 'call' and new[1] == '!new':
                puts = [p[1] for p in parts(s.g['put']) if p[0] == 'e']
                at = [q for q in puts if index(q, ZERO) == new]
                ok = True if any((mentions(index(q, ONE), *need[:1]) or index(q, C(2)) in need) and
                                 mentions(index(q, ONE), old) for q in at) else None if at else False
                if ok is None and not any(mentions(index(q, ONE), old) for q in at):
                    ok = False if it.mode == 'refute' and all(not has_opaque(index(q, ONE)) for q in at) else None
            else:
                m = [mentions(new, x) for x in need] + [mentions(new, old)]
                ok = True if all(m) else None if has_opaque(new) else False
            ob('C06', 'position moves to the recorded pair', ok,
               f'leaves the position at {show(new)} instead of the successor of {show(old)} for the input')

    def restart(self, it, s, ob):
        for f, old, new in self.position(it, s, NONE):
            if f == 'inputs':
                ok = it.tri(s, new, EMPTY)
            else:
                root = [a for a in self.fields0 if 'root' in a]
                ok = True if new in [('f', SELF, a) for a in root] else False if new == old else None
                if ok is None and not has_opaque(new):
                    ok = False
            ob('C06', 'position restarts', ok, f'sets the position to {show(new)}')

    def lookup(self, it, s, ob, v2):
        w = it.resolve(s, INS)
        if v2 == NONE or it.truth(s, ('eq', v2, NONE, 1)) is True:
            miss = any(k[0] == 't' and k[1][0] == 'in' and v is False or k[0] == 'eq' and NONE in k[1:] and v for k, v in
                       s.facts.items())
            ob('C06', 'no answer only if unknown', True if miss else None if has_any_opaque(s) else False,
               'gives no answer on a path without a failed lookup')
            return
        n, m = it.norm_int(s, length(w)), it.norm_int(s, length(v2))
        ok = it.tri(s, n, m)
        if v2[0] != 'seq' or it.mode == 'refute' and (n[0] != 'c' or m[0] != 'c'):
            ok = True if ok is True else None
        ob('C06', 'one output per input', ok, f'answers {show(v2)} for the inputs {show(w)}')
        if it.mode == 'refute' and n[0] == 'c' and ok is True and n[2] <= 3 and all(p[0] == 'e' for p in parts(v2)):
            els = [p[1] for p in parts(v2)]
            letters = [index(w, C(k)) for k in range(n[2])]
            res = True
            for k, o in enumerate(els):
                seen = [l for l in letters if mentions(o, l)]
                if seen != letters[:k + 1]:
                    res = None if has_opaque(o) else False
                    break
            ob('C06', 'outputs of the prefixes', res, f'answers {show(v2)} for the inputs {show(w)}')


def has_opaque(t):
    return any(isinstance(x, tuple) and x and (x[0] == 'top' or x[0] == 'app' or x[0] == 'call' and not x[1].startswith('!'))
               for x in walk(t))


def walk_names(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, tuple):
        for x in t:
            yield from walk_names(x)


def has_any_opaque(s):
    return any(has_opaque(x) for k in s.facts for x in k[1:] if isinstance(x, tuple))


def analyse():
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    by = {}
    for c in names.classes():
        if runs.in_lib(c):
            by.setdefault(c.name, c)
    res, stats = [], {'recording functions': 0, 'paths': 0, 'exact paths': 0, 'notes': []}

    def go(cls, fn, role, args, **kw):
        stats['recording functions'] += 1

        def mk(mode):
            cli = RecordClient(names, cls, mode, fn, role)
            for k, v in kw.items():
                setattr(cli, k, v)
            init = names.method(cls, '__init__') if cls is not None else fn
            cli.init = init
            cli.fields0 = [n.attr for n in ast.walk(init) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)]
            return cli
        merge(res, prog, mk, fn, args, stats)
    for lst, role, args in ((SINGLE, 'single', [SELF, INP, OUT]), (MULTI, 'multi', [SELF, INP, OUT]),
                            (SERIES, 'series', [SELF, INS, OUTS]), (RESETS, 'reset', [SELF]), (LOOKUP, 'lookup', [SELF, INS])):
        for cn, fnn in lst:
            c = by.get(cn)
            fn = names.method(c, fnn) if c is not None else None
            if fn is None or len(fn.args.args) != len(args):
                stats['notes'].append(f'{cn}.{fnn} not found')
                continue
            go(c, fn, role, args, needs_reset=fnn in ('add_to_cache', 'add_trace'))
    for m in prog.modules.values():
        if m.name.endswith('rpni_helper_functions'):
            fn = names.resolve(m.name, 'createPTA')
            if fn is not None and len(fn.args.args) == 2:
                for t in ('dfa', 'moore', 'mealy'):
                    go(None, fn, 'pta', [DATA, C(t)], atype=t)
    c = by.get('GsmNode')
    fn = names.method(c, 'add_labeled_sequence') if c is not None else None
    if fn is not None:
        go(c, fn, 'labeled', [SELF, ('s', -1, 'example')])
    fn = names.method(c, 'is_locally_deterministic') if c is not None else None
    if fn is not None:
        go(c, fn, 'locdet', [SELF], EXACT_QUANT=True)
    fn = names.method(c, 'createPTA') if c is not None else None
    if fn is not None and len(fn.args.args) == 3:
        three = mk_seq([('e', ('s', -1, f'trace {i}')) for i in range(3)])
        go(c, fn, 'initial', [three, C('moore'), C('io_traces')], EXACT_QUANT=True)
    g = by.get('GeneralizedStateMerging')
    fn = names.method(g, 'run') if g is not None else None
    if fn is not None:
        loop = next((n for n in ast.walk(fn) if isinstance(n, ast.While)), None)
        later = any('determin' in n.attr and isinstance(n.ctx, ast.Load) and isinstance(n.parent, ast.Call)
                    for w in ast.walk(fn) if isinstance(w, (ast.While, ast.Return))
                    for n in ast.walk(w) if isinstance(n, ast.Attribute)) if loop is not None else True
        go(g, fn, 'guard', [SELF, DATA], later=later)
    if stats['recording functions'] < 8:
        raise AnalysisBroken('recording functions not found')
    _out['r'] = (res, stats)
    return _out['r']


def check(prop, rule, assumptions, extra=(), main=None, base=None):
    """base: another check of the same property, whose result is extended"""
    def f(tier):
        r = base(tier) if base is not None else Result(rule)
        if base is not None:
            r.rule = f'{r.rule} {rule}'
        for a in (main if main is not None else (analyse,) + tuple(extra)):
            res, stats = a()
            for p, c, fn, kind, node, status, msg, path in res:
                if p != prop:
                    continue
                n = f"{c.name}.{fn.name}" if c is not None else fn.name
                r.oblige({'proved': True, 'undecided': None, 'violated': False}[status], f"{n}: {kind} at {where(node)}")
                if status == 'violated':
                    r.violate(f"{n}::{kind}::{construct_key(node)}", msg, node, path)
            for k, v in stats.items():
                r.coverage[k] = r.coverage[k] + v if k in r.coverage and isinstance(v, (int, list)) else v
        r.assumptions = list(r.assumptions) + assumptions if base is not None else assumptions
        return r
    return f
