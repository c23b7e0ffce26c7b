"""C05, C06: path analysis of membership queries and of the wrappers of systems under learning."""
import ast

from . import runs
from .core import Result
from .names import Names
from .oraclecheck import Base, drive, verdict
from .paths import *  # noqa: F403
from .paths import iadd, isub, ONE, ZERO
from .program import AnalysisBroken, construct_key, where

WORD = ('s', -1, 'word')
LETTER = ('s', -1, 'letter')
WLIST = ('r', -1)           # the list given to an adaptive query
ADS = ('s', 0, 'ads')
INNER = ('s', 0, 'wrapped system')
_out = {}


def e1(x):
    return mk_seq((('e', x),))


def conj(*xs):
    return False if False in xs else None if None in xs else True


def disj(*xs):
    return True if True in xs else None if None in xs else False


def outputs(it, w):
    """one unknown output per letter of w"""
    o = it.fresh('!sulout')
    return mk_seq((('rep', (o + (('idx', w, KAPPA),),), ZERO, length(w)),))


class QueryClient(Base):
    """self.pre/step/post are events"""
    TRACKED = {'step', 'pre', 'post', 'query', 'num_steps', 'num_queries', 'num_cached_queries'}

    def start(self):
        st = St()
        st.g.update(T=EMPTY, O=EMPTY, P=ZERO, Q=ZERO, ses=C('closed'), probes=ZERO, probe=NONE, nq=ZERO, qw=NONE, qo=NONE, A=EMPTY)
        st.heap[WLIST] = WORD
        return st

    def call(self, it, s, node, recv, name, args, kw):
        args = list(args) + list(kw.values())
        if recv == ADS:
            s = s.copy()
            v = it.fresh(name, *args)
            old, O = parts(it.resolve(s, s.g['A'])), it.resolve(s, s.g['O'])
            if it.mode == 'refute' and len(args) == 1 and old and all(p[0] == 'e' for p in old) and all(p[0] == 'e' for p in parts(O)):
                exp = parts(O)[-1][1] if parts(O) else s.g['probe'] if s.g['probes'] == ONE else None
                a = it.resolve(s, args[0])
                if exp is not None:
                    self.ob('C05', 'output given to the tree', node, s, it.tri(s, a, exp),
                            f'chooses the next input by {show(a)} instead of the last output {show(exp)}')
            s.g['A'] = concat(s.g['A'], e1(v))
            return [(s, v)]
        if recv != SELF or name not in ('pre', 'post', 'step', 'query', 'adaptive_query'):
            return None
        if name in ('query', 'adaptive_query'):
            s = s.copy()
            w = it.content(s, args[0]) if args else NONE
            s.g['nq'] = iadd(s.g['nq'], ONE)
            s.g['qw'], s.g['qo'] = w, outputs(it, w)
            return [(s, s.g['qo'])]
        s = s.copy()
        g = s.g
        if name == 'pre':
            self.ob('C05', 'reset', node, s, it.tri(s, g['ses'], C('closed')), 'the system is reset inside a session')
            g['ses'], g['P'] = C('open'), iadd(g['P'], ONE)
            return [(s, it.fresh('pre'))]
        if name == 'post':
            self.ob('C05', 'close', node, s, it.tri(s, g['ses'], C('open')), 'a session is closed that is not open')
            g['ses'], g['Q'] = C('closed'), iadd(g['Q'], ONE)
            return [(s, it.fresh('post'))]
        self.ob('C05', 'step inside the session', node, s, it.tri(s, g['ses'], C('open')),
                'an input is applied to the system outside the session')
        a = args[0] if args else NONE
        o = it.fresh('!sulout', a)
        if a == NONE:
            self.ob('C05', 'probe only without inputs', node, s, it.tri(s, length(it.resolve(s, g['O'])), ZERO),
                    'the current output is probed after inputs of the query have been applied')
            g['probes'] = iadd(g['probes'], ONE)
            g['probe'] = o
        else:
            g['T'] = concat(g['T'], e1(a))
            g['O'] = concat(g['O'], e1(o))
        return [(s, o)]

    def at_return(self, it, s, node, v, fn):
        g = s.g
        ob = lambda kind, ok, msg: self.ob('C05', kind, node, s, ok, f'{fn.name} ' + msg)
        v2 = it.resolve(s, v)
        T, O = it.resolve(s, g['T']), it.resolve(s, g['O'])
        w = it.resolve(s, WORD)
        if fn.name == 'io_query':
            ob('one query of the word', conj(it.tri(s, g['nq'], ONE), it.tri(s, g['qw'], WORD)),
               'does not make exactly one query of the given word')
            outs = g['qo']
            n = it.norm_int(s, length(it.resolve(s, WORD)))
            if it.mode == 'prove':
                exp = mk_seq((('rep', (mk_pair(('idx', WORD, KAPPA), index(outs, KAPPA)),), ZERO, length(WORD)),))
                ob('returned pairs', it.tri(s, v2, exp), '')
            elif n[0] == 'c':
                exp = ('seq', tuple(('e', mk_pair(index(it.resolve(s, WORD), C(k)), index(it.resolve(s, outs), C(k))))
                                    for k in range(n[2])))
                ob('returned pairs', it.tri(s, v2, exp), f'returns {show(v2)} instead of the pairs of inputs and outputs')
            return
        x = it.tri(s, g['P'], ONE)
        ob('one reset', x, f"resets the system {show(g['P'])} times")
        ob('one close', it.tri(s, g['Q'], ONE), f"closes the session {show(g['Q'])} times")
        if fn.name == 'adaptive_query':
            if it.mode == 'refute':
                nxt = [p for p in parts(it.resolve(s, g['A'])) if p[0] == 'e' and it.truth(s, ('eq', p[1], NONE, 1)) is False
                       and it.truth(s, ('eq', p[1], EMPTY, 1)) is not True]
                exp = concat(w, ('seq', tuple(nxt)))
                ob('inputs', it.tri(s, T, exp), f'applied {show(T)} for the word and distinguishing inputs {show(exp)}')
        elif it.tri(s, length(w), ZERO) is True:
            ob('inputs', it.tri(s, T, EMPTY), f'applied {show(T)} for the empty word')
        else:
            ob('inputs', it.tri(s, T, w), f'applied {show(T)} for the word {show(w)}')
        for f, exp, what in (('num_queries', ONE, 'one query'), ('num_steps', length(T), f'{show(T)} were applied')):
            init = ('f', SELF, f)
            d = isub(s.fields.get((SELF, f), init), init)
            x = it.tri(s, d, exp)
            if x is None and it.mode == 'refute' and init in set(as_lin(it.resolve(s, d))[1]):
                x = False
            ob(f, x, f'changes {f} by {show(it.resolve(s, d))} although {what}')
        probe = e1(g['probe'])
        if fn.name == 'adaptive_query':
            ob('outputs', conj(it.tri(s, index(v2, ZERO), T), it.tri(s, index(v2, ONE), O)),
               f'returns {show(v2)} after the inputs {show(T)} with outputs {show(O)}')
            return
        empty = it.tri(s, length(w), ZERO)
        if empty is False or it.truth(s, ('t', w)) is True:
            ob('no probe', it.tri(s, g['probes'], ZERO), 'probes the initial output although inputs are given')
            ob('outputs', it.tri(s, v2, O), f'returns {show(v2)} after outputs {show(O)}')
        elif empty is True:
            ob('one probe', it.tri(s, g['probes'], ONE), f"probes the initial output {show(g['probes'])} times")
            ob('outputs', it.tri(s, v2, probe), f'returns {show(v2)} for the empty word after the output '
               f"{show(it.resolve(s, g['probe']))}")
        else:
            ob('outputs', disj(it.tri(s, v2, O) if g['probes'] == ZERO else False,
                               it.tri(s, v2, probe) if g['probes'] == ONE else False) or None, '')


class WrapperClient(Base):
    """calls on self.sul are events; calls on other fields of self are (possible) records"""
    TRACKED = {'step', 'pre', 'post', 'query', 'num_steps', 'num_queries', 'num_cached_queries', 'sul'}

    def __init__(self, names, cls, mode, field):
        super().__init__(names, cls, mode)
        self.field = field

    def start(self):
        st = St()
        st.fields[(SELF, self.field)] = INNER
        st.g.update(T=EMPTY, O=EMPTY, P=ZERO, Q=ZERO, NQ=ZERO, qw=NONE, qo=NONE, RI=EMPTY, RO=EMPTY, RR=ZERO, odd=ZERO,
                    look=NONE, hit=NONE, late=C(False))
        return st

    def call(self, it, s, node, recv, name, args, kw):
        args = list(args) + list(kw.values())
        if recv == INNER:
            s = s.copy()
            g = s.g
            if name == 'pre':
                g['P'] = iadd(g['P'], ONE)
            elif name == 'post':
                g['Q'] = iadd(g['Q'], ONE)
            elif name == 'step':
                a = args[0] if args else NONE
                o = it.fresh('!sulout', a)
                g['T'], g['O'] = concat(g['T'], e1(a)), concat(g['O'], e1(o))
                return [(s, o)]
            elif name in ('query', 'adaptive_query'):
                w = it.content(s, args[0])
                g['NQ'] = iadd(g['NQ'], ONE)
                g['qw'], g['qo'] = w, it.fresh('!outs', w)
                return [(s, g['qo'])]
            else:
                return None
            return [(s, it.fresh(name))]
        if recv is not None and recv[0] == 'f' and recv[1] == SELF and name not in LIST_MUT:
            if recv[2] == self.field:
                return None
            s = s.copy()
            g = s.g
            if not args:
                g['RR'] = iadd(g['RR'], ONE)
                if it.tri(s, length(it.resolve(s, g['RI'])), ZERO) is not True:
                    g['late'] = C(True)
                return [(s, it.fresh(name, recv))]
            if len(args) == 2:
                ci, co = it.resolve(s, args[0]), it.resolve(s, args[1])
                if ci == WORD or ci[0] == 'seq' or co == g['qo']:
                    g['RI'], g['RO'] = concat(g['RI'], ci), concat(g['RO'], co)
                else:
                    g['RI'], g['RO'] = concat(g['RI'], e1(args[0])), concat(g['RO'], e1(args[1]))
                return [(s, it.fresh(name, recv))]
            if len(args) == 1:
                v = it.fresh('!lookup', recv, it.resolve(s, args[0]))
                self.looked_up = name
                g['look'] = mk_pair(it.resolve(s, args[0]), v)
                return [(s, v)]
            g['odd'] = iadd(g['odd'], ONE)
            return [(s, it.fresh(name, recv))]
        return None

    def lists(self, it, s):
        """{field of self: (old content, new content)} for list fields changed in place or replaced"""
        out = {}
        for k, v in s.heap.items():
            if k[0] == 'f' and k[1] == SELF:
                out[k[2]] = it.resolve(s, v)
        for k, v in s.fields.items():
            if k[0] == SELF and len(k) == 2 and k[1] != self.field and not k[1].startswith('#'):
                out[k[1]] = it.resolve(s, v)
        return out

    def growth(self, it, s, f):
        init = ('f', SELF, f)
        return isub(s.fields.get((SELF, f), init), init)

    def grown(self, it, s, d, exp):
        x = it.tri(s, d, exp)
        if x is None and it.mode == 'refute':
            # a different number of inputs unless the word has one particular length, which the path does not ask for
            r = set(as_lin(it.norm_int(s, isub(it.resolve(s, d), it.resolve(s, exp))))[1])
            if r == {length(WORD)} and s.g['look'] != NONE and not any(
                    WORD in set(walk(k[1:])) and index(s.g['look'], ONE) not in set(walk(k[1:])) for k in s.facts if isinstance(k, tuple)):
                return False
        return x

    def at_return(self, it, s, node, v, fn):
        g = s.g
        c = self.cls.name
        ob = lambda kind, ok, msg: self.ob('C06', kind, node, s, ok, f'{c}.{fn.name} ' + msg)
        cnt = lambda f, exp, why: ob('count ' + f, self.grown(it, s, self.growth(it, s, f), exp),
                                     f"changes {f} by {show(it.resolve(s, self.growth(it, s, f)))} {why}")
        v2 = it.resolve(s, v)
        T, O, RI, RO = (it.resolve(s, g[k]) for k in ('T', 'O', 'RI', 'RO'))
        own = self.cls.name == 'StochasticSUL'
        if fn.name == 'step':
            ob('one inner step', conj(it.tri(s, T, e1(LETTER)), it.tri(s, g['P'], ZERO), it.tri(s, g['Q'], ZERO)),
               f"applies {show(T)} to the wrapped system for the input letter")
            o = index(O, ZERO)
            if T[0] == 'seq' and len(T[1]) == 1:
                ob('output', it.tri(s, v2, o), f'returns {show(v2)} instead of the output of the wrapped system')
                rec = conj(it.tri(s, RI, e1(LETTER)), it.tri(s, RO, e1(o)))
                if RI == EMPTY and RO == EMPTY:
                    rec = self.recorded_in_lists(it, s, o)
                ob('record', rec, f"records {show(RI)} / {show(RO)} instead of the letter and its output"
                   if RI != EMPTY else 'does not record the letter and its output exactly once')
            if own:
                cnt('num_steps', ONE, 'for one input')
        elif fn.name == 'pre':
            ob('one inner reset', conj(it.tri(s, g['P'], ONE), it.tri(s, g['Q'], ZERO), it.tri(s, T, EMPTY)),
               'does not reset the wrapped system exactly once')
            ob('trace restarted', self.restarted(it, s), 'does not restart the recorded trace')
            if own:
                cnt('num_queries', ONE, 'for one reset')
        elif fn.name == 'post':
            ob('one inner close', conj(it.tri(s, g['Q'], ONE), it.tri(s, g['P'], ZERO), it.tri(s, T, EMPTY)),
               'does not close the session of the wrapped system exactly once')
        elif fn.name == 'query':
            looked = g['look'] != NONE
            res = index(g['look'], ONE) if looked else NONE
            hit = it.truth(s, res) if looked else False
            if looked:
                ob('lookup of the word', it.tri(s, index(g['look'], ZERO), WORD), 'looks up '
                   f"{show(index(g['look'], ZERO))} instead of the word")
            touched = conj(it.tri(s, g['NQ'], ZERO), it.tri(s, T, EMPTY), it.tri(s, g['P'], ZERO), it.tri(s, g['Q'], ZERO))
            if it.truth(s, ('eq', res, NONE, 1)) is True:
                hit = False
            if hit is True or touched is True:
                if hit is True:
                    ob('hit leaves the system alone', touched, 'uses the wrapped system although the answer is cached')
                    ob('cached answer', it.tri(s, v2, res), f'returns {show(v2)} instead of the cached outputs')
                else:
                    ob('answer without a query', False if hit is False else it.tri(s, v2, res),
                       'answers without query although the word is not cached')
                if hit is None and it.truth(s, ('eq', res, NONE, 1)) is False and self.known_empty(res) and not any(
                        WORD in set(walk(k[1:])) and k not in (eqkey(res, NONE), ('t', res)) for k in s.facts if isinstance(k, tuple)):
                    ob('empty word', False, 'takes the empty answer of the cache as the answer to the empty word')
                cnt('num_cached_queries', ONE, 'for one query answered from the cache')
                cnt('num_queries', ZERO, 'for one query answered from the cache')
                cnt('num_steps', ZERO, 'for one query answered from the cache')
                return
            if g['NQ'] == ZERO:
                ob('inner query', None, '')
                return
            ob('inner query', conj(it.tri(s, g['NQ'], ONE), it.tri(s, g['qw'], WORD)),
               f"makes {show(g['NQ'])} queries of the wrapped system")
            out = it.resolve(s, g['qo'])
            ob('output', it.tri(s, v2, out), f'returns {show(v2)} instead of the outputs of the wrapped system')
            n = length(it.resolve(s, WORD))
            ow = [out, slice_seq(out, ZERO, n)] if it.mode == 'prove' else [out]
            if it.mode == 'prove':
                ob('record', conj(it.tri(s, RI, WORD), disj(*[it.tri(s, RO, x) for x in ow]) or None) or None, '')
            else:
                ln = [it.norm_int(s, x) for x in (length(it.resolve(s, WORD)), length(out))]
                okr = None
                if all(x[0] == 'c' for x in ln) and ln[0] == ln[1]:
                    okr = conj(it.tri(s, RI, WORD), it.tri(s, RO, out))
                elif not (RI[0] == 'seq' and RO[0] == 'seq'):
                    okr = conj(it.tri(s, RI, WORD), it.tri(s, RO, out))
                elif RI == EMPTY and it.tri(s, length(it.resolve(s, WORD)), ZERO) is not True and \
                        all(x[0] != 'c' for x in ln):
                    okr = False if g['odd'] == ZERO else None
                ob('record', okr, f'records {show(RI)} / {show(RO)} after the query')
            if g['RR'] == ZERO:
                ob('trace restarted', False if RI != EMPTY and not any(p[0] != 'e' for p in parts(RI)) and
                   self.stepwise else None, 'records a query without restarting the recorded trace')
            else:
                ob('trace restarted', it.tri(s, g['late'], C(False)), 'restarts the trace between the records of one query')
            cnt('num_queries', ONE, 'for one performed query')
            cnt('num_cached_queries', ZERO, 'for one performed query')
            cnt('num_steps', n, 'for one performed query')

    def known_empty(self, res):
        """the cache answers the empty word, without an output, before it was ever asked"""
        if res[0] != 'call' or not hasattr(self, 'looked_up'):
            return False
        return any(empty_answer(self.names, c, self.looked_up) for c in self.names.classes() if runs.in_lib(c))

    stepwise = True

    def recorded_in_lists(self, it, s, o):
        gi = go = 0
        bad = False
        for f, new in self.lists(it, s).items():
            if is_int(new):
                continue
            old = ('f', SELF, f)
            if it.tri(s, new, concat(old, e1(LETTER))) is True:
                gi += 1
                self.record_fields.add(f)
            elif it.tri(s, new, concat(old, e1(o))) is True:
                go += 1
                self.record_fields.add(f)
            elif it.tri(s, new, concat(old, e1(mk_pair(LETTER, o)))) is True:
                gi += 1
                go += 1
                self.record_fields.add(f)
            elif it.tri(s, new, old) is False:
                bad = True
        if gi == 1 and go == 1 and not bad:
            return True
        if s.g['odd'] != ZERO:
            return None
        return False

    record_fields = set()

    def restarted(self, it, s):
        if s.g['RR'] != ZERO:
            return True
        new = self.lists(it, s)
        if self.record_fields:
            xs = [it.tri(s, new[f], EMPTY) if f in new and new[f] != ('f', SELF, f) else False for f in sorted(self.record_fields)]
            return conj(*xs)
        if any(len(k) == 2 and k[0] != SELF for k in s.fields):
            return None
        return False


def merge(res, prog, mk, fn, args, stats):
    merged, note = {}, ''
    for mode in ('prove', 'refute'):
        cli = mk(mode)
        n, note2 = drive(prog, cli, fn, args, cli.start(), lambda it, s, nd, v: cli.at_return(it, s, nd, v, fn), mode)
        stats['paths' if mode == 'prove' else 'exact paths'] += n
        note += note2
        for k, l in cli.obs.items():
            merged.setdefault(k, {})[mode] = l
    if note:
        stats['notes'].append(f'{fn.name}: {note}')
    for (prop, kind, node), e in sorted(merged.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2].lineno)):
        res.append((prop, cli.cls, fn, kind, node) + verdict(e, note))


def inner_field(names, cls):
    """the field of self that holds the wrapped system, if cls forwards pre, step and post to it"""
    cands = set()
    for m in ('pre', 'step', 'post'):
        if names.method(cls, m) is None:
            return None
    for fn in [n for c in names.mro(cls) for n in c.body if isinstance(n, ast.FunctionDef)]:
        alias = {t.id: n.value.attr for n in ast.walk(fn) if isinstance(n, ast.Assign) for t in n.targets
                 if isinstance(t, ast.Name) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name)
                 and n.value.value.id == 'self'}
        for n in ast.walk(fn):
            if not (isinstance(n, ast.Attribute) and n.attr in ('pre', 'step', 'post')):
                continue
            if isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                cands.add(n.value.attr)
            elif isinstance(n.value, ast.Name) and n.value.id in alias:
                cands.add(alias[n.value.id])
    init = names.method(cls, '__init__')
    params = {a.arg for a in init.args.args} if init is not None else set()
    held = {t.attr for n in ast.walk(init) if isinstance(n, ast.Assign) for t in n.targets
            if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in params} if init else set()
    c = sorted(cands & held)
    return c[0] if c else None


class EmptyLookup(Base):
    def start(self):
        return St()

    def at_return(self, it, s, node, v, fn):
        if it.mode == 'refute' and it.resolve(s, v) == EMPTY and not s.facts:
            self.found.append(node)


def empty_answer(names, c, name):
    fn = next((n for n in c.body if isinstance(n, ast.FunctionDef) and n.name == name), None)
    if fn is None or len(fn.args.args) != 2:
        return False
    found = []

    def mk(mode):
        cli = EmptyLookup(names, c, mode)
        cli.found = found
        return cli
    merge([], names.prog, mk, fn, [SELF, EMPTY], {'paths': 0, 'exact paths': 0, 'notes': []})
    return bool(found)


REARRANGES = ('fromkeys', 'set', 'frozenset', 'sorted', 'reversed', 'slice')


class LetterClient(Base):
    """inputs that are objects: what they are given is kept, and a step applies it"""

    def __init__(self, names, cls, mode, letters, what):
        super().__init__(names, cls, mode)
        self.letters, self.at_return = letters, getattr(self, what)

    def start(self):
        return St()

    def kept(self, it, s, node, v, fn):
        for a in fn.args.args[1:]:
            p = ('s', -1, a.arg)
            if (SELF, a.arg) not in s.fields:
                continue
            t = it.content(s, it.resolve(s, s.fields[(SELF, a.arg)]))
            if t == p or t == mk_seq((('e', p),)):
                ok = True
            elif t == NONE:
                ok = True if it.truth(s, ('eq', p, NONE, 1)) is True else None if any(
                    mentions(k, p) and k not in (('t', p), eqkey(p, NONE)) for k in s.facts) else False
            elif t[0] in ('call', 'app') and t[1] in REARRANGES and mentions(t, p):
                ok = False
            else:
                ok = False if t[0] == 'c' else None
            self.ob('C05', f'{a.arg} kept', node, s, ok, f'{self.cls.name} keeps {show(t)} of a given {a.arg} (any value or '
                    'sequence, which may count as false or repeat its elements)')

    def applied(self, it, s, node, v, fn):
        v = it.resolve(s, v)
        x = ('s', -1, fn.args.args[1].arg)
        if v[0] != 'call' or v[1] != 'apply' or not mentions(v[3], x):
            return
        for f in sorted(self.letters):
            t = ('f', x, f)
            if mentions(v[3], t):
                continue
            if not mentions(v[4:], t):
                none = s.facts.get(('t', t)) is False or it.truth(s, ('eq', t, NONE, 1)) is True
                # what the path knows of the arguments holds for some that are not empty (all/any of them counting as false)
                weak = (('t', t), eqkey(t, NONE), ('t', ('app', 'all', t)), ('t', ('app', 'any', t)))
                ok = True if none else None if any(mentions(k, t) and k not in weak for k in s.facts) else False
            else:
                ok = True if v[4:] == (t,) else False if any(w[0] == 'idx' and mentions(w, t) for w in v[4:]) else None
            self.ob('C05', f'{f} applied', node, s, ok,
                    f'{self.cls.name}.{fn.name} calls the function with {', '.join(map(show, v[4:]))} instead of all of {show(t)}')


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def letter_objects(names, prog, res, stats, classes):
    for c in classes:
        fn = next((n for n in c.body if isinstance(n, ast.FunctionDef) and n.name == 'step'), None)
        if fn is None or len(fn.args.args) != 2:
            continue
        x = fn.args.args[1].arg
        read = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == x}
        for d in c.mod.tree.body if read else ():
            init = next((n for n in d.body if isinstance(n, ast.FunctionDef) and n.name == '__init__'), None) \
                if isinstance(d, ast.ClassDef) and d not in classes else None
            if init is None or not read <= {a.arg for a in init.args.args[1:]}:
                continue
            for cls, f, what in ((d, init, 'kept'), (c, fn, 'applied')):
                merge(res, prog, lambda mode: LetterClient(names, cls, mode, read, what), f,
                      [SELF] + [('s', -1, a.arg) for a in f.args.args[1:]], stats)


def analyse():
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    classes = sorted((c for c in names.subclasses('SUL') if runs.in_lib(c)), key=lambda c: (c.mod.name, c.name))
    base = [c for c in names.classes() if c.name == 'SUL' and runs.in_lib(c)]
    if not base or len(classes) < 4:
        raise AnalysisBroken('systems under learning not found')
    res, stats = [], {'classes': len(classes) + 1, 'paths': 0, 'exact paths': 0, 'notes': []}
    wrappers = []
    for c in base + classes:
        field = inner_field(names, c) if c not in base else None
        own = {n.name: n for n in c.body if isinstance(n, ast.FunctionDef)}
        if field is None:
            if c.name == 'CacheSUL':
                continue
            for m in ('query', 'adaptive_query', 'io_query'):
                fn = own.get(m)
                if fn is not None:
                    args = [SELF] + [WLIST if m == 'adaptive_query' else WORD] + [('s', 0, a.arg) for a in fn.args.args[2:]]
                    merge(res, prog, lambda mode: QueryClient(names, c, mode), fn, args, stats)
            continue
        wrappers.append(c.name)
        rec = set()
        for m in ('step', 'pre', 'post', 'query'):
            fn = names.method(c, m)
            if fn is None or (m == 'query' and m not in own):
                continue

            def mk(mode):
                cli = WrapperClient(names, c, mode, field)
                cli.record_fields = rec
                return cli
            merge(res, prog, mk, fn, [SELF] + [WORD if m == 'query' else LETTER] * (len(fn.args.args) > 1), stats)
    letter_objects(names, prog, res, stats, classes)
    stats['wrappers'] = ', '.join(wrappers)
    if 'CacheSUL' not in wrappers:
        stats['notes'].append('the caching wrapper was not recognised: not analysed')
    _out['r'] = (res, stats)
    return _out['r']

