"""C01, C02, C04: path analysis of find_cex of every equivalence oracle."""
import ast

from . import runs
from .core import Result
from .names import Names, enclosing_class
from .paths import *  # noqa: F403
from .paths import iadd, isub, ONE, ZERO
from .program import AnalysisBroken, construct_key, where

SULR = ('s', 0, 'sul')
HYP = ('s', 0, 'hypothesis')
SYS = {'sul', 'num_steps', 'num_queries', 'find_cex'}
_out = {}


class Base(Client):
    """name resolution and obligations shared by the clients"""

    def __init__(self, names, cls, mode):
        super().__init__()
        self.names, self.cls, self.mode = names, cls, mode
        self.obs = {}          # (prop, kind, node) -> list of (ok, log, message)

    def ob(self, prop, kind, node, st, ok, msg):
        if self.mute:
            return
        self.obs.setdefault((prop, kind, node), []).append((ok, st.log, msg))

    def method(self, it, name, sup, node):
        if self.cls is None:
            return None
        after = None
        if sup:
            n = node
            while n is not None and not isinstance(n, ast.ClassDef):
                n = n.parent
            after = n
        return self.names.method(self.cls, name, after)

    def function(self, it, node, name):
        r = self.names.resolve(node.mod.name, name)
        return r if isinstance(r, ast.FunctionDef) else None

    def resolve_method(self, it, st, node, recv, name):
        if recv[0] == 'g':      # staticmethod through the class name
            r = self.names.resolve(recv[1], recv[2])
            if isinstance(r, ast.ClassDef):
                m = self.names.method(r, name)
                if m is not None and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.decorator_list):
                    return StaticShim.get(m)
        return None


class StaticShim:
    @staticmethod
    def get(m):
        return None


class OracleClient(Base):
    TRACKED = {'step', 'step_to', 'pre', 'post', 'query', 'adaptive_query', 'reset_to_initial', 'execute_sequence',
               'compute_output_seq', 'num_steps', 'num_queries', 'current_state', 'find_cex'}

    def start(self):
        st = St()
        st.fields[(SELF, 'sul')] = SULR
        st.g.update(T=('s', 0, 'inputs of an earlier test'), Th=('s', 0, 'inputs of an earlier test (hypothesis)'),
                    O=('s', 0, 'earlier outputs'), N=ZERO, R=ZERO, ses=C('stale'), lastO=NONE, lastH=NONE, lastTo=NONE,
                    deleg=C(False), user=C(False), pair=NONE)
        return st

    # ------------------------------------------------------------ differences seen and not reported
    def settle(self, it, s):
        if s.g['pair'] != NONE and self.equal_outputs(it, s) is True:
            s.g['pair'] = NONE

    def equal_outputs(self, it, s):
        """were the outputs of the last input found equal (for step_to: was the output possible)?"""
        pr = it.resolve(s, s.g['pair'])
        if pr == NONE:
            return True
        if pr[0] != 'seq' or len(pr[1]) != 3:
            return None
        o, h, to = (index(pr, C(i)) for i in range(3))
        if to == C(True):
            if it.truth(s, ('eq', h, NONE, 1)) is False or s.facts.get(('t', h)) is True:
                return True
        elif it.tri(s, o, h) is True:
            return True
        f = s.facts.get(eqkey(o, h))
        if f is not None:
            return f
        if to == C(True) and (it.truth(s, ('eq', h, NONE, 1)) is True or s.facts.get(('t', h)) is False):
            return False
        hid = lambda k, t: any(x == t for x in walk(k))
        if any(hid(k, h) and (to == C(True) or hid(k, o)) for k in s.facts):
            return None
        return False

    def not_ignored(self, it, s, node):
        if s.g['pair'] == NONE or s.g['user'] == C(True):
            self.ob('C25', 'difference reported', node, s, True, '')
            return
        if it.tri(s, s.g['pair'], NONE) is None and s.g['pair'][0] != 'seq':
            self.ob('C25', 'difference reported', node, s, None, '')
            return
        self.ob('C25', 'difference reported', node, s, self.equal_outputs(it, s), 'the search goes on although the outputs of '
                'the system and the hypothesis for the last input were not found equal')
        s.g['pair'] = NONE

    def paired(self, it, s, to):
        g = s.g
        g['pair'] = NONE
        if g['lastO'] != NONE and g['lastH'] != NONE and g['ses'] == C('open') and it.tri(s, g['T'], g['Th']) is True:
            g['pair'] = mk_pair(g['lastO'], g['lastH'], C(to))

    def call(self, it, s, node, recv, name, args, kw):
        args = list(args) + list(kw.values())
        if recv == SULR:
            return self.sul_call(it, s, node, name, args)
        if recv == HYP:
            return self.hyp_call(it, s, node, name, args)
        if recv is None and name == 'input':
            s = s.copy()
            s.g['user'] = C(True)
            return [(s, it.fresh('input'))]
        if name == 'find_cex' and recv is not None and recv != SELF:
            s = s.copy()
            v = it.fresh('!delegated', recv)
            s.g['deleg'] = v
            s.g['T'], s.g['Th'], s.g['ses'] = TOP, TOP, TOP
            return [(s, v)]
        return None

    def sul_call(self, it, s, node, name, args):
        s = s.copy()
        g = s.g
        if name == 'pre':
            x = it.tri(s, g['ses'], C('closed'))
            self.ob('C02', 'reset only after close', node, s, x,
                    'the system is reset although the previous session was not closed')
            self.not_ignored(it, s, node)
            g['ses'], g['T'], g['O'] = C('open'), EMPTY, EMPTY
            g['lastO'] = g['lastH'] = NONE
            g['R'] = iadd(g['R'], ONE)
            return [(s, NONE)]
        if name == 'post':
            g['ses'] = C('closed')
            return [(s, NONE)]
        if name == 'step':
            x = it.tri(s, g['ses'], C('open'))
            self.ob('C02', 'step inside a session', node, s, x, 'an input is applied to the system outside a session')
            a = args[0] if args else NONE
            self.not_ignored(it, s, node)
            T2 = concat(g['T'], mk_seq((('e', a),)))
            l1, l2 = it.tri(s, g['T'], g['Th']), it.tri(s, g['Th'], T2)
            ok = True if True in (l1, l2) else False if l1 is False and l2 is False else None
            self.ob('C02', 'lockstep', node, s, ok, 'when this input is applied to the system, the hypothesis has executed '
                    f"{show(it.resolve(s, g['Th']))} but the system {show(it.resolve(s, g['T']))}")
            g['T'] = T2
            o = it.fresh('!sulout', a)
            g['O'] = concat(g['O'], mk_seq((('e', o),)))
            g['N'] = iadd(g['N'], ONE)
            g['lastO'] = o
            self.paired(it, s, g['lastTo'] != NONE)
            return [(s, o)]
        if name == 'query':
            self.ob('C02', 'query', node, s, None, '')
            w = it.content(s, args[0])
            g['T'], g['O'] = w, it.fresh('!outs', w)
            g['N'] = iadd(g['N'], length(w))
            g['R'] = iadd(g['R'], ONE)
            g['ses'] = C('closed')
            g['lastO'] = g['O']
            return [(s, g['O'])]
        return [(s, it.fresh(name, *args))]

    def hyp_call(self, it, s, node, name, args):
        s = s.copy()
        g = s.g
        if name == 'reset_to_initial':
            g['Th'] = EMPTY
            return [(s, NONE)]
        if name in ('step', 'step_to'):
            a = args[0] if args else NONE
            self.not_ignored(it, s, node)
            g['Th'] = concat(g['Th'], mk_seq((('e', a),)))
            o = it.fresh('!hypout', a)
            g['lastH'] = o
            if name == 'step_to':
                g['lastTo'] = mk_pair(o, a, args[1] if len(args) > 1 else NONE)
            else:
                g['lastTo'] = NONE
            self.paired(it, s, name == 'step_to')
            return [(s, o)]
        if name == 'execute_sequence' and len(args) > 1:
            w = it.content(s, args[1])
            init = args[0] == ('f', HYP, 'initial_state')
            g['Th'] = w if init else it.fresh('!elsewhere')
            o = it.fresh('!hypouts', w)
            g['lastH'] = o
            return [(s, o)]
        if name == 'compute_output_seq' and len(args) > 1:
            o = it.fresh('!hypouts', it.content(s, args[1]))
            g['lastH'] = o
            return [(s, o)]
        return [(s, it.fresh(name, *[it.resolve(s, a) for a in args]))]

    def summary(self, it, s, node, fn, args, kw):
        """helpers with loops that only move the hypothesis: its position is unknown afterwards"""
        if it.touches(fn, SYS) or not any(isinstance(n, (ast.For, ast.While, ast.ListComp)) for n in ast.walk(fn)):
            return None
        s, v = it.opaque(node, s, fn, args, kw)
        s.g['Th'] = ('app', 'somewhere', v)
        return [(s, v)]

    def store(self, it, s, node, obj, name, val):
        if obj == HYP and name == 'current_state' and val != ('f', HYP, 'current_state'):
            s.g['Th'] = EMPTY if val == ('f', HYP, 'initial_state') else it.fresh('!elsewhere')

    # ------------------------------------------------------------ obligations at return
    def at_return(self, it, s, node, v):
        g = s.g
        user = g['user'] == C(True)
        deleg = g['deleg'] != C(False)
        v2 = it.resolve(s, v)
        if not deleg:
            for f, gh in (('num_steps', 'N'), ('num_queries', 'R')):
                init = ('f', SELF, f)
                d = isub(s.fields.get((SELF, f), init), init)
                x = it.tri(s, d, g[gh])
                if x is None and it.mode == 'refute' and init in (r := as_lin(it.resolve(s, isub(d, g[gh])))[1]) and all(
                        x[0] == 'f' and x[1] == SELF for x in r):
                    x = False           # restarted: the value on entry does not count any more
                what = 'inputs applied' if f == 'num_steps' else 'resets of the system'
                self.ob('C04', f, node, s, x, f"on return self.{f} has grown by {show(it.resolve(s, d))} after "
                        f"{show(it.resolve(s, g[gh]))} {what}")
        if v2 == NONE or it.truth(s, ('eq', v2, NONE, 1)) is True:
            self.not_ignored(it, s, node)
        if v2 == NONE or (v2[0] == 'call' and v2[1] == '!delegated'):
            return
        if v2[0] == 'call' and v2[1] == 'bisimilar':
            return
        if it.truth(s, ('eq', v2, NONE, 1)) is True:
            return
        if deleg and it.tri(s, g['deleg'], v2) is True:
            return
        x = it.tri(s, g['ses'], C('closed'))
        if not deleg:
            self.ob('C02', 'closed on return', node, s, x, 'a counterexample is returned with the session still open')
            self.ob('C02', 'lockstep on return', node, s, it.tri(s, g['T'], g['Th']),
                    f"a counterexample is returned when the hypothesis has executed {show(it.resolve(s, g['Th']))} "
                    f"but the system {show(it.resolve(s, g['T']))}")
        if g['T'] == TOP:
            self.ob('C01', 'executed inputs', node, s, None, '')
            return
        T, O = it.resolve(s, g['T']), it.resolve(s, g['O'])
        if g['lastTo'] == NONE:
            forms = [('inputs', T)]
        else:
            forms = self.forms(it, s, T, O)
        res = [it.tri(s, v2, f) for _, f in forms]
        ok = True if True in res else False if all(r is False for r in res) else None
        self.ob('C01', 'executed inputs', node, s, ok,
                f"returns {show(v2)} after executing {show(T)} since the last reset")
        if user:
            return
        self.ob('C01', 'difference observed', node, s, self.differs(it, s), 'a counterexample is returned although no '
                'difference between the outputs of the last input was observed on this path')

    def forms(self, it, s, T, O):
        vals = {v[2]: k[1] for k, v in s.facts.items() if k[0] == 'val' and v[0] == 'c' and isinstance(v[2], str)}
        neg = set()
        for k, v in s.facts.items():
            if k[0] == 'eq' and v is False:
                for x in k[1:]:
                    if x[0] == 'c' and isinstance(x[2], str):
                        neg.add(x[2])
        pair = ('inputs and outputs', mk_pair(T, O))
        n = length(T)
        il = []
        if n[0] == 'c':
            for k in range(n[2]):
                il += [('e', index(T, C(k))), ('e', index(O, C(k)))]
            inter = ('seq', tuple(il))
        else:
            inter = mk_seq((('rep', (index(T, KAPPA), index(O, KAPPA)), ZERO, n),))
        init = ('f', ('f', HYP, 'initial_state'), 'output')
        winit = concat(('seq', (('e', init),)), inter) if n[0] != 'c' else ('seq', (('e', init),) + inter[1])
        a, b = ('initial output, inputs and outputs interleaved', winit), ('inputs and outputs interleaved', inter)
        if 'onfsm' in vals:
            return [pair]
        if 'mdp' in vals:
            return [a]
        if 'onfsm' in neg and 'mdp' in neg:
            return [b]
        if 'onfsm' in neg and 'mdp' not in neg and it.mode == 'refute':
            return [a]        # the same form for both stochastic types cannot be right
        return [pair, a, b]

    def differs(self, it, s):
        g = s.g
        o, h = it.resolve(s, g['lastO']), it.resolve(s, g['lastH'])
        if o == NONE or h == NONE:
            return False
        if g['lastTo'] != NONE:
            to = it.resolve(s, g['lastTo'])
            if index(to, C(0)) == h:
                n = length(it.resolve(s, g['T']))
                last = index(it.resolve(s, g['T']), isub(n, ONE))
                if it.tri(s, index(to, ONE), last) is False or it.tri(s, index(to, C(2)), o) is False:
                    return False
                if it.truth(s, ('eq', h, NONE, 1)) is True or s.facts.get(('t', h)) is False:
                    return True if it.tri(s, index(to, C(2)), o) and it.tri(s, index(to, ONE), last) else None
                if it.truth(s, ('eq', h, NONE, 1)) is False:
                    return False
        f = s.facts.get(eqkey(o, h))
        if f is not None:
            return not f
        hid = lambda k, t: any(x == t for x in walk(k))
        if any(hid(k, o) and hid(k, h) for k in s.facts):
            return None
        return False


def oracles(names):
    return sorted((c for c in names.subclasses('Oracle') if names.method(c, 'find_cex') is not None and runs.in_lib(c)),
                  key=lambda c: (c.mod.name, c.name))


def analyse():
    """{prop: list of (cls, kind, node, status, message, path)} for all oracles"""
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    cl = oracles(names)
    if len(cl) < 8:
        raise AnalysisBroken('equivalence oracles not found')
    res, notes = [], []
    stats = {'oracle classes': 0, 'paths to a return': 0, 'exact paths': 0}
    for c in cl:
        fn = names.method(c, 'find_cex')
        if len(fn.args.args) < 2:
            raise AnalysisBroken(f'{c.name}.find_cex has no hypothesis parameter')
        stats['oracle classes'] += 1
        merged = {}
        note = ''
        for mode, iters in (('prove', 2), ('refute', 2), ('refute', 5)):
            if iters == 5 and (note or n > 60):
                continue            # deeper only where there are few paths
            cli = OracleClient(names, c, mode)
            n, note2 = drive(prog, cli, fn, [SELF, HYP], cli.start(), cli.at_return, mode, iters=iters)
            stats['paths to a return' if mode == 'prove' else 'exact paths'] += n
            if iters == 2:
                note += note2
            if note2:
                notes.append(f'{c.name}: {note2}')
            for k, l in cli.obs.items():
                e = merged.setdefault(k, {})
                e[mode] = e.get(mode, []) + l
        for (prop, kind, node), e in sorted(merged.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2].lineno)):
            res.append((prop, c, kind, node) + verdict(e, note))
    stats['notes'] = notes
    _out['r'] = (res, stats)
    return _out['r']


def verdict(e, note=''):
    bad = [x for x in e.get('refute', []) if x[0] is False]
    if bad:
        b = min(bad, key=lambda x: len(x[1]))
        return ('violated', b[2], b[1])
    if 'prove' in e and all(x[0] is True for x in e['prove']) and 'prove-failed' not in note:
        return ('proved', '', ())
    return ('undecided', '', ())


def drive(prog, cli, fn, args, st, at_return, mode, budget=None, iters=2):
    """run one mode; obligations are left in cli.obs"""
    note = ''
    n = 0
    for beam in ((48, 10, 3) if mode == 'refute' else (0,)):
        it = Paths(prog, cli, mode, budget=budget or (60000 if mode == 'prove' else 25000), k=iters)
        it.beam = beam
        try:
            outs = it.run(fn, args, st.copy())
            for s, k, v in outs:
                if k in ('next', 'return'):
                    n += 1
                    at_return(it, s, ret_node(fn, s), v if k == 'return' else NONE)
        except Unsupported as e:
            note = f'{mode}-failed: {e};'
        if not it.truncated:
            break
        note += f'{mode}-truncated;' + ('prove-failed' if mode == 'prove' else '')
    return n, note


def ret_node(fn, s):
    ln = s.g.get('%ret')
    if ln is not None and ln[0] == 'c':
        for n in ast.walk(fn):
            if isinstance(n, ast.Return) and n.lineno == ln[2]:
                return n
    return fn


def check(prop, rule, assumptions):
    def f(tier):
        r = Result(rule)
        res, stats = analyse()
        for p, c, kind, node, status, msg, path in res:
            if p != prop:
                continue
            tag = f"{c.name}: {kind} at {where(node)}"
            r.oblige({'proved': True, 'undecided': None, 'violated': False}[status], tag)
            if status == 'violated':
                r.violate(f"{c.name}::{kind}::{construct_key(node)}", f"{c.name}: {msg}", node, path)
        for k, v in stats.items():
            r.coverage[k] = v
        r.assumptions = assumptions
        return r
    return f
