"""C15 (state setups, copies, pickles) and C16 (saved files): element-wise comparison of an automaton with its image."""
import ast
import itertools

from .core import Program, Result
from .program import fq
from .schema import INIT, STATES, Alt, Bail, Crash, Entry, Env, Func, Interp, Obj, Ref, State, Str, T, is_unknown, subst, \
    subst_items
from .program import AnalysisBroken

A = 'aalpy.automata.'
TYPES = {  # class: (module, state class, letter in the file interface)
    'Dfa': (A + 'Dfa', 'DfaState', 'dfa'), 'MealyMachine': (A + 'MealyMachine', 'MealyState', 'mealy'),
    'MooreMachine': (A + 'MooreMachine', 'MooreState', 'moore'), 'Mdp': (A + 'Mdp', 'MdpState', 'mdp'),
    'StochasticMealyMachine': (A + 'StochasticMealyMachine', 'StochasticMealyState', 'smm'),
    'Onfsm': (A + 'Onfsm', 'OnfsmState', 'onfsm'),
    'NDMooreMachine': (A + 'NonDeterministicMooreMachine', 'NDMooreState', 'ndmoore'),
    'MarkovChain': (A + 'MarkovChain', 'McState', 'mc'), 'Vpa': (A + 'Vpa', 'VpaState', 'vpa'),
    'Sevpa': (A + 'Sevpa', 'SevpaState', 'sevpa')}
DET = {'Dfa', 'MealyMachine', 'MooreMachine'}
ACTIONS = {'Vpa': ('push', 'pop', None), 'Sevpa': ('pop', None)}
STATE_FIELD = {'Dfa': 'is_accepting', 'MooreMachine': 'output', 'Mdp': 'output', 'NDMooreMachine': 'output',
               'MarkovChain': 'output', 'Vpa': 'is_accepting', 'Sevpa': 'is_accepting'}


class Model:
    """the automaton to be converted: fields are terms over s (state), k (input), j (transition of the input)"""

    def __init__(self, m, cls, action=None, sink=None):
        self.m, self.name, self.action = m, cls, action
        self.sink = None
        mod, scls, self.kind = TYPES[cls]
        self.cls = m.cls(mod, cls)
        self.scls = m.cls(mod, scls)
        self.mod = mod
        s = self.s = m.binder('s')
        self.sctx = (('bind', s, STATES),)
        st = self.state = Obj('inst', self.sctx, self.scls)
        st.fields['state_id'] = [((), T('sid', s))]
        st.fields['prefix'] = [((), T('oldprefix', s))]
        if sink:        # every transition leads to one state without transitions
            o = Obj('inst', (), self.scls)
            e = Obj('dict', ())
            e.default = 'list'
            o.fields = {'state_id': [((), sink)], 'prefix': [((), None)], 'transitions': [((), Ref(e, ()))]}
            if cls in STATE_FIELD:
                o.fields[STATE_FIELD[cls]] = [((), False)]
            self.sink = Ref(o, ())
        if cls in STATE_FIELD:
            st.fields[STATE_FIELD[cls]] = [((), self.state_value(s))]
        k, j = m.binder('k'), m.binder('j')
        kitem, here = ('bind', k, T('KEYS', s)), ((s, s),)
        if cls == 'MarkovChain':
            tr = Obj('list', self.sctx)
            it = ('bind', j, T('ITEMS', s))
            tr.entries.append(Entry((it,), None, self.trans(s, None, j)))
        else:
            tr = Obj('dict', self.sctx)
            key = T('key', s, k)
            if cls in DET:
                tr.entries.append(Entry((kitem,), key, self.at(T('tgt', s, k))))
                if cls == 'MealyMachine':
                    of = Obj('dict', self.sctx)
                    of.entries.append(Entry((kitem,), key, T('out', s, k)))
                    st.fields['output_fun'] = [((), Ref(of, here))]
            else:
                tr.default = 'list'
                ls = Obj('list', self.sctx + (kitem,))
                it = ('bind', j, T('ITEMS', s, k))
                ls.entries.append(Entry((it,), None, self.trans(s, k, j)))
                tr.entries.append(Entry((kitem,), key, Ref(ls, ((s, s), (k, k)))))
        st.fields['transitions'] = [((), Ref(tr, here))]
        aut = self.aut = Obj('inst', (), self.cls)
        states = Obj('list', ())
        b = m.binder('s')
        states.entries.append(Entry((('bind', b, STATES),), None, self.at(b)))
        if self.sink:
            states.entries.append(Entry((), None, self.sink))
        aut.fields = {'initial_state': [((), self.at(INIT))], 'states': [((), Ref(states, ()))],
                      'current_state': [((), self.at(T('other', 'cur')))],
                      'characterization_set': [((), T('?', 0, 'characterization_set'))]}
        self.ref = Ref(aut, ())

    def at(self, t):
        return Ref(self.state, ((self.s, t),))

    def state_value(self, s):
        return T('acc', s) if STATE_FIELD[self.name] == 'is_accepting' else T('out', s)

    def trans(self, s, k, j):
        a = (s, j) if k is None else (s, k, j)
        tgt = self.sink or self.at(T('tgt', *a))
        if self.name in ('Mdp', 'MarkovChain'):
            return (tgt, T('prob', *a))
        if self.name == 'StochasticMealyMachine':
            return (tgt, T('out', *a), T('prob', *a))
        if self.name == 'Onfsm':
            return (T('out', *a), tgt)
        if self.name == 'NDMooreMachine':
            return tgt
        ctx = self.sctx + (('bind', k, T('KEYS', s)), ('bind', j, T('ITEMS', s, k)))
        o = Obj('inst', ctx, self.m.cls(self.mod, self.name + 'Transition'))
        guard = None
        if self.name == 'Vpa':
            o.fields['start'] = [((), self.at(s))]
            guard = T('guard', *a) if self.action else None
        elif self.action == 'pop':
            guard = (T('sid', T('from', *a)), T('top', *a))
        for n, v in (('target_state', tgt), ('letter', T('key', s, k)), ('action', self.action), ('stack_guard', guard)):
            o.fields[n] = [((), v)]
        return Ref(o, ((s, s), (k, k), (j, j)))


class Image:
    """checks that an automaton object is the element-wise image of a model"""

    def __init__(self, m, model, out, text=False, extra_ok=(), cls=None, scls=None):
        self.m, self.model, self.out, self.text, self.extra_ok = m, model, out, text, extra_ok
        self.cls = cls or model.cls
        self.scls = scls or model.scls
        self.obligations = 0

    # the terms of the model (over a state, an input and a transition)
    def key(self, x, k):
        return T('key', x, k)

    def tgt(self, *a):
        return T('tgt', *a)

    def out_of(self, *a):
        return T('out', *a)

    def prob(self, *a):
        return T('prob', *a)

    def items_of(self, *a):
        return T('ITEMS', *a)

    def need(self, ok, msg):
        """ok True, False or None (not decided)"""
        self.obligations += 1
        self.out.append((ok, msg))
        return ok

    def same(self, a, b, case=()):
        """equal values; text may stand for a token (text=True: identifiers come back as text)"""
        if isinstance(a, Alt) or isinstance(b, Alt) or is_unknown(a) or is_unknown(b):
            return None
        if a == b and type(a) is type(b):
            return True
        if isinstance(a, bool) and isinstance(b, T) and b.op == 'acc' or isinstance(b, bool) and isinstance(a, T) and \
                a.op == 'acc':
            t, c = (a, b) if isinstance(a, T) else (b, a)
            v = self.m.truth(t, State(None, tuple(case)))
            return False if v is None else v == c        # a constant for every state
        return False

    def plain(self, v):
        return v.parts[0] if isinstance(v, Str) and len(v.parts) == 1 else v

    def run(self, aut):
        m, model = self.m, self.model
        own = getattr(getattr(model, 'ref', None), 'obj', None)
        if isinstance(aut, Alt) and own:
            for g, v in aut.options:
                if isinstance(v, Ref) and v.obj is own:
                    self.need(False, 'the result is the original model itself under a condition')
                    return
        elif isinstance(aut, Ref) and aut.obj is own:
            self.need(False, 'the result is the original model itself')
            return
        if not self.need(isinstance(aut, Ref) and aut.obj.kind == 'inst' and aut.obj.cls == self.cls,
                         f'the result is no {self.cls!r} ({aut!r})'):
            return
        st0 = State(None, ())
        states = m.field(aut, 'states', st0) if 'states' in aut.obj.fields else None
        init = m.field(aut, 'initial_state', st0) if 'initial_state' in aut.obj.fields else None
        if not (isinstance(states, Ref) and states.obj.kind in ('list', 'dict')):
            self.need(None if is_unknown(states) else False, f'the states of the result are {states!r}')
            return
        self.entries = []
        for e in m.view(states):
            e = m.fresh(e)
            v = e.value if states.obj.kind == 'list' else e.key
            self.entries.append((e.items, v))
        sigma = T('sigma')
        case_atom = T('is', *sorted((sigma, INIT), key=repr))
        images = {}
        for is_init in (True, False):
            case = (('if', case_atom, is_init),)
            x = INIT if is_init else sigma
            im = self.image(x, case, 'the initial state' if is_init else 'a state')
            images[is_init] = im
            if im is not None:
                self.check_state(x, im, case, 'the initial state' if is_init else 'a state')
        # initial state
        st = State(None, ())
        iv = m.norm(init, st)
        if images.get(True) is not None:
            same = self.same_state(iv, INIT, ())
            self.need(same, f'the initial state of the result is {self.describe(iv)} and not the image of the initial state')

    def describe(self, v):
        if isinstance(v, Ref) and v.obj.kind == 'inst' and 'state_id' in v.obj.fields:
            return f'the state with the identifier {self.m.field(v, "state_id", State(None, ()))!r}'
        return repr(v)

    def candidates(self, x, case):
        """(guard truth, value) of the entries of the state list that stand for the original state x"""
        m = self.m
        out = []
        for items, v in self.entries:
            bs = [i for i in items if i[0] == 'bind']
            opts = v.options if isinstance(v, Alt) else [((), v)]
            for g, w in opts:
                if not (isinstance(w, Ref) and w.obj.kind == 'inst'):
                    out.append((None, w))
                    continue
                if len(bs) == 1 and bs[0][2] == STATES:
                    s = {bs[0][1]: x}
                elif not bs:
                    s = {}
                else:
                    out.append((None, w))
                    continue
                w2 = subst(w, s)
                its = subst_items(tuple(items) + tuple(g), s)
                t = m.items_truth(its, case)
                if t is False:
                    continue
                sid = self.plain(m.norm(self.state_id(w2, case), State(None, case)))
                if sid == T('sid', x):
                    out.append((t, w2))
                elif isinstance(sid, T) and sid.op == 'sid':
                    # the same state in this case?
                    e = m.atom_truth(T('is', *sorted((sid.args[0], x), key=repr)), case)
                    if e is True:
                        out.append((t, w2))
                    elif e is None and s:
                        out.append((None, w2))
                    elif s:
                        out.append((None, w2))
                elif isinstance(sid, str) and not bs:
                    if sid not in self.extra_ok:
                        out.append((None, w2))
                else:
                    out.append((None, w2))
        return out

    def state_id(self, w, case):
        if 'state_id' not in w.obj.fields:
            return T('?', -1, 'no identifier')
        return self.m.field(w, 'state_id', State(None, case))

    def image(self, x, case, what):
        c = self.candidates(x, case)
        if len(c) == 1 and c[0][0] is True:
            self.need(True, f'{what} has one image')
            return c[0][1]
        if not c:
            self.need(False, f'{what} has no image in the states of the result')
            return None
        if len(c) == 1:
            w = c[0][1]
            if isinstance(w, Ref) and w.obj.kind == 'inst':
                sid = self.plain(self.m.norm(self.state_id(w, case), State(None, case)))
                if sid != T('sid', x) and not is_unknown(sid):
                    self.need(False, f'{what} gets the identifier {sid!r}')
                    return None
                self.need(False, f'{what} is in the result only under a condition')
                return None
            self.need(None, f'{what}: image not decided ({w!r})')
            return None
        if all(t is True for t, _ in c):
            self.need(False, f'{what} has {len(c)} images in the states of the result')
        else:
            self.need(False, f'{what} has several or conditional images in the states of the result')
        return None

    def same_state(self, v, x, case):
        """is v the image of the original state x (any term)?"""
        m = self.m
        v = m.norm(v, State(None, case))
        if isinstance(v, Alt):
            rs = [self.same_state(w, x, case + tuple(g)) for g, w in v.options]
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        if is_unknown(v):
            return None
        if not (isinstance(v, Ref) and v.obj.kind == 'inst' and v.obj.cls == self.scls):
            return False
        # the image in the case x is INIT and in the other
        atom = T('is', *sorted((x, INIT), key=repr))
        t = m.atom_truth(atom, case)
        cases = [case] if t is not None or x == INIT else [case + (('if', atom, True),), case + (('if', atom, False),)]
        for cs in cases:
            cand = [w for tr, w in self.candidates(x, cs) if tr is True]
            y = INIT if m.atom_truth(atom, cs) is True else None
            if y is not None and x != INIT:
                cand += [w for tr, w in self.candidates(INIT, cs) if tr is True]
            ok = any(self.equal_under(v, w, cs) for w in cand)
            if not ok:
                return False
        return True

    def equal_under(self, v, w, case):
        if v.obj is not w.obj:
            return False
        for (_, a), (_, b) in zip(v.sub, w.sub):
            if a != b and self.m.atom_truth(T('is', *sorted((a, b), key=repr)), case) is not True:
                return False
        return True

    def fieldv(self, w, name, case, what):
        if name not in w.obj.fields:
            c = self.m.class_attr(w.obj.cls, name)
            if c is None or isinstance(c[1], ast.FunctionDef):
                return None
            return self.m.class_const(c, name)
        v = self.m.field(w, name, State(None, case))
        return v

    def check_state(self, x, w, case, what):
        m, model = self.m, self.model
        self.need(w.obj.cls == self.scls, f'{what} becomes a {w.obj.cls!r}')
        if model.name in STATE_FIELD:
            f = STATE_FIELD[model.name]
            self.check_field(w, self.out_name(f), self.state_value(x), case, f'{f} of {what}')
        tr = self.fieldv(w, 'transitions', case, what)
        tr = m.norm(tr, State(None, case))
        if not isinstance(tr, Ref):
            self.need(None if is_unknown(tr) else False, f'transitions of {what} are {tr!r}')
            return
        shared = not any(t == x or isinstance(t, T) and t == x for _, t in tr.sub) and x != INIT
        if shared:
            self.need(False, f'transitions of {what} are one object shared by all states')
            return
        if tr.obj.kind == 'list' and model.name == 'MarkovChain':
            self.check_items(tr, x, None, case, what)
            return
        if tr.obj.kind != 'dict' or model.name == 'MarkovChain':
            self.need(False, f'transitions of {what} are a {tr.obj.kind}')
            return
        kappa = T('kappa')
        key = self.key(x, kappa)
        if model.name in DET:
            self.check_map(tr, x, kappa, key, case, what, 'transitions',
                           lambda v, cs: self.same_state(v, self.tgt(x, kappa), cs))
            if model.name == 'MealyMachine':
                of = self.fieldv(w, 'output_fun', case, what)
                of = m.norm(of, State(None, case)) if of is not None else None
                if not isinstance(of, Ref) or of.obj.kind != 'dict':
                    self.need(None if is_unknown(of) else False, f'outputs of {what} are {of!r}')
                    return
                self.check_map(of, x, kappa, key, case, what, 'output_fun', lambda v, cs: self.same(v, self.out_of(x, kappa)))
            return
        # lists of transitions per input
        lists = []
        for e in m.view(tr):
            e = m.fresh(e)
            lists.append(e)
        found = []
        for e in lists:
            s = self.key_match(e, key)
            if s is None:
                if not self.foreign(e, key):
                    self.need(False, f'transitions of {what} are stored under {self.plain(e.key)!r}')
                    return
                continue
            found.append((e, s))
        if not found:
            self.need(False, f'no transition of {what} is stored under its input' +
                      (f' (but under {lists[0].key!r})' if lists else ''))
            return
        if len(found) > 1:
            self.need(None, f'transitions of {what} in several lists')
            return
        e, s = found[0]
        v = m.norm(subst(e.value, s), State(None, case))
        if not isinstance(v, Ref) or v.obj.kind != 'list':
            self.need(None if is_unknown(v) else False, f'transitions of {what} for an input are {v!r}')
            return
        outer = [i for i in subst_items(e.items, s) if i[0] == 'if']
        self.check_items(v, x, kappa, case, what, outer)

    def out_name(self, f):
        return f

    def state_value(self, x):
        return self.model.state_value(x)

    def check_field(self, w, name, want, case, what):
        v = self.fieldv(w, name, case, what)
        v = self.m.norm(v, State(None, case)) if v is not None else v
        if isinstance(v, Alt):
            oks = [self.same(x, want, case + tuple(g)) for g, x in v.options]
            ok = True if all(o is True for o in oks) else (None if all(o is None or o for o in oks) else False)
            self.need(ok, f'{what} is taken over only under a condition ({v!r})')
            return
        self.need(self.same(v, want, case), f'{what} becomes {v!r} and not {want!r}')

    def key_match(self, e, key):
        from .schema import unify
        free = {i[1] for i in e.items if i[0] == 'bind' and i[2].op == 'KEYS'}
        return unify(e.key, key, free, {})

    def foreign(self, e, key):
        return isinstance(e.key, T) and e.key.op not in ('key',) and False

    def check_map(self, d, x, kappa, key, case, what, name, good):
        m = self.m
        cands = []
        for e in m.view(d):
            e = m.fresh(e)
            s = self.key_match(e, key)
            if s is None:
                self.need(False, f'{name} of {what} has an entry for {self.plain(e.key)!r}, which is no input of it')
                return
            left = [i for i in e.items if i[0] == 'bind' and i[1] not in s]
            if left:
                self.need(None, f'{name} of {what}: one entry per {left[0][2]!r}')
                return
            cands.append((tuple(i for i in subst_items(e.items, s) if i[0] == 'if'), subst(e.value, s)))
        self.cases(cands, case, what, name, good, overwrite=True)

    def check_items(self, ls, x, kappa, case, what, outer=()):
        m = self.m
        iota = T('iota')
        a = (x, iota) if kappa is None else (x, kappa, iota)
        dom = self.items_of(*a[:-1])
        cands = []
        for e in m.view(ls):
            e = m.fresh(e)
            bs = [i for i in e.items if i[0] == 'bind']
            if len(bs) != 1 or bs[0][2] != dom:
                self.need(False if not any(is_unknown(b[2]) for b in bs) else None,
                          f'transitions of {what} for an input: entries over {[b[2] for b in bs]!r} and not over its '
                          f'transitions for the input')
                return
            s = {bs[0][1]: iota}
            cands.append((tuple(i for i in subst_items(e.items, s) if i[0] == 'if'), subst(e.value, s)))
        m.truths[T('nonempty', dom)] = True
        if kappa is not None:
            m.truths[T('nonempty', T('KEYS', x))] = True
        self.cases(cands, case, what, 'transition', lambda v, cs: self.item_ok(v, x, kappa, iota, a, cs))

    def item_ok(self, v, x, kappa, iota, a, cs):
        m, n = self.m, self.model.name
        tgt = self.tgt(*a)
        v = m.norm(v, State(None, cs))
        if isinstance(v, Alt):
            rs = [self.item_ok(w, x, kappa, iota, a, cs + tuple(g)) for g, w in v.options]
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        if n == 'NDMooreMachine':
            return self.same_state(v, tgt, cs)
        if n in ('Vpa', 'Sevpa'):
            if not (isinstance(v, Ref) and v.obj.kind == 'inst' and v.obj.cls.name == n + 'Transition'):
                return None if is_unknown(v) else False
            rs = [self.same_state(self.fieldv(v, 'target_state', cs, ''), tgt, cs),
                  self.same(m.norm(self.fieldv(v, 'letter', cs, ''), State(None, cs)), self.key(x, kappa)),
                  self.same(self.fieldv(v, 'action', cs, ''), self.model.action)]
            g = m.norm(self.fieldv(v, 'stack_guard', cs, ''), State(None, cs))
            if n == 'Vpa':
                rs.append(self.same_state(self.fieldv(v, 'start', cs, ''), x, cs))
                rs.append(self.same(g, T('guard', *a) if self.model.action else None))
            elif self.model.action == 'pop':
                ok = isinstance(g, tuple) and len(g) == 2
                # the state of the guard is compared with identifiers at run time: same form as these
                want = T('sid', T('from', *a))
                want = Str((want,)) if self.text and m.num(want) else want
                rs.append(ok and self.same(g[0], want) and self.same(g[1], T('top', *a)))
            else:
                rs.append(self.same(g, None))
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        if not isinstance(v, tuple):
            return None if is_unknown(v) else False
        want = {'Mdp': ('S', self.prob(*a)), 'MarkovChain': ('S', self.prob(*a)),
                'StochasticMealyMachine': ('S', self.out_of(*a), self.prob(*a)), 'Onfsm': (self.out_of(*a), 'S')}[n]
        if len(want) != len(v):
            return False
        rs = [self.same_state(y, tgt, cs) if w == 'S' else self.same(m.norm(y, State(None, cs)), w)
              for w, y in zip(want, v)]
        return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)

    def feasible(self, case):
        return True

    def cases(self, cands, case, what, name, good, overwrite=False):
        """in every combination of the undecided conditions exactly one candidate applies and is right"""
        m = self.m
        atoms = []
        for g, _ in cands:
            for it in g:
                if m.atom_truth(it[1], case) is None and it[1] not in atoms:
                    atoms.append(it[1])
        if len(atoms) > 6:
            self.need(None, f'{name} of {what}: too many conditions')
            return
        bad = None
        for vals in itertools.product((True, False), repeat=len(atoms)):
            cs = case + tuple(('if', a, v) for a, v in zip(atoms, vals))
            live = [v for g, v in cands if m.items_truth(g, cs) is True]
            cond = ' if ' + ' and '.join(('' if v else 'not ') + repr(a) for a, v in zip(atoms, vals)) if atoms else ''
            can = self.feasible(cs)
            if can is not True:
                if not live or len(live) > 1 and not overwrite or good(live[-1], cs) is not True:
                    bad = None if can is False else f'{name} of {what} not decided{cond}'
                continue
            if not live:
                self.need(False, f'a {name} of {what} is lost{cond}')
                return
            if len(live) > 1 and not overwrite:
                self.need(False, f'a {name} of {what} is stored {len(live)} times{cond}')
                return
            r = good(live[-1], cs)
            if r is False:
                self.need(False, f'a {name} of {what} becomes {self.render(live[-1])}{cond}')
                return
            if r is None:
                bad = f'{name} of {what} not decided'
        self.need(None if bad else True, bad or f'{name} of {what}')

    def render(self, v):
        m = self.m
        if isinstance(v, Ref) and v.obj.kind == 'inst':
            parts = []
            for f in v.obj.fields:
                try:
                    x = m.field(v, f, State(None, ()))
                except Bail:
                    continue
                if f in ('transitions', 'prefix', 'output_fun'):
                    continue
                parts.append(f'{f}={self.describe(x) if isinstance(x, Ref) else repr(x)}')
            return f'{v.obj.cls!r}({", ".join(parts)})'
        if isinstance(v, tuple):
            return '(' + ', '.join(self.render(x) for x in v) + ')'
        return repr(v)


def opaque(why):
    return lambda m, v, args, kw, st, n: T('?', -2, why)


def shortest_path(m, v, args, kw, st, n):
    return T('path', *[a.sub[0][1] if isinstance(a, Ref) and a.sub else T('?', -3, 'state') for a in args[:2]])


def by_id(m, v, args, kw, st, n):
    want = args[0]
    states = m.field(v, 'states', st)
    d = m.new('dict', st)
    for e in m.view(states):
        e = m.fresh(e)
        st2 = State(st.env, st.ctx + tuple(e.items))
        m.store(d, st2, m.getattr(e.value, 'state_id', st2, n), e.value)
    r = m.lookup(d, want, st, n)
    return r[1] if isinstance(r, tuple) and r[0] == 'val' else T('?', -4, 'search')


def alphabet(m, v, args, kw, st, n):
    return T('?', -5, 'alphabet')


def machine(prog, digit=False, acc=None):
    m = Interp(prog, digit, acc)
    m.models = {'get_input_alphabet': alphabet, 'is_input_complete': opaque('completeness'),
                'get_shortest_path': shortest_path, 'get_state_by_id': by_id}
    return m


def run_expr(m, src, env, mod):
    tree = ast.parse(src, mode='eval')
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    return m.expr(tree.body, State(Env(dict(env), None, mod), ()))


class Case:
    def __init__(self, label, anchor):
        self.label, self.anchor = label, anchor
        self.results = []        # (ok, message)
        self.crash = self.bail = None
        self.functions = set()


def setup_cases(prog):
    """every automaton type: copy, pickle, importer with the initial state named"""
    for cls in TYPES:
        for action in ACTIONS.get(cls, (None,)):
            for digit in ((False, True) if cls == 'Sevpa' else (False,)):
                for how, src in (('copy', 'model.copy()'),
                                 ('pickle', 'reduced[0](*reduced[1])'),
                                 ('setup', 'model.from_state_setup(model.to_state_setup())'),
                                 ('named', 'model.from_state_setup(model.to_state_setup(), init_state_id='
                                           'model.initial_state.state_id)')):
                    if how == 'named' and cls not in ACTIONS:
                        continue
                    yield cls, action, digit, how, src


def extra_states(m, model):
    """identifiers of states the importers of this class may add by themselves"""
    try:
        e = m.class_attr(model.cls, 'error_state')
        if e is None or isinstance(e[1], ast.FunctionDef):
            return ()
        v = m.class_const(e, 'error_state')
        return (m.field(v, 'state_id', State(None, ())),)
    except (Bail, Crash):
        return ()


def c15(tier):
    prog = Program()
    res = Result('Each exporter and importer of a state setup, and copy and __reduce__ built on them, are interpreted element by '
                 'element on an automaton given only by its schema (opaque terms for every state, input, transition and field; '
                 'collections by binders). The resulting automaton must be the element-wise image: exactly one state for each '
                 'state under no condition, the same identifier, output and acceptance, one transition for each transition '
                 'with every component in its position, the image of the initial state as initial state; exporting starts '
                 'with the initial state.')
    res.assumptions = ['identifiers of the states of an automaton are unique, as are the inputs of a state',
                       'get_input_alphabet, get_shortest_path and is_input_complete only read the automaton (C13)']
    for cls, action, digit, how, src in setup_cases(prog):
        m = machine(prog, digit)
        case_name = f'{cls} {how}' + (f' ({action or "internal"} transitions)' if cls in ACTIONS else '')
        results = []
        anchor = None
        try:
            model = Model(m, cls, action)
            a = m.class_attr(model.cls, 'to_state_setup')
            b = m.class_attr(model.cls, 'from_state_setup')
            c = m.class_attr(model.cls, 'copy')
            r = m.class_attr(model.cls, '__reduce__')
            for n, x in (('to_state_setup', a), ('from_state_setup', b)):
                if x is None:
                    raise AnalysisBroken(f'{cls}.{n} not found')
            if how == 'copy' and c is None or how == 'pickle' and r is None:
                continue
            anchor = a[1]
            env = {'model': model.ref}
            if how == 'setup':
                exported = run_expr(m, 'model.to_state_setup()', env, a[1].mod)
                check_first(m, model, exported, results)
                check_listed(m, exported, results)
            if how == 'pickle':
                red = run_expr(m, 'model.__reduce__()', env, a[1].mod)
                if not (isinstance(red, tuple) and len(red) >= 2 and isinstance(red[1], tuple)):
                    raise Crash(f'__reduce__ gives {red!r}', r[1])
                aut = m.apply(red[0], list(red[1]), {}, State(Env({}, None, a[1].mod), ()), r[1])
            else:
                aut = run_expr(m, src, env, a[1].mod)
            Image(m, model, results, extra_ok=extra_states(m, model)).run(aut)
        except Crash as e:
            results.append((False, f'{e}' + (f' (at {e.node.mod.rel}:{e.node.lineno})' if hasattr(e.node, 'mod') else '')))
        except Bail as e:
            results.append((None, f'not covered: {e}' + (f' ({getattr(e.node, "lineno", "")})' if e.node is not None else '')))
        report(res, 'C15', case_name, cls, how, anchor, results, m)
    return res


def check_first(m, model, exported, results):
    """the exported dictionary: its first key is the identifier of the initial state and it has one entry per state"""
    if not (isinstance(exported, Ref) and exported.obj.kind == 'dict'):
        results.append((None if is_unknown(exported) else False, f'to_state_setup gives {exported!r} and no dictionary'))
        return
    es = m.view(exported)
    if not es:
        results.append((False, 'the exported dictionary is empty'))
        return
    e = m.fresh(es[0])
    first = None
    if not any(i[0] == 'bind' for i in e.items):
        first = e.key
    if isinstance(first, (T, Str)) and is_unknown(first):
        results.append((None, 'first entry'))
        return
    results.append((first == T('sid', INIT), f'the first entry of the export is {first if first is not None else e.key!r} and '
                    'not the initial state'))


def check_listed(m, exported, results):
    """no transition is left out of the export: two automata that differ in it would be exported alike"""
    if not (isinstance(exported, Ref) and exported.obj.kind == 'dict'):
        return
    st = State(None, ())

    def whole(a):
        return isinstance(a, T) and a.op == 'nonempty'

    def walk_value(v, outer):
        v = m.norm(v, st) if not isinstance(v, (tuple, list, Alt)) else v
        if isinstance(v, (tuple, list)):
            for y in v:
                walk_value(y, outer)
        elif isinstance(v, Ref) and v.obj.kind in ('dict', 'list'):
            groups = {}
            for e in m.view(v):
                bs = tuple(i[2] for i in e.items if i[0] == 'bind')
                if len(bs) == 1 and isinstance(bs[0], T) and bs[0].op in ('KEYS', 'ITEMS'):
                    var = next(i[1] for i in e.items if i[0] == 'bind')
                    conds = tuple(subst((i[1], i[2]), {var: T('each')}) for i in e.items if i[0] == 'if' and not whole(i[1]))
                    groups.setdefault(bs[0], []).append(conds)
                else:
                    groups.setdefault('other', []).append(())
                walk_value(e.value, outer)
            if 'other' not in groups:
                for b, alts in groups.items():
                    atoms = sorted({a for c in alts for a, _ in c}, key=repr)
                    if not all(len(a.args) == 2 and a.op == 'is' and any(isinstance(x, T) and x.op == 'tgt' for x in a.args)
                               for a in atoms) or len(atoms) > 4:
                        continue
                    lost = next((dict(zip(atoms, vs)) for vs in itertools.product((True, False), repeat=len(atoms))
                                 if not any(all(dict(zip(atoms, vs))[a] == w for a, w in c) for c in alts)), None)
                    results.append((lost is None, 'the export leaves out a transition if ' + ' and '.join(
                        f'{a!r} is {w}' for a, w in (lost or {}).items())))
    for e in m.view(exported):
        walk_value(m.fresh(e).value, ())


def report(res, pid, case_name, cls, how, anchor, results, m):
    for fn in m.calls:
        res.coverage.setdefault('functions', set())
        res.coverage['functions'].add(fq(fn))
    res.count('interpretations')
    for ok, msg in results:
        res.oblige(ok, f'{case_name}: {msg}')
        if ok is False:
            res.violate(f'{pid}::{case_name}::{key_of(msg)}', f'{case_name}: {msg}', anchor,
                        [f'functions interpreted: {", ".join(sorted(fq(f) for f in m.calls))}'] + m.notes[:4])
    if isinstance(res.coverage.get('functions'), set):
        res.coverage['function_count'] = len(res.coverage['functions'])


def key_of(msg):
    import re
    return re.sub(r'(?<=[a-z])\d+|#\d+|:\d+', '', msg)[:110]


def finish(res):
    if isinstance(res.coverage.get('functions'), set):
        res.coverage['functions'] = sorted(res.coverage['functions'])
    return res


def c15_check(tier):
    return finish(c15(tier))
