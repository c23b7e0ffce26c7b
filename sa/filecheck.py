"""C16: saving an automaton and loading the file again, element by element on the schema of every automaton type."""
from .core import Program, Result
from .program import AnalysisBroken
from .schema import INIT, Bail, Crash, Func, Ref, State, T, is_unknown
from .setupcheck import ACTIONS, DET, STATE_FIELD, TYPES, Image, Model, finish, machine, report, run_expr

MOD = 'aalpy.utils'


class FileImage(Image):
    """identifiers of states come back as text; every other symbol as the word or the number it was"""

    def state_value(self, x):
        v = self.model.state_value(x)
        if isinstance(v, T) and v.op == 'acc':
            return self.m.acc       # of every state of the list; states reached otherwise have the opposite one
        return v

    def same_state(self, v, x, case):
        if self.model.sink is None or not (isinstance(x, T) and x.op == 'tgt'):
            return super().same_state(v, x, case)
        v = self.m.norm(v, State(None, case))
        if is_unknown(v):
            return None
        if not (isinstance(v, Ref) and v.obj.kind == 'inst' and v.obj.cls == self.scls):
            return False
        return v.obj.fields['state_id'] == self.model.sink.obj.fields['state_id'] and any(
            isinstance(w, Ref) and w.obj is v.obj for _, w in self.entries)

    def check_prefix(self, aut):
        """prefix of every state is the shortest path to it"""
        m = self.m
        sigma = T('sigma')
        atom = T('is', *sorted((sigma, INIT), key=repr))
        for is_init in (True, False):
            x = INIT if is_init else sigma
            case = (('if', atom, is_init),)
            for t, w in self.candidates(x, case):
                if t is not True:
                    continue
                v = m.field(w, 'prefix', State(None, case)) if 'prefix' in w.obj.fields else None
                ok = None if is_unknown(v) else v == T('path', INIT, x) or v == T('path', x, x) and is_init
                self.need(ok, f'prefix of {"the initial state" if is_init else "a state"} becomes {v!r} and not the shortest '
                              f'path to it')


def runs(cls):
    """(label, numbers, acceptance of a generic state, shape of words)"""
    accs = (False, True) if STATE_FIELD.get(cls) == 'is_accepting' else (None,)
    for digit in (False, True):
        for acc in accs:
            yield ('numbers' if digit else 'words') + ('' if acc is None else ', accepting' if acc else ', rejecting'), digit, acc, None
    if cls in ACTIONS:
        for w in ('pop', 'push'):
            yield f'words like {w}1', False, False, w


WRITE = [('save_automaton_to_file', "save_automaton_to_file(model, 'p', 'dot')"),
         ('save_automaton_to_file without self loops', "save_automaton_to_file(model, 'p', 'dot', display_same_state_trans=False)"),
         ('save', "model.save('p')")]


def c16(tier):
    prog = Program()
    res = Result('save_automaton_to_file and load_automaton_from_file are interpreted one after the other, element by element, on '
                 'an automaton of each type given only by its schema; the lines written are sequences of literal text and '
                 'opaque words or numbers, regular expressions and string operations of the loader are applied to them. The '
                 'automaton loaded must be the element-wise image of the one saved.')
    res.assumptions = ['identifiers of states are words (letters, digits, underscore); inputs, outputs and stack symbols are words '
                       'or non-negative integers',
                       'pydot writes a node or an edge on one line, with its attributes in the order given',
                       'get_shortest_path and is_input_complete only read the automaton (C13)']
    for cls in TYPES:
        for action in ACTIONS.get(cls, (None,)):
            for label, digit, acc, shape in runs(cls):
                for how, src in WRITE:
                    if how != WRITE[0][0] and (shape or digit or acc):
                        continue
                    one(prog, res, cls, action, label, digit, acc, shape, how, src, False)
                if cls in ACTIONS and not shape and not digit:
                    one(prog, res, cls, action, label + ', all transitions to an error state', digit, acc, shape, *WRITE[0], False,
                        sink='ErrorSinkState')
                if not shape and not digit and not acc:
                    one(prog, res, cls, action, label, digit, acc, shape, WRITE[0][0], WRITE[0][1], True)
    return res


def one(prog, res, cls, action, label, digit, acc, shape, how, src, prefixes, sink=None):
    m = machine(prog, digit, acc)
    m.words = {'sid'}
    m.shape = shape
    m.filled = True          # every state has a transition: enough to show what is written
    name = f'{cls} {how}, {label}' + (', compute_prefixes' if prefixes else '') + \
        (f' ({action or "internal"} transitions)' if cls in ACTIONS else '')
    results = []
    anchor = None
    try:
        mod = m.module(MOD)
        for f in ('save_automaton_to_file', 'load_automaton_from_file'):
            v = m.global_name(mod, f) if mod is not None else None
            if not isinstance(v, Func):
                raise AnalysisBroken(f'{f} not found')
            anchor = v.node
        model = Model(m, cls, action, sink)
        run_expr(m, src, {'model': model.ref}, mod)
        if 'graph' not in m.files:
            raise Crash('nothing is written to the file')
        if m.files['format'] != 'raw':
            raise Bail(f'file written in the format {m.files["format"]!r}')
        m.open_file = lambda path, args, kw, st, n: m.files['graph']
        kind = model.kind
        text = f"load_automaton_from_file('p', {kind!r}{', compute_prefixes=True' if prefixes else ''})"
        aut = run_expr(m, text, {}, mod)
        im = FileImage(m, model, results, text=True, extra_ok=(sink,) if sink else ())
        im.run(aut)
        if prefixes and cls in DET and isinstance(aut, Ref):
            im.check_prefix(aut)
    except Crash as e:
        results.append((False, f'{e}' + (f' (at {e.node.mod.rel}:{e.node.lineno})' if hasattr(e.node, 'mod') else '')))
    except Bail as e:
        results.append((None, f'not covered: {e}' + (f' ({getattr(e.node, "lineno", "")})' if e.node is not None else '')))
    report(res, 'C16', name, cls, how, anchor, results, m)


def c16_check(tier):
    return finish(c16(tier))
