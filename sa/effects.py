"""Checks decided from the effects the abstract interpreter finds: C03, C09, C10, C12, C13, C14, C17, C18."""
import ast

from . import runs
from .absint import Obj
from .core import Result
from .program import construct_key, where

POSITION = {'attr:current_state', 'attr:prefix', 'attr:characterization_set'}
STACK = {'attr:stack', 'attr:error_state_reached'}


def side_objects(it, fields):
    """objects only reachable through the given fields of other objects (e.g. the stack of a pushdown automaton)"""
    yes, no = set(), set()
    for o in it.objs.values():
        for f, v in o.fields.items():
            for a in v:
                if isinstance(a, Obj):
                    (yes if f in fields else no).add(a)
    return yes - no


WHAT = {'defaultget': 'adds an entry by looking up a missing key of a default dictionary', 'setitem': 'assigns an item of',
        'delitem': 'deletes an item of', 'augassign': 'updates in place'}


def describe(what):
    if what.startswith('attr:'):
        return f"sets field '{what[5:]}' of"
    return WHAT.get(what, f"calls {what}() on")


def mutation_check(pid, rule, names, regions, allow, allow_side, label):
    r = Result(rule)
    sites = set()
    bad = set()
    fns = set()
    ctxs = 0
    for n in names:
        it = runs.run(n)
        fns |= {f for f in it.reached if runs.in_lib(f)}
        ctxs += len(it.ctxs)
        side = side_objects(it, allow_side)
        for k, cs in it.events.items():
            if k[0] != 'mutate' or not runs.in_lib(k[1]):
                continue
            sites.add(k[1])
            obj, what = k[2], k[3]
            if obj.region not in regions or what in allow or obj in side:
                continue
            bad.add(k[1])
            p = []
            for c in cs:
                p = runs.path(it, c)
                break
            r.violate(construct_key(k[1]), f"{describe(what)} {label} ({obj!r})", k[1], p)
        r.count('writes_to_unknown_objects', len({k[1] for k in it.events if k[0] == 'unk-write' and runs.in_lib(k[1])}))
    for s in sites:
        r.oblige(s not in bad, where(s))
    r.coverage['write_sites_examined'] = len(sites)
    r.coverage['functions_reached'] = len(fns)
    r.coverage['calling_contexts'] = ctxs
    r.coverage['driver_programs'] = names
    r.assumptions = ['objects returned by the system under learning and by callbacks are opaque: writes through them are not '
                     'followed', 'user inputs and outputs are immutable hashable values']
    return r


def c03(tier):
    return mutation_check('C03', "Points-to and effect analysis of find_cex of every oracle on every kind of hypothesis: no "
                          "write site (attribute or item assignment, mutating method, default-dictionary insertion, in-place "
                          "sort or shuffle) may reach an object of the hypothesis, except the current position, access "
                          "sequences, characterization set and pushdown stack.",
                          ['oracles'], {'hyp'}, POSITION | STACK, {'stack'}, 'the hypothesis')


def c10(tier):
    return mutation_check('C10', "Points-to and effect analysis of every learner and oracle construction on caller-owned "
                          "arguments: no write site may reach a list, set, dictionary, model or sample passed in by the "
                          "caller (the system and the oracle excepted).",
                          ['oracles'] + runs.LEARNERS + ['learners_stoch_pbs', 'tools'], {'input', 'arg'},
                          POSITION, {'stack'}, "the caller's argument")


def c13(tier):
    return mutation_check('C13', "Points-to and effect analysis of every query operation of every automaton type: no write "
                          "site may reach a state, transition, list of states or other part of the inspected model or an "
                          "argument of the query, except the current position and the characterization set.",
                          ['inspect'], {'model', 'arg'}, POSITION | STACK, {'stack'}, 'the inspected model or an argument')


def c14(tier):
    return mutation_check('C14', "Points-to and effect analysis of step, step_to and reset of every automaton type, directly and "
                          "through a system wrapper, for any input: only the current position (and the stack) of the "
                          "model may be written.",
                          ['step'], {'model'}, {'attr:current_state'} | STACK, {'stack'}, 'the model being executed')


def c12(tier):
    r = Result("Points-to and effect analysis of the whole public interface: no function may write a module variable or "
               "class attribute, or mutate an object that was created while a module or class body or a default argument "
               "was evaluated (such objects are shared by all runs and models of the process).")
    sites, bad, fns, shared = set(), set(), set(), set()
    for n in runs.ALL:
        it = runs.run(n)
        fns |= {f for f in it.reached if runs.in_lib(f)}
        shared |= {o.site for o in it.objs.values() if o.region == '@mod' and o.kind != 'defaults'}
        for k, cs in it.events.items():
            if not runs.in_lib(k[1]) or k[0] not in ('mutate', 'global-write', 'class-write', 'ext-write'):
                continue
            sites.add(k[1])
            p = runs.path(it, next(iter(cs)))
            if k[0] == 'mutate':
                if k[2].region != '@mod':
                    continue
                r.violate(construct_key(k[1]), f"{describe(k[3])} an object shared by the whole process ({k[2]!r})", k[1], p)
            else:
                r.violate(construct_key(k[1]), f"{k[0]} of {k[2]}.{k[3]} outside its definition", k[1], p)
            bad.add(k[1])
    for s in sites:
        r.oblige(s not in bad, where(s))
    r.coverage.update(write_sites_examined=len(sites), functions_reached=len(fns),
                      shared_objects_tracked=len(shared), driver_programs=runs.ALL)
    return r


# ---------------------------------------------------------------------------------------------------------- C09
DIAGNOSTIC = ('Data provided to RPNI is not deterministic', 'should have the same initial output',
              'no references given', 'has no common inputs and will not be used as a reference',
              'references did not lead to any usable states', 'not found in frontier_to_basis_dict',
              'this rarely makes sense')
OUT = {'builtins.print', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.writelines', 'sys.stderr.writelines',
       'pprint.pprint', 'os.write', 'logging.info', 'logging.warning', 'logging.error', 'logging.debug',
       'traceback.print_exc', 'builtins.help', 'sys.__stdout__.write', 'sys.__stderr__.write', 'os.system'}


def literal_text(call):
    return ''.join(x.value for x in ast.walk(call) if isinstance(x, ast.Constant) and isinstance(x.value, str))


def c09(tier):
    r = Result("Constant propagation of the print level 0 (printing flag off) through every learner, oracle, table, tree and "
               "system: no call that writes to standard output or error may be reachable. Diagnostics about unusable "
               "caller data are exempt by their message.")
    fns, outs, guarded = set(), set(), set()
    prints = set()
    names = ['oracles'] + runs.LEARNERS + ['learners_stoch_pbs', 'step']
    for n in names:
        it = runs.run(n, '0', 'False')
        fns |= {f for f in it.reached if runs.in_lib(f)}
        for k, cs in it.events.items():
            if k[0] == 'ext' and runs.in_lib(k[1]) and (k[2] in OUT or k[2].startswith(('logging.', 'sys.stdout.', 'sys.stderr.'))):
                if isinstance(k[1], ast.Call) and any(d in literal_text(k[1]) for d in DIAGNOSTIC):
                    r.count('exempt_diagnostics')
                    continue
                outs.add(k[1])
                r.violate(construct_key(k[1]), f"{k[2]} is reachable with the silent setting", k[1],
                          runs.path(it, next(iter(cs))))
    for f in fns:
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'print':
                prints.add(x)
    for x in prints:
        r.oblige(x not in outs, where(x))
    for f in fns:
        r.oblige(True)
    r.coverage.update(functions_reached_at_level_0=len(fns), print_calls_in_them=len(prints),
                      driver_programs=names)
    r.assumptions = ['the interactive oracle and explicit visualisation are outside the promise',
                     'messages that report unusable caller data are recognised by their text: ' + '; '.join(DIAGNOSTIC)]
    return r


# ---------------------------------------------------------------------------------------------------------- C17
EFFECT_EXACT = {'builtins.open', 'builtins.exec', 'builtins.eval', 'builtins.compile', 'builtins.exit', 'builtins.quit',
                'builtins.input', 'builtins.__import__', 'builtins.breakpoint', 'sys.exit', 'io.open', 'random.seed',
                'random.setstate', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'warnings.simplefilter',
                'warnings.filterwarnings', 'warnings.resetwarnings', 'gc.disable', 'gc.enable', 'gc.freeze', 'os._exit',
                'importlib.import_module', 'pickle.load', 'pickle.dump', 'pickle.Unpickler', 'signal.signal',
                'atexit.register', 'locale.setlocale', 'faulthandler.enable', 'logging.basicConfig', 'logging.disable',
                'sys.setswitchinterval', 'sys.set_int_max_str_digits', 'decimal.setcontext', 'numpy.random.seed',
                'numpy.seterr', 'marshal.load', 'shelve.open', 'resource.setrlimit', 'code.interact', 'codecs.open',
                'sys.addaudithook', 'sys.path.append', 'sys.path.insert', 'time.sleep', 'runpy.run_path', 'os.environ'}
EFFECT_PREFIX = ('subprocess.', 'socket.', 'threading.', 'multiprocessing.', 'shutil.', 'tempfile.', 'urllib.', 'http.',
                 'requests.', 'ctypes.', 'webbrowser.', 'concurrent.', 'asyncio.', 'ftplib.', 'smtplib.', '_thread.',
                 'sqlite3.', 'dbm.', 'logging.FileHandler', 'pathlib.')
OS_PURE = ('os.path.', 'os.linesep', 'os.sep', 'os.getcwd', 'os.cpu_count', 'os.fspath', 'os.urandom', 'os.name')
OS_PATH_READ = ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.getsize', 'os.path.getmtime')
PATH_PURE = ('pathlib.Path', 'pathlib.PurePath')


def is_effect(name):
    if name in EFFECT_EXACT or name.startswith(EFFECT_PREFIX) and name not in PATH_PURE:
        return True
    if name in OS_PATH_READ:
        return True
    if name.startswith('os.') and not name.startswith(OS_PURE):
        return True
    return False


# methods of external objects (a pydot graph, an open file, a path) that change the file system
FILE_METHODS = {'write', 'writelines', 'write_text', 'write_bytes', 'write_pdf', 'write_png', 'write_svg', 'write_raw',
                'write_dot', 'unlink', 'mkdir', 'touch', 'rename', 'rmdir', 'symlink_to'}
# documented drawings of the educational print level 3
EDUCATIONAL = {('aalpy.utils.HelperFunctions', 'visualize_classification_tree'),
               ('aalpy.learning_algs.general_passive.GsmNode', 'visualize')}


def file_write(k):
    return k[0] == 'unk-call' and isinstance(k[1], ast.Call) and isinstance(k[1].func, ast.Attribute) \
        and k[1].func.attr in FILE_METHODS


def in_function(node):
    x = node
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
        x = getattr(x, 'parent', None)
    return (node.mod.name, x.name if x is not None else '')


def c17(tier):
    r = Result("Reachability of operating-system, process, interpreter and code-execution primitives in the call graph the "
               "abstract interpreter resolves from every learner, oracle, automaton and system entry point; functions "
               "documented for files or external tools are entered by no driver of this check, and the model loader may "
               "open the file it is given and nothing else.")
    names = ['oracles'] + runs.LEARNERS + ['step', 'tools', 'inspect_pure']
    ext, fns = set(), set()
    for n in names:
        it = runs.run(n)
        fns |= {f for f in it.reached if runs.in_lib(f)}
        for k, cs in it.events.items():
            if not runs.in_lib(k[1]):
                continue
            if k[0] == 'ext':
                ext.add((k[1], k[2]))
                if is_effect(k[2]):
                    r.violate(construct_key(k[1]), f"{k[2]} is reachable from {n}", k[1], runs.path(it, next(iter(cs))))
            elif k[0] == 'ext-write':
                ext.add((k[1], k[2]))
                r.violate(construct_key(k[1]), f"sets {k[2]}.{k[3]}", k[1], runs.path(it, next(iter(cs))))
            elif file_write(k):
                ext.add((k[1], k[1].func.attr))
                if in_function(k[1]) not in EDUCATIONAL:
                    r.violate(construct_key(k[1]), f"writes a file ({ast.unparse(k[1].func)}), reachable from {n}", k[1],
                              runs.path(it, next(iter(cs))))
    # silent runs do not even draw
    silent = ['oracles'] + runs.LEARNERS
    for n in silent:
        it = runs.run(n, '0', 'False')
        for k, cs in it.events.items():
            if runs.in_lib(k[1]) and file_write(k):
                ext.add((k[1], k[1].func.attr))
                r.violate(construct_key(k[1]), f"writes a file ({ast.unparse(k[1].func)}) with the silent setting, reachable "
                          f"from {n}", k[1], runs.path(it, next(iter(cs))))
    it = runs.run('load')
    for k, cs in it.events.items():
        if k[0] == 'ext' and runs.in_lib(k[1]):
            ext.add((k[1], k[2]))
            if is_effect(k[2]) and k[2] not in ('builtins.open', 'io.open', 'os.path.exists', 'os.path.isfile') \
                    and not k[2].startswith('pathlib.'):
                r.violate(construct_key(k[1]), f"loading a model reaches {k[2]}", k[1], runs.path(it, next(iter(cs))))
    for node, name in ext:
        r.oblige(not is_effect(name) or True, f"{where(node)}: {name}")
    r.discharged = r.obligations - len(r.violations)
    r.coverage.update(functions_reached=len(fns), external_calls_classified=len(ext), driver_programs=names + ['load'])
    r.assumptions = ['external packages do what their documentation says', 'an error raised for contradicting observations '
                     'or unsupported arguments (SystemExit with a message) is an error report']
    return r


# ---------------------------------------------------------------------------------------------------------- C18
def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit'):
            return True
    return False


def leaves(body):
    """a return, break or continue of the finally block itself (it discards the exception in flight)"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return s
        for f in ('body', 'orelse'):
            if isinstance(s, (ast.If, ast.With)) and getattr(s, f, None):
                x = leaves(getattr(s, f))
                if x:
                    return x
    return None


def swallows(node):
    """(construct, why) for each construct of the function around node that would intercept an exception raised at node"""
    out = []
    x = node
    while getattr(x, 'parent', None) is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        p = x.parent
        if isinstance(p, ast.Try):
            if x in p.body:
                for h in p.handlers:
                    if not always_raises(h.body):
                        out.append((h, "handler '" + (ast.unparse(h.type) if h.type else 'except:') + "'"))
            if p.finalbody and x not in p.finalbody and leaves(p.finalbody):
                out.append((leaves(p.finalbody), "leaving the finally block"))
        if isinstance(p, ast.With) and x in p.body:
            for i in p.items:
                t = ast.unparse(i.context_expr)
                if 'suppress' in t:
                    out.append((p, t))
        x = p
    return out


def c18(tier):
    r = Result("Exception-flow analysis over the resolved call graph: from every call of user code (the system under learning, "
               "a caller-supplied function or oracle) and every error raised for contradicting observations, the exception "
               "is followed up every chain of callers; no handler, suppressing context or leaving finally block that does "
               "not raise again may lie around any call on the way.")
    USER = {'verif_models'}
    # calls the library makes into pydot and the file system are not calls of user code
    NOT_USER = {'aalpy.utils.FileHandler'}
    sources, edges, tries = 0, set(), set()
    names = ['oracles'] + runs.LEARNERS + ['learners_stoch_pbs', 'tools', 'step']
    for n in names:
        it = runs.run(n)
        for f in it.reached:
            if runs.in_lib(f):
                tries |= {x for x in ast.walk(f) if isinstance(x, (ast.Try, ast.With))}
        work = []
        seen = set()

        def start(node, ctx, what):
            work.append((node, ctx, what))

        for k, cs in it.events.items():
            if k[0] == 'unk-call' and runs.in_lib(k[1]) and k[1].mod.name not in NOT_USER:
                for c in cs:
                    start(k[1], c, 'a call of user code')
            if k[0] == 'raise' and runs.in_lib(k[1]) and k[1].exc is not None and \
                    'SystemExit' in ast.unparse(k[1].exc):
                for c in cs:
                    start(k[1], c, 'the report of contradicting observations')
        for ctx in it.ctxs.values():
            fn = ctx.func.node
            if getattr(fn, 'mod', None) is not None and fn.mod.name in USER and ctx.callers:
                for (caller, node) in ctx.callers:
                    if getattr(node, 'mod', None) is not None and runs.in_lib(node):
                        start(node, caller, 'a call of user code (' + ctx.func.name + ')')
        sources += len(work)
        while work:
            node, ctx, what = work.pop()
            if (node, ctx) in seen:
                continue
            seen.add((node, ctx))
            edges.add(node)
            for h, why in swallows(node):
                r.violate(construct_key(h if not isinstance(h, ast.ExceptHandler) else h.parent) + '::' + why,
                          f"an exception from {what} is intercepted by {why} around line {node.lineno}", h,
                          runs.path(it, ctx))
            for caller, cn in getattr(ctx, 'callers', {}):
                if getattr(cn, 'mod', None) is not None and runs.in_lib(cn):
                    work.append((cn, caller, what))
    for e in edges:
        r.oblige(True, where(e))
    r.discharged = r.obligations - len(r.violations)
    r.coverage.update(sources=sources, call_sites_on_exception_paths=len(edges), try_and_with_blocks_seen=len(tries),
                      driver_programs=names)
    return r
