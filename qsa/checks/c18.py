"""C18: queries and evaluations do not modify what they work on."""
import ast
import json
import os
from ..loader import AnalysisBroken
from ..effects import Effects

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, 'c18_effects.json')
LITERAL = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
           ast.SetComp)


def mutable(e):
    return isinstance(e, LITERAL) or (
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
        e.func.id in ('list', 'dict', 'set', 'deque', 'OrderedDict'))


def params(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg is not None:
        out.append(a.vararg.arg)
    out += [x.arg for x in a.kwonlyargs]
    if a.kwarg is not None:
        out.append(a.kwarg.arg)
    return out


def defaults(f):
    """{index of parameter: default expression}"""
    a = f.args
    pos = a.posonlyargs + a.args
    out = {}
    names = params(f)
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[names.index(x.arg)] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[names.index(x.arg)] = d
    return out


def effects_of(eff, s, known=None):
    """{root: (line, text)} in terms a table can name"""
    out = {}
    names = params(s.node)
    ctor = s.node.name == '__init__' and s.cls is not None
    for (r, lev), why in sorted(eff.sum[s.node].mut.items(), key=str):
        if isinstance(r, int):
            if r == 0 and s.cls is not None and s.is_instance:
                key = 'self'
                if ctor:
                    continue
            else:
                key = 'argument %d' % r
            out.setdefault(key, (why, names[r]))
        elif r.startswith('G:'):
            out.setdefault('global ' + r[2:], (why, r[2:]))
        elif r in eff.borrowed:
            for q, p, l in sorted(eff.borrowed[r]):
                # meshes are graphs of objects that modify one another
                if q == s.qual or q.startswith('mesh.') or l:
                    continue
                if known is not None and q not in known:
                    continue
                k = params(eff.by_qual[q].node).index(p)
                out.setdefault('argument %d of %s' % (k, q),
                               (why, r.split(':')[1]))
    return out


def load():
    with open(TABLE) as f:
        return json.load(f)


def analyse(prog, table=None):
    known = load() if table is None else table
    eff = Effects(prog, set(
        q for q, v in known.items()
        if 'self' in v and q.split('.')[-1].startswith(
            ('get_', 'has_', 'is_'))), known)
    for s in eff.scopes:
        d = [ast.unparse(x) for x in s.node.decorator_list]
        s.is_instance = s.cls is not None and 'staticmethod' not in d and \
            'classmethod' not in d
    eff.by_qual = dict((s.qual, s) for s in eff.scopes)
    return eff


def run(ctx):
    ctx.technique = ('interprocedural, flow-sensitive effect analysis: '
                     'which arguments, fields, defaults and globals may be '
                     'modified by each function (fixed point of summaries '
                     'over the call graph with class-hierarchy dispatch)')
    ctx.explanation = (
        'For every function of src/ the set of objects it may modify is '
        'computed from the source (assignments to attributes and items, '
        'in-place operators, mutating container and array methods, calls of '
        'functions that modify their arguments). It must be contained in '
        'the set of effects the function is there to have.')
    ctx.assumptions = [
        'external functions modify only the arguments they are documented '
        'to modify; results of numpy operations are new arrays except for '
        'views (slices with several indices, reshape, ravel, T, asarray)',
        'an in-place operator on a variable counts when there is evidence '
        'that it holds a list or an array',
        'functions that are not in the table of effects (new helpers) are '
        'judged through the functions that call them']
    table = load()
    eff = analyse(ctx.prog, table)
    seen = set()
    n_mut = 0
    for s in eff.scopes:
        ctx.analysed.add(s.qual)
        got = effects_of(eff, s, table)
        n_mut += len(got)
        where = 'src/%s.py:%d %s' % (s.module.name, s.node.lineno, s.qual)
        if s.qual in seen:
            continue
        # the last definition of a name is the one that counts
        if s is not [x for x in eff.scopes if x.qual == s.qual][-1]:
            continue
        seen.add(s.qual)
        if s.qual in table:
            extra = sorted(set(got) - set(table[s.qual]))
            if not extra:
                ctx.record('effects/' + s.qual, 'ok', where,
                           ', '.join(sorted(got)) or 'modifies nothing')
            for x in extra:
                (line, text), name = got[x]
                ctx.record('effects/%s/%s' % (s.qual, x.replace(' ', '-')),
                           'violated', 'src/%s.py:%d %s' % (
                               s.module.name, line, s.qual),
                           'modifies %s (%s): %s' % (x, name, text))
        # default values
        for k, d in defaults(s.node).items():
            if mutable(d):
                bad = [eff.sum[s.node].mut[a] for a in ((k, 0), (k, 1))
                       if a in eff.sum[s.node].mut]
                for f, who in eff.borrowed.items():
                    if any(q == s.qual and p == params(s.node)[k]
                           for q, p, l in who):
                        for t in eff.scopes:
                            if (f, 0) in eff.sum[t.node].mut:
                                bad.append(eff.sum[t.node].mut[(f, 0)])
                ctx.record('default/%s/%s' % (s.qual, params(s.node)[k]),
                           'violated' if bad else 'ok', where,
                           'the default value is modified: line %d %s'
                           % bad[0] if bad else 'default never modified')
    # containers in class bodies are shared by all instances
    for c in eff.repo.classes:
        for name, st in c.class_attrs.items():
            if not (isinstance(st, ast.Assign) and mutable(st.value)):
                continue
            f = 'F:' + name if not name.startswith('__') else \
                'F:_%s%s' % (c.name.lstrip('_'), name)
            init = c.find_method('__init__')
            own = init is not None and any(
                isinstance(n, ast.Attribute) and n.attr == name and
                isinstance(n.ctx, ast.Store) for n in ast.walk(init.node))
            bad = [] if own else [
                (t.qual, eff.sum[t.node].mut[(f, l)]) for t in eff.scopes
                for l in (0, 1) if (f, l) in eff.sum[t.node].mut]
            ctx.record('shared/%s.%s' % (c.key, name),
                       'violated' if bad else 'ok',
                       'src/%s.py:%d %s' % (c.module.name, st.lineno, c.name),
                       'shared by all instances and modified in %s line %d: '
                       '%s' % ((bad[0][0],) + bad[0][1]) if bad else '')
    ctx.info['calls analysed'] = eff.calls
    ctx.info['statements analysed'] = eff.stores
    ctx.info['rounds'] = eff.rounds
    ctx.info['effects found'] = n_mut
    known = len(set(table) & seen)
    ctx.info['functions in the table'] = known
    if known < 0.6 * len(table) or n_mut < 50:
        raise AnalysisBroken('C18: the functions of the table vanished')


def make_table():
    from ..loader import Program
    eff = analyse(Program())
    out = {}
    for s in eff.scopes:
        out[s.qual] = sorted(effects_of(eff, s))
    return out
