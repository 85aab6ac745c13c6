"""C09 trees, forests and submesh labels keep consistent bookkeeping."""
import itertools
from ..frame import want, Violation, Undecided
from ..build import World, Sym, aslist, children, linemesh
from .c06 import ident


class N(object):
    """reference model of a node"""

    def __init__(self, parent=None, pos=None):
        self.parent, self.pos, self.kids = parent, pos, []
        self.flags = set()
        self.obj = None

    def depth(self):
        return 0 if self.parent is None else self.parent.depth() + 1

    def pre(self):
        out = [self]
        for k in self.kids:
            out.extend(k.pre())
        return out

    def anc(self):
        n, out = self.parent, []
        while n is not None:
            out.append(n)
            n = n.parent
        return out


# skeletons: nested tuples; () is a leaf
SHAPES = {
    'root only': [()],
    'one split': [((), ())],
    'two levels': [(((), ()), ())],
    'two roots': [((), ((), ())), ()],
    'deep': [((), ((), (((), ()))))],
    'full': [(((), ()), ((), ())), ((), ())],
}


def build(W, shape, arity=2, planted=True, late=False):
    """forest of regular trees with the given skeleton, and its model.
    late: split before the trees are put into the forest"""
    roots, trees = [], []

    def model(sk, parent, pos):
        n = N(parent, pos)
        n.kids = [model(s, n, q) for q, s in enumerate(sk)]
        return n
    roots = [model(s, None, q) for q, s in enumerate(shape)]
    trees = [W.new('mesh', 'Tree', n_children=arity) for r in roots]

    def grow(n, obj):
        n.obj = obj
        if n.kids:
            W.m(obj, 'split')
            for q, k in enumerate(n.kids):
                grow(k, W.m(obj, 'get_child', q))
    F = None
    if late:
        for r, t in zip(roots, trees):
            grow(r, t)
    if planted:
        F = W.new('mesh', 'Forest', list(trees))
    if not late:
        for r, t in zip(roots, trees):
            grow(r, t)
    return F, roots


def nodes(roots):
    return [n for r in roots for n in r.pre()]


def breadth(roots):
    out, q = [], list(roots)
    while q:
        n = q.pop(0)
        out.append(n)
        q.extend(n.kids)
    return out


def objs(W, v):
    return aslist(W, v)


def same_seq(W, got, exp, what):
    got = objs(W, got)
    if len(got) != len(exp):
        raise Violation('%s: %d nodes, expected %d' % (what, len(got),
                                                       len(exp)))
    for q, (g, e) in enumerate(zip(got, exp)):
        ident(W, g, e.obj, '%s, position %d' % (what, q))


def same_set(W, got, exp, what):
    a = sorted(id(g) for g in objs(W, got))
    b = sorted(id(e.obj) for e in exp)
    if a != b:
        raise Violation('%s: %d nodes, expected %d (or other nodes)' % (
            what, len(a), len(b)))


def one(W, got, exp, what):
    ident(W, got, exp.obj if exp is not None else None, what)


def label(W, ns, subset, flag):
    for n in ns:
        if n in subset:
            n.flags.add(flag)
            W.m(n.obj, 'mark', flag)


def state(W, roots, flag, what):
    for n in nodes(roots):
        if W.m(n.obj, 'is_marked', flag) is not (flag in n.flags):
            raise Violation('%s: node %s is %smarked %r' % (
                what, addr(n), '' if flag not in n.flags else 'not ', flag))


def addr(n):
    a = []
    while n is not None:
        a.insert(0, n.pos)
        n = n.parent
    return a


def links(W, roots, what, planted=True):
    """heap of the analysed program = model"""
    for n in nodes(roots):
        a = addr(n)
        if not planted:
            a = a[1:]
        want(list(W.m(n.obj, 'get_node_address')), a,
             '%s: address of node %s' % (what, addr(n)))
        want(W.m(n.obj, 'get_depth'), n.depth(), '%s: depth' % what)
        one(W, W.m(n.obj, 'get_parent'), n.parent, '%s: parent' % what)
        if n.parent is not None or planted:
            want(W.m(n.obj, 'get_node_position'), n.pos,
                 '%s: position of node %s' % (what, addr(n)))
        want(W.m(n.obj, 'has_parent'), n.parent is not None,
             '%s: has_parent' % what)
        want(W.m(n.obj, 'has_children'), bool(n.kids),
             '%s: has_children' % what)
        t = 'ROOT' if n.parent is None else 'BRANCH' if n.kids else 'LEAF'
        want(W.m(n.obj, 'get_node_type'), t, '%s: type of node %s' % (
            what, addr(n)))
        if n.kids:
            for q, k in enumerate(n.kids):
                one(W, W.m(n.obj, 'get_child', q), k, '%s: child' % what)
        want(W.m(n.obj, 'in_forest'), planted and n.parent is None,
             '%s: in_forest' % what) if n.parent is None else None
        root = n
        while root.parent is not None:
            root = root.parent
        one(W, W.m(n.obj, 'get_root'), root, '%s: root' % what)


def subsets(ns, limit=None):
    for k in range(2 ** len(ns)):
        yield [n for q, n in enumerate(ns) if k >> q & 1]


def rooted(roots, flag):
    for r in roots:
        if flag not in r.flags:
            return False
        for n in r.pre():
            if flag in n.flags:
                for a in n.anc():
                    if flag not in a.flags:
                        return False
                    if any(flag not in k.flags for k in a.kids):
                        return False
    return True


def root_it(roots, flag):
    for r in roots:
        r.flags.add(flag)
        for n in r.pre():
            if flag in n.flags:
                for a in n.anc():
                    a.flags.add(flag)
                    for k in a.kids:
                        k.flags.add(flag)


def sub_leaves(roots, flag):
    """leaves of the submesh"""
    return [n for n in breadth(roots)
            if (flag is None or flag in n.flags) and
            not any(flag is None or flag in k.flags for k in n.kids)]


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation over tree-shaped heaps: every '
                     'skeleton of bounded depth with every labelling, '
                     'post-state compared with a reference model')
    ctx.explanation = (
        'The node and forest operations recurse one level at a time. They '
        'are interpreted on all skeletons of a family (single roots, several '
        'roots, unbalanced and full trees up to depth three), for every '
        'subset of nodes carrying the label where the operation depends on '
        'labels, and the links, labels and enumerations of the resulting '
        'heap are compared with the model.')
    ctx.assumptions = ['skeletons up to depth 3; the operations treat deeper '
                       'levels by the same recursion']
    wt = lambda q: ctx.where('mesh', q)
    SMALL = ['one split', 'two levels', 'two roots']

    def each(shapes, fn, **kw):
        def f():
            for s in shapes:
                W = World(ctx)
                F, roots = build(W, SHAPES[s], **kw)
                fn(W, F, roots, s)
        return f

    def each_label(shapes, fn, mutate=True, **kw):
        """fn on fresh heaps for every labelled subset"""
        def f():
            for s in shapes:
                W = World(ctx)
                if not mutate:
                    F, roots = build(W, SHAPES[s], **kw)
                n = len(nodes(build(W, SHAPES[s], **kw)[1]))
                for k in range(2 ** n):
                    if mutate:
                        F, roots = build(W, SHAPES[s], **kw)
                    ns = nodes(roots)
                    sub = [m for q, m in enumerate(ns) if k >> q & 1]
                    if not mutate:
                        for m in ns:
                            m.flags.discard('f')
                            W.m(m.obj, 'unmark', 'f')
                    label(W, ns, sub, 'f')
                    fn(W, F, roots, '%s, label on %s' % (
                        s, [addr(m) for m in sub]))
                    ctx.stats['labellings'] = \
                        ctx.stats.get('labellings', 0) + 1
        return f

    ALL = list(SHAPES)
    ctx.ob('links after splitting', each(ALL, lambda W, F, r, s:
                                         links(W, r, s)), wt('Tree.__init__'))
    ctx.ob('links of unattached trees', each(
        ALL, lambda W, F, r, s: links(W, r, s, False), planted=False),
        wt('Tree.__init__'))
    ctx.ob('links of trees planted after splitting', each(
        ALL, lambda W, F, r, s: links(W, r, s), late=True),
        wt('Tree.plant_in_forest'))

    # ---------------------------------------------------------- traversal
    def traversal(W, F, roots, s):
        same_seq(W, W.m(F, 'traverse'), nodes(roots), s + ': depth first')
        same_seq(W, W.m(F, 'traverse', mode='breadth-first'), breadth(roots),
                 s + ': breadth first')
        for r in roots:
            same_seq(W, W.m(r.obj, 'traverse'), r.pre(), s + ': tree')
            same_seq(W, W.m(r.obj, 'traverse', mode='breadth-first'),
                     breadth([r]), s + ': tree by level')
        same_seq(W, W.m(F, 'get_leaves'), sub_leaves(roots, None),
                 s + ': leaves')
        same_set(W, W.m(F, 'get_leaves', mode='depth-first'),
                 sub_leaves(roots, None), s + ': leaves')
        want(W.m(F, 'depth'), max(n.depth() for n in nodes(roots)), 'depth')
        want(W.m(F, 'n_children'), len(roots), 'number of trees')
    ctx.ob('traversals visit every node once, in order', each(
        ALL, traversal), wt('Forest.traverse'))

    def filtered(W, F, roots, s):
        L = [n for n in nodes(roots) if 'f' in n.flags]
        same_seq(W, W.m(F, 'traverse', flag='f'), L, s + ': depth first')
        same_seq(W, W.m(F, 'traverse', flag='f', mode='breadth-first'),
                 [n for n in breadth(roots) if 'f' in n.flags],
                 s + ': breadth first')
        for r in roots:
            same_seq(W, W.m(r.obj, 'traverse', flag='f'),
                     [n for n in r.pre() if 'f' in n.flags], s + ': tree')
    ctx.ob('labelled traversal', each_label(SMALL, filtered, False),
           wt('Forest.traverse'))

    def fleaves(W, F, roots, s):
        same_set(W, W.m(F, 'get_leaves', subforest_flag='f'),
                 sub_leaves(roots, 'f'), s + ': leaves of the submesh')
        same_set(W, W.m(F, 'get_leaves', flag='f'),
                 [n for n in sub_leaves(roots, None) if 'f' in n.flags],
                 s + ': labelled leaves')
        for r in roots:
            same_set(W, W.m(r.obj, 'get_leaves', subtree_flag='f'),
                     sub_leaves([r], 'f'), s + ': leaves of the subtree')
            same_set(W, W.m(r.obj, 'get_leaves', flag='f'),
                     [n for n in sub_leaves([r], None) if 'f' in n.flags],
                     s + ': labelled leaves')
    ctx.ob('leaves of submeshes', each_label(SMALL, fleaves, False),
           wt('Forest.get_leaves'))

    def kids(W, F, roots, s):
        for n in nodes(roots):
            for fl in (None, 'f'):
                exp = [k for k in n.kids if fl is None or fl in k.flags]
                kw = {} if fl is None else {'flag': fl}
                same_seq(W, W.m(n.obj, 'get_children', **kw), exp,
                         s + ': children')
                same_seq(W, W.m(n.obj, 'get_children', reverse=True, **kw),
                         exp[::-1], s + ': children reversed')
                want(W.m(n.obj, 'has_children', **kw), bool(exp),
                     s + ': has_children')
                for q, k in enumerate(n.kids):
                    want(W.m(n.obj, 'has_children', position=q, **kw),
                         k in exp, s + ': has_children at a position')
            p = n.parent
            want(W.m(n.obj, 'has_parent', 'f'),
                 p is not None and 'f' in p.flags, s + ': labelled parent')
            one(W, W.m(n.obj, 'get_parent', 'f'),
                next((a for a in n.anc() if 'f' in a.flags), None),
                s + ': first labelled ancestor')
            one(W, W.m(n.obj, 'nearest_ancestor', 'f'),
                next((a for a in [n] + n.anc() if 'f' in a.flags), None),
                s + ': nearest labelled ancestor')
        for fl in (None, 'f'):
            exp = [r for r in roots if fl is None or fl in r.flags]
            kw = {} if fl is None else {'flag': fl}
            same_seq(W, W.m(F, 'get_children', **kw), exp, s + ': trees')
            same_seq(W, W.m(F, 'get_children', reverse=True, **kw),
                     exp[::-1], s + ': trees reversed')
            want(W.m(F, 'has_children', **kw), bool(exp), s + ': has trees')
    ctx.ob('children, parents and ancestors by label', each_label(
        SMALL, kids, False), wt('Tree.get_children'))

    def tdepth(W, F, roots, s):
        # deepest labelled descendant reached through labelled children
        def d(n, fl):
            return max([n.depth()] + [d(k, fl) for k in n.kids
                                      if fl is None or fl in k.flags])
        for n in nodes(roots):
            want(W.m(n.obj, 'tree_depth'), d(n, None), s + ': depth')
            want(W.m(n.obj, 'tree_depth', flag='f'), d(n, 'f'),
                 s + ': depth of the subtree')
    ctx.ob('depth of subtrees', each_label(['two levels', 'two roots'],
                                           tdepth, False),
           wt('Tree.tree_depth'))

    def search(W, F, roots, s):
        ns = nodes(roots)
        for n in ns:
            one(W, W.m(F, 'find_node', addr(n)), n, s + ': node by address')
            for m in ns:
                want(W.m(n.obj, 'contains', m.obj), m in n.pre(),
                     s + ': %s contains %s' % (addr(n), addr(m)))
            if not n.kids:
                one(W, W.m(F, 'find_node', addr(n) + [0]), None,
                    s + ': address below a leaf')
            one(W, W.m(F, 'find_node', addr(n)[:-1] + [7]), None,
                s + ': address out of range')
    ctx.ob('nodes are found by address; containment', each(ALL, search),
           wt('Forest.find_node'))

    def search_tree(W, F, roots, s):
        for r in roots:
            for n in r.pre():
                one(W, W.m(n.obj, 'find_node', addr(n)[1:]), n,
                    s + ': node by address')
            one(W, W.m(r.obj, 'find_node', [9]), None, s + ': missing node')
    ctx.ob('nodes of a tree are found by address', each(
        ALL, search_tree, planted=False), wt('Tree.find_node'))

    # ------------------------------------------------------------- labels
    def marking(op, recursive, reverse):
        def f():
            for s in SMALL:
                W = World(ctx)
                for q in range(len(nodes(build(W, SHAPES[s])[1]))):
                    F, roots = build(W, SHAPES[s])
                    ns = nodes(roots)
                    n = ns[q]
                    if op == 'unmark':
                        label(W, ns, ns, 'f')
                    label(W, ns, ns[::2], 'g')
                    W.m(n.obj, op, 'f', recursive=recursive, reverse=reverse)
                    hit = [n]
                    if recursive:
                        hit = [n] + n.anc() if reverse else n.pre()
                    for m in hit:
                        if op == 'mark':
                            m.flags.add('f')
                        else:
                            m.flags.discard('f')
                    what = '%s: %s at %s' % (s, op, addr(n))
                    state(W, roots, 'f', what)
                    state(W, roots, 'g', what)
        return f
    for op in ('mark', 'unmark'):
        for rec, rev in ((False, False), (True, False), (True, True)):
            ctx.ob('%s recursive=%s reverse=%s' % (op, rec, rev),
                   marking(op, rec, rev), wt('Tree.' + op))

    def anyflag(W, F, roots, s):
        n = nodes(roots)[0].obj
        want(W.m(n, 'is_marked'), False, 'no label yet')
        want(W.m(n, 'is_marked', 'x'), False, 'no label yet')
        W.m(n, 'mark', 'x')
        want(W.m(n, 'is_marked'), True, 'some label')
        want(W.m(n, 'is_marked', 'y'), False, 'other label')
        W.m(n, 'mark', 'y')
        W.m(n, 'unmark', 'x')
        want(W.m(n, 'is_marked', 'x'), False, 'removed label')
        want(W.m(n, 'is_marked', 'y'), True, 'kept label')
        W.m(n, 'unmark', 'x')
        W.m(n, 'unmark')
        want(W.m(n, 'is_marked'), False, 'all labels removed')
        W.m(n, 'mark')
        want(W.m(n, 'is_marked'), True, 'generic label')
    ctx.ob('labels are independent', each(['root only'], anyflag),
           wt('Tree.is_marked'))

    def rec(W, F, roots, s):
        W.m(F, 'record', 'f')
        for n in nodes(roots):
            n.flags.add('f')
        state(W, roots, 'f', s + ': record')
        # refining the mesh later leaves the recorded submesh alone
        before = set(id(n.obj) for n in sub_leaves(roots, 'f'))
        W.m(F, 'refine')
        got = set(id(o) for o in objs(W, W.m(F, 'get_leaves',
                                             subforest_flag='f')))
        if got != before:
            raise Violation(s + ': recorded submesh changed by refinement')
    ctx.ob('a recorded submesh survives refinement', each(ALL, rec),
           wt('Forest.record'))

    def make_rooted(W, F, roots, s):
        for r in roots:
            exp = all('f' in a.flags for n in r.pre() if 'f' in n.flags
                      for a in n.anc())
            want(W.m(r.obj, 'is_rooted_subtree', 'f'), exp,
                 s + ': is_rooted_subtree')
            W.m(r.obj, 'make_rooted_subtree', 'f')
            for n in r.pre():
                if 'f' in n.flags:
                    for a in n.anc():
                        a.flags.add('f')
            state(W, roots, 'f', s + ': make_rooted_subtree')
            want(W.m(r.obj, 'is_rooted_subtree', 'f'), True, s)
    ctx.ob('subtrees are completed to the root', each_label(
        SMALL, make_rooted), wt('Tree.make_rooted_subtree'))

    def root_subtrees(W, F, roots, s):
        want(W.m(F, 'subtrees_rooted', 'f'), rooted(roots, 'f'),
             s + ': subtrees_rooted')
        want(W.m(F, 'subtrees_rooted', None), True, 'whole forest')
        W.m(F, 'root_subtrees', 'f')
        root_it(roots, 'f')
        state(W, roots, 'f', s + ': root_subtrees')
        want(W.m(F, 'subtrees_rooted', 'f'), True, s + ': after rooting')
        # the leaves of a rooted submesh partition every root
        cover(roots, 'f', s)
    ctx.ob('submeshes are completed to partitions', each_label(
        SMALL, root_subtrees), wt('Forest.root_subtrees'))

    def cover(roots, flag, s):
        L = sub_leaves(roots, flag)
        for n in nodes(roots):
            if not n.kids:
                up = [m for m in [n] + n.anc() if m in L]
                if len(up) != 1:
                    raise Undecided('model: not a partition')

    # --------------------------------------------------------- refinement
    def split(n, W):
        if not n.kids:
            n.kids = [N(n, q) for q in range(2)]
        for q, k in enumerate(n.kids):
            k.obj = W.m(n.obj, 'get_child', q)

    def refine(subf, label_, cleanup, new=None):
        def fn(W, F, roots, s):
            # label 'f' marks what to refine; submesh 's' = all roots and
            # the children of the first root
            ns = nodes(roots)
            if subf:
                label(W, ns, roots + roots[0].kids, 's')
            kw = {}
            if subf:
                kw['subforest_flag'] = 's'
                root_it(roots, 's')
            if label_:
                kw['refinement_flag'] = 'f'
            if new:
                kw['new_label'] = new
            if not cleanup:
                kw['clean_up'] = False
            L = sub_leaves(roots, 's' if subf else None)
            hit = [n for n in L if not label_ or 'f' in n.flags]
            W.m(F, 'refine', **kw)
            for n in L:
                if new:
                    n.flags.add(new)
            for n in hit:
                split(n, W)
                for k in n.kids:
                    if new:
                        k.flags.add(new)
                    elif subf:
                        k.flags.add('s')
                if label_ and cleanup:
                    n.flags.discard('f')
            if new:
                root_it(roots, new)
            for fl in ('f', 's', 'n'):
                state(W, roots, fl, s + ': refine')
            links(W, roots, s + ': refine')
            fl = new or ('s' if subf else None)
            same_set(W, W.m(F, 'get_leaves', subforest_flag=fl),
                     sub_leaves(roots, fl), s + ': leaves after refinement')
        return fn
    for subf in (False, True):
        for lab in (False, True):
            for new in (None, 'n'):
                for cu in ((True, False) if lab else (True,)):
                    sh = ['one split', 'two levels'] if lab else SMALL
                    body = refine(subf, lab, cu, new)
                    ctx.ob('refine submesh=%s marked=%s new_label=%s '
                           'clean_up=%s' % (subf, lab, new, cu),
                           each_label(sh, body) if lab else
                           each(ALL, body), wt('Forest.refine'))

    # ---------------------------------------------------------- coarsening
    def coarsen_plain(W, F, roots, s):
        # without labels: cells all of whose children are leaves lose them
        def rule(n):
            if n.kids and all(not k.kids for k in n.kids):
                n.kids = []
                return
            for k in n.kids:
                rule(k)
        W.m(F, 'coarsen')
        for r in roots:
            rule(r)
        links(W, roots, s + ': coarsen')
        same_set(W, W.m(F, 'get_leaves'), sub_leaves(roots, None),
                 s + ': leaves after coarsening')
    ctx.ob('coarsen removes the finest level', each(ALL, coarsen_plain),
           wt('Tree.coarsen'))

    def coarsen_flag(W, F, roots, s):
        # labelled cells lose their descendants
        def rule(n):
            if 'f' in n.flags:
                n.kids = []
                n.flags.discard('f')
                return
            for k in n.kids:
                rule(k)
        W.m(F, 'coarsen', coarsening_flag='f')
        for r in roots:
            rule(r)
        links(W, roots, s + ': coarsen')
        state(W, roots, 'f', s + ': coarsen')
        same_set(W, W.m(F, 'get_leaves'), sub_leaves(roots, None),
                 s + ': leaves after coarsening')
    ctx.ob('coarsen at labelled cells', each_label(SMALL, coarsen_flag),
           wt('Tree.coarsen'))

    def coarsen_sub(W, F, roots, s):
        # a recorded submesh is coarsened by dropping its label
        for n in nodes(roots):
            n.flags.add('s')
        W.m(F, 'record', 's')

        def rule(n):
            if n.kids and all(not k.kids for k in n.kids):
                for k in n.kids:
                    k.flags.discard('s')
                return
            for k in n.kids:
                rule(k)
        W.m(F, 'coarsen', subforest_flag='s')
        for r in roots:
            rule(r)
        links(W, roots, s + ': coarsen submesh')
        state(W, roots, 's', s + ': coarsen submesh')
        want(W.m(F, 'subtrees_rooted', 's'), True, s + ': still rooted')
    ctx.ob('coarsening a submesh keeps the mesh', each(ALL, coarsen_sub),
           wt('Tree.coarsen'))

    def coarsen_new(W, F, roots, s):
        def rule(n):
            n.flags.add('n')
            if n.kids and all(not k.kids for k in n.kids):
                return
            for k in n.kids:
                rule(k)
        W.m(F, 'coarsen', new_label='n')
        for r in roots:
            rule(r)
        links(W, roots, s + ': coarsen with new label')
        state(W, roots, 'n', s + ': coarsen with new label')
    ctx.ob('coarsening into a new label keeps the mesh', each(
        ALL, coarsen_new), wt('Tree.coarsen'))

    # ----------------------------------------------------- forest surgery
    def removal(W, F, roots, s):
        if len(roots) < 2:
            return
        gone = roots.pop(0)
        W.m(F, 'remove_tree', 0)
        for q, r in enumerate(roots):
            r.pos = q
        links(W, roots, s + ': after removing a tree')
        same_seq(W, W.m(F, 'get_children'), roots, s + ': trees')
        want(W.m(gone.obj, 'in_forest'), False, s + ': removed tree')
        want(W.m(gone.obj, 'get_node_position'), None, s + ': removed tree')
        want(list(W.m(gone.obj, 'get_node_address')), [],
             s + ': address of the removed tree')
        links(W, [gone], s + ': removed tree', planted=False)
        W.m(F, 'add_tree', gone.obj)
        gone.pos = len(roots)
        roots.append(gone)
        links(W, roots, s + ': after adding a tree')
    ctx.ob('trees can be removed and added', each(ALL, removal),
           wt('Forest.remove_tree'))

    def delete(W, F, roots, s):
        for n in nodes(roots):
            if n.kids and all(not k.kids for k in n.kids):
                W.m(n.obj, 'delete_children')
                n.kids = []
        links(W, roots, s + ': delete_children')
    ctx.ob('children can be deleted', each(ALL, delete),
           wt('Tree.delete_children'))

    def delete_at(q):
        def f(W, F, roots, s):
            for n in nodes(roots):
                if not n.kids or any(k.kids for k in n.kids):
                    continue
                gone, kept = n.kids[q], n.kids[1 - q]
                W.m(n.obj, 'delete_children', q)
                what = '%s: child %d of %s deleted' % (s, q, addr(n))
                same_seq(W, W.m(n.obj, 'get_children'), [kept], what)
                same_seq(W, W.m(n.obj, 'traverse', mode='depth-first'),
                         [n, kept], what)
                want(W.m(n.obj, 'has_children'), True, what)
                want(W.m(n.obj, 'has_children', q), False, what)
                want(W.m(n.obj, 'has_children', 1 - q), True, what)
                one(W, W.m(n.obj, 'get_child', 1 - q), kept, what)
                want(list(W.m(kept.obj, 'get_node_address')), addr(kept),
                     what + ', address of the other')
                W.m(n.obj, 'delete_children', 1 - q)
                n.kids = []
            links(W, roots, s + ': delete_children one by one')
        return f
    for q in (0, 1):
        ctx.ob('child %d can be deleted first' % q, each(ALL, delete_at(q)),
               wt('Tree.delete_children'))

    def children_by_position(W, F, roots, s):
        label(W, nodes(roots), nodes(roots)[::2], 'x')
        for n in nodes(roots):
            for q in range(2):
                for fl in (None, 'x'):
                    e = bool(n.kids) and (fl is None or
                                          fl in n.kids[q].flags)
                    got = W.m(n.obj, 'has_children', q) if fl is None else \
                        W.m(n.obj, 'has_children', q, fl)
                    want(got, e, '%s: child %d of %s' % (s, q, addr(n)))
    ctx.ob('presence of a child at a position', each(
        ALL, children_by_position), wt('Tree.has_children'))

    def irregular():
        W = World(ctx)
        T = W.new('mesh', 'Tree', regular=False)
        W.m(T, 'split', n_children=3)
        want(W.m(T, 'n_children'), 3, 'children of an irregular tree')
        W.m(T, 'add_child')
        want(W.m(T, 'n_children'), 4, 'children after add_child')
        for q, c in enumerate(children(W, T)):
            ident(W, W.m(c, 'get_parent'), T, 'parent')
            want(W.m(c, 'get_node_position'), q, 'position')
            want(list(W.m(c, 'get_node_address')), [q], 'address')
    ctx.ob('irregular trees', irregular, wt('Tree.add_child'))

    def contained():
        for s in ('one split', 'two roots'):
            W = World(ctx)
            F0, r0 = build(W, SHAPES[s])
            n = len(nodes(r0))
            for k in range(2 ** n):
                for l in (1, 3, 2 ** n - 1, 5):
                    F, roots = build(W, SHAPES[s])
                    ns = nodes(roots)
                    label(W, ns, [m for q, m in enumerate(ns)
                                  if k >> q & 1], 'f')
                    label(W, ns, [m for q, m in enumerate(ns)
                                  if l >> q & 1], 'g')
                    exp = all(any('g' in a.flags for a in [m] + m.anc())
                              for m in sub_leaves(roots, 'f'))
                    want(W.m(F, 'is_contained_in', 'f', 'g'), exp,
                         '%s: is_contained_in' % s)
            want(W.m(F0, 'is_contained_in', None, 'g'), True, 'whole mesh')
            want(W.m(F0, 'is_contained_in', 'g', 'g'), True, 'same label')
    ctx.ob('submesh containment', contained, wt('Forest.is_contained_in'))
