"""C06: the document tree under histories of edits.

One run is one life of one or two documents that several editors change in an order chosen
by the seed: nodes are created, attached, moved within their parent, removed, replaced, cloned and
normalized; fragments are filled, nested, held as attributes and inserted.  Faults are requests that must be
refused (a reference node that is only equal to a child, a position outside the list, something
that is not a node) and sources of children that break off in the middle.  After every step
every live node is compared with a plain list model.
"""
import random

from sim.kernel import shrink_lists, replace_at

from plasTeX import DOM
from plasTeX.DOM import Node, NotFoundErr
from plasTeX import TeXDocument

LEVEL = 'exercise'
BATCH = 60
TIMEOUT = 20
RUNS_QUICK = 20000
RUNS_THOROUGH = 800000
RULE = ('a run is non-trivial if at least eight edits succeeded, at least one of them inserted a fragment or '
        'shifted siblings, and at least one refused request or broken source was injected; distinct by trace digest')
STATE_MEASURE = 'distinct shapes (names, texts, attributes) of the whole forest after each edit'
REAL = ['plasTeX.DOM (Document, Element, DocumentFragment, Text, CDATASection, NamedNodeMap)',
        'plasTeX.TeXDocument, plasTeX.TeXFragment and LaTeX macros in a share of the runs']
STUB = ['the parser and the renderers: scripted editors']
ASSUMPTIONS = ['arguments are detached nodes or fragments (or children of the same parent that are moved)',
               'a fragment that was inserted is a used-up handle: what it still lists is not checked',
               'an inserted text may be replaced by a merged one in normalize; old text objects are dead',
               'children of the `self` attribute may name the fragment or its element as their parent',
               'positions between a node and nodes in attributes of its ancestors are not compared']
TIME_NOTE = 'no simulated clock: the tree reads none'

NAMES = ['emph', 'mbox', 'quote']
TEXTS = ['x', 'x', 'y', 'xy', ' ', '\n', 'é', '``', 'a&b']
ATTRS = ['arg', 'title', 'opts']


# ------------------------------------------------------------------ generation
def gen(rng, tier, index):
    n = rng.choice([4, 6, 10, 20, 40, 40, 80 if tier == 'thorough' else 40])
    ops = []
    mix = rng.choice([
        # create, hold, edit, fault, other
        [.25, .06, .52, .09, .08], [.2, .12, .45, .13, .1], [.4, .05, .45, .05, .05], [.15, .1, .5, .05, .2]])
    ndocs = rng.choice([1, 1, 1, 2])
    texty = rng.random()
    for _ in range(n):
        d = rng.randrange(ndocs)
        r = rng.random()
        sel = [rng.randrange(1000) for _ in range(4)]
        alias = rng.randrange(2)
        if r < mix[0]:
            k = rng.random()
            if rng.random() < .25:
                ops.append([d, sel, alias, 'tree', gen_tree(rng, rng.choice(['frag', 'frag', 'el']), 3, texty)])
                continue
            kind = 'el' if k < .75 - .45 * texty else 'text' if k < .82 else 'frag' if k < .97 else 'cdata'
            op = ['new', kind, rng.choice(NAMES) if kind != 'text' else rng.choice(TEXTS)]
            if kind != 'frag' and rng.random() < .6:
                op.append(True)             # append it at once somewhere
        elif r < mix[0] + mix[1]:
            op = ['hold', rng.choice(['self', 'self', 'attr', 'list', 'dict', 'node', 'str']), rng.choice(ATTRS)]
            if rng.random() < .5:
                op.append(gen_tree(rng, rng.choice(['frag', 'frag', 'el']) if op[1] != 'self' else 'frag', 3, texty))
        elif r < mix[0] + mix[1] + mix[2]:
            op = [rng.choice(['append', 'append', 'insert', 'insert', 'before', 'before', 'after', 'replace', 'remove',
                              'pop', 'set', 'set', 'extend', 'move'])]
            op.append(rng.choice(['node', 'node', 'frag', 'frag', 'str']))
        elif r < mix[0] + mix[1] + mix[2] + mix[3]:
            op = ['fault', rng.choice(['before', 'after', 'replace', 'remove', 'pop', 'set', 'extend', 'none'])]
        else:
            op = [rng.choice(['normalize', 'normalize', 'clone', 'clone', 'shallow', 'eqclone'])]
        ops.append([d, sel, alias] + op)
    return {'tex': [rng.random() < .12 for _ in range(ndocs)], 'ops': ops, 'v': rng.randrange(10**6)}


def gen_tree(rng, kind, depth, texty):
    """A detached tree: [kind, name, [children]]."""
    kids = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]) if depth else 0):
        if rng.random() < .2 + .6 * texty:
            kids.append(['text', rng.choice(TEXTS), []])
        else:
            kids.append(gen_tree(rng, 'el', depth - 1, texty))
    return [kind, rng.choice(NAMES), kids]


def shrink(plan):
    yield from shrink_lists(plan, [('ops',)])
    for i, t in enumerate(plan['tex']):
        if t:
            yield replace_at(plan, ('tex', i), False)
    for i, op in enumerate(plan['ops']):
        for j, s in enumerate(op[1]):
            for k in (0, s % 7, s // 2):
                if k < s:
                    yield replace_at(plan, ('ops', i, 1, j), k)
        if op[2]:
            yield replace_at(plan, ('ops', i, 2), 0)
        if op[3] == 'tree':
            yield from shrink_lists(plan, [('ops', i, 4, 2)])
            for j, k in enumerate(op[4][2]):
                if k[2]:
                    yield replace_at(plan, ('ops', i, 4, 2, j, 2), [])
                    yield from shrink_lists(plan, [('ops', i, 4, 2, j, 2)])


# ------------------------------------------------------------------ model
class M:
    __slots__ = ('kind', 'name', 'kids', 'attrs', 'parent', 'holder', 'slot', 'real', 'doc', 'dead', 'serial', 'isself')

    def __init__(self, kind, name, real, doc, serial):
        self.kind = kind
        self.name = name        # element name or text
        self.kids = [] if kind in ('el', 'frag', 'doc') else None
        self.attrs = {}
        self.parent = None
        self.holder = None      # element that holds this node in an attribute
        self.slot = None
        self.isself = False
        self.real = real
        self.doc = doc
        self.dead = False
        self.serial = serial

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def top(self):
        """Root across attribute holders too."""
        n = self
        while True:
            if n.parent is not None:
                n = n.parent
            elif n.holder is not None:
                n = n.holder
            else:
                return n

    def shape(self):
        if self.kids is None:
            return [self.kind, self.name]
        return [self.kind, self.name if self.kind == 'el' else '', [k.shape() for k in self.kids],
                {k: vshape(v) for k, v in sorted(self.attrs.items()) if k != 'self'}]

    def text(self):
        if self.kids is None:
            return self.name
        return ''.join(k.text() for k in self.kids)

    def preorder(self):
        for k in self.kids or ():
            yield k
            yield from k.preorder()

    def lookup(self, names):
        """Elements below this node, attributes included."""
        out = []
        for k, v in self.attrs.items():
            if k == 'self':
                continue
            for m in members(v):
                if m.kind == 'el' and m.name in names:
                    out.append(m)
                if m.kids is not None:
                    out += m.lookup(names)
        for k in self.kids or ():
            if k.kind == 'el' and k.name in names:
                out.append(k)
            if k.kids is not None:
                out += k.lookup(names)
        return out

    def plain(self, names):
        return [k for k in self.preorder() if k.kind == 'el' and k.name in names]


def members(v):
    if isinstance(v, M):
        return [v]
    if isinstance(v, list):
        return [x for x in v if isinstance(x, M)]
    if isinstance(v, dict):
        return [x for x in v.values() if isinstance(x, M)]
    return []


def vshape(v):
    if isinstance(v, M):
        return v.shape()
    if isinstance(v, list):
        return [vshape(x) for x in v]
    if isinstance(v, dict):
        return {k: vshape(x) for k, x in v.items()}
    return v


class World:
    def __init__(self, plan, sim):
        self.sim = sim
        self.docs = []
        self.nodes = []         # live models, all documents
        self.serial = 0
        self.rng = random.Random(plan['v'])
        for tex in plan['tex']:
            real = TeXDocument() if tex else DOM.Document()
            if tex:
                while len(real):
                    real.pop()
            self.docs.append(self.add('doc', '#document', real, real))

    def add(self, kind, name, real, doc):
        self.serial += 1
        m = M(kind, name, real, doc, self.serial)
        self.nodes.append(m)
        return m

    def kill(self, m):
        m.dead = True
        self.nodes = [n for n in self.nodes if n is not m]

    def create(self, d, kind, name):
        doc = self.docs[d].real
        code = self.sim.code
        if kind == 'el':
            r = code('exception', doc.createElement, name)
        elif kind == 'text':
            r = code('exception', doc.createTextNode, name)
        elif kind == 'cdata':
            r = code('exception', doc.createCDATASection, name)
        else:
            r = code('exception', doc.createDocumentFragment)
        return self.add(kind, name, r, doc)

    def of(self, d):
        return [n for n in self.nodes if n.doc is self.docs[d].real]


def pick(seq, n):
    return seq[n % len(seq)] if seq else None


# ------------------------------------------------------------------ checks
def reals(real):
    return list(real)


def verify(w, full=False):
    sim = w.sim
    check = sim.check
    live = w.nodes
    known = {id(m.real): m for m in live}
    for m in live:
        r = m.real
        who = describe(m)
        if m.kind == 'doc':
            check(r.parentNode is None, 'parent', lambda: '%s has a parent' % who)
        else:
            check(r.ownerDocument is m.doc, 'owner', lambda: '%s does not belong to the document that created it' % who)
        if m.kids is None:
            if m.parent is None and m.holder is None:
                check(r.parentNode is None, 'parent', lambda: '%s is detached but names a parent' % who)
            check(str.__str__(r) == m.name, 'text', lambda: '%s changed its text to %r' % (who, r))
            continue
        if m.isself:
            # seen through its element, compare the list only
            pass
        kids = sim.code('exception', reals, r)
        if len(kids) != len(m.kids) or any(a is not b.real for a, b in zip(kids, m.kids)):
            check(False, 'children', lambda: '%s lists %s, expected %s' % (who, show(kids, known), [describe(k) for k in m.kids]))
        check(len(r) == len(m.kids), 'children', lambda: 'len(%s) is %d, expected %d' % (who, len(r), len(m.kids)))
        if m.parent is None and m.holder is None and m.kind != 'doc':
            check(r.parentNode is None, 'parent', lambda: '%s is detached but names the parent %s' % (
                who, show([r.parentNode], known)))
        if kids:
            check(r.firstChild is kids[0] and r.lastChild is kids[-1], 'first/last', lambda: who)
        else:
            check(r.firstChild is None and r.lastChild is None, 'first/last', lambda: who)
        alt = m.attrs['self'].real if 'self' in m.attrs else m.holder.real if m.isself else r
        for i, k in enumerate(kids):
            p = k.parentNode
            check(p is r or p is alt, 'parent', lambda: 'child %d of %s names %s as its parent' % (
                i, who, show([p], known) if p is not None else 'nothing'))
            check(k.previousSibling is (kids[i - 1] if i else None), 'sibling', lambda: 'previousSibling of child %d of %s (%s) is %s' % (
                i, who, show(kids, known), show([k.previousSibling], known)))
            check(k.nextSibling is (kids[i + 1] if i + 1 < len(kids) else None), 'sibling',
                  lambda: 'nextSibling of child %d of %s (%s) is %s' % (i, who, show(kids, known), show([k.nextSibling], known)))
        if m.isself:
            continue
        t = sim.code('exception', lambda: r.textContent)
        check(t == m.text(), 'textContent', lambda: 'textContent of %s is %r, expected %r' % (who, t, m.text()))
        for k, v in m.attrs.items():
            check(attr_same(r.attributes.get(k), v), 'attribute', lambda: 'attribute %r of %s changed: %r' % (k, who, r.attributes.get(k)))
    # element lookup
    targets = [m for m in live if m.kids is not None]
    if not full:
        targets = w.rng.sample(targets, min(4, len(targets)))
    for m in targets:
        names = w.rng.choice([['emph'], ['mbox'], ['quote'], ['emph', 'mbox'], ['emph', 'quote'], ['zz']])
        arg = names[0] if len(names) == 1 else w.rng.choice([list, tuple])(names)
        if len(names) == 1 and w.rng.random() < .2:
            got = sim.code('exception', m.real.getElementsByTagNameNS, None, arg)
        else:
            got = sim.code('exception', m.real.getElementsByTagName, arg)
        exp = m.lookup(names)
        gi = sorted(id(g) for g in got)
        if gi != sorted(id(e.real) for e in exp):
            check(False, 'lookup', lambda: 'getElementsByTagName(%r) of %s found %s, expected %s' % (
                arg, describe(m), show(got, known), [describe(e) for e in exp]))
        plain = m.plain(names)
        pid = {id(p.real) for p in plain}
        check([id(g) for g in got if id(g) in pid] == [id(p.real) for p in plain], 'lookup',
              lambda: 'getElementsByTagName(%r) of %s is not in document order: %s' % (arg, describe(m), show(got, known)))
        allc = sim.code('exception', lambda: m.real.allChildNodes)
        check([id(x) for x in allc] == [id(x.real) for x in m.preorder()], 'lookup',
              lambda: 'allChildNodes of %s: %s' % (describe(m), show(allc, known)))
    # positions
    comp = [m for m in live if not m.isself]
    n = len(comp)
    if n > 1:
        order = {}
        for m in comp:
            root = m.root()
            if root is m:
                for i, x in enumerate(m.preorder()):
                    order[id(x)] = i + 1
                order[id(m)] = 0
        for _ in range(60 if full else 12):
            a, b = w.rng.sample(comp, 2)
            ra, rb = a.root(), b.root()
            if ra is rb:
                if is_anc(a, b):
                    exp = Node.DOCUMENT_POSITION_CONTAINED_BY
                elif is_anc(b, a):
                    exp = Node.DOCUMENT_POSITION_CONTAINS
                elif order[id(b)] < order[id(a)]:
                    exp = Node.DOCUMENT_POSITION_PRECEDING
                else:
                    exp = Node.DOCUMENT_POSITION_FOLLOWING
            elif a.top() is b.top():
                continue
            else:
                exp = Node.DOCUMENT_POSITION_DISCONNECTED
            got = sim.code('exception', a.real.compareDocumentPosition, b.real)
            check(got == exp, 'position', lambda: '%s compared with %s gives %r, expected %r; tree %s' % (
                describe(a), describe(b), got, exp, ra.shape()))


def is_anc(a, b):
    n = b.parent
    while n is not None:
        if n is a:
            return True
        n = n.parent
    return False


def attr_same(r, v):
    if isinstance(v, M):
        return r is v.real
    if isinstance(v, list):
        return isinstance(r, list) and len(r) == len(v) and all(attr_same(a, b) for a, b in zip(r, v))
    if isinstance(v, dict):
        return isinstance(r, dict) and sorted(r) == sorted(v) and all(attr_same(r[k], v[k]) for k in v)
    return r == v


def describe(m):
    return '%s%d:%s' % (m.kind, m.serial, m.name if m.kids is None or m.kind == 'el' else '')


def show(lst, known):
    return [describe(known[id(x)]) if id(x) in known else
            (repr(str(x)) if isinstance(x, str) else '%s(unknown)' % getattr(x, 'nodeName', x)) for x in lst]


# ------------------------------------------------------------------ edits
def free_items(w, d, target, kind):
    """Detached nodes (or free fragments) that may be inserted below target."""
    top = target.top()
    out = []
    for n in w.of(d):
        if n.parent is not None or n.holder is not None or n.kind == 'doc' or n is top:
            continue
        if (n.kind == 'frag') == (kind == 'frag'):
            out.append(n)
    return out


class Arg:
    """An argument of an edit and the models it puts into the child list."""
    def __init__(self, w, d, target, kind, sel):
        self.w = w
        self.d = d
        self.kind = kind
        self.m = None
        if kind == 'str':
            self.value = TEXTS[sel % len(TEXTS)]
            return
        c = free_items(w, d, target, kind)
        if not c:
            self.m = w.create(d, 'el' if sel % 2 else 'text', NAMES[sel % 3] if sel % 2 else TEXTS[sel % len(TEXTS)])
            self.kind = 'node'
        else:
            self.m = pick(c, sel)
        self.value = self.m.real

    def items(self, target, at):
        """Called after the edit: models to list in target."""
        w = self.w
        if self.kind == 'str':
            kids = list(target.real)
            ok = at < len(kids) and isinstance(kids[at], DOM.Text) and not any(kids[at] is n.real for n in w.nodes)
            w.sim.check(ok, 'children', lambda: 'no new text was made for the string %r in %s' % (self.value, describe(target)))
            w.sim.check(kids[at] == self.value, 'children', lambda: 'string %r became %r' % (self.value, kids[at]))
            out = [w.add('text', self.value, kids[at], target.doc)]
        elif self.kind == 'frag':
            out = list(self.m.kids)
            w.kill(self.m)
            w.frags += 1
        else:
            out = [self.m]
        for m in out:
            m.parent = target if not target.isself else target.holder
        return out


def listing(m):
    """The model that owns the child list of m (the element of a `self` fragment shares it)."""
    return m


def containers(w, d):
    return [n for n in w.of(d) if n.kids is not None]


def put(w, target, lo, hi, new):
    """Replace target.kids[lo:hi]; `self` fragments share the list object with their element."""
    for k in target.kids[lo:hi]:
        k.parent = None
    target.kids[lo:hi] = new


def expect(sim, what, fn, args, exc):
    """A request that must be refused."""
    try:
        r = fn(*args)
    except exc:
        return
    except Exception as e:
        sim.check(False, 'refusal', '%s raised %s: %s instead of %s' % (what, type(e).__name__, e, exc))
    sim.check(False, 'refusal', '%s returned %r instead of being refused' % (what, r))


def do(w, sim, op):
    d, sel, alias = op[0], op[1], op[2]
    name = op[3]
    code = sim.code
    if name == 'new':
        m = w.create(d, op[4], op[5])
        if len(op) > 6 and m.kind != 'frag':
            t = pick([c for c in containers(w, d) if c is not m], sel[0])
            r = code('exception', t.real.append if alias else t.real.appendChild, m.real)
            sim.check(r is m.real, 'return', 'append')
            m.parent = t if not t.isself else t.holder
            t.kids.append(m)
        return True
    if name == 'tree':
        grow(w, sim, d, op[4], alias)
        return True
    if name == 'hold':
        return hold(w, sim, d, sel, op[4], op[5], grow(w, sim, d, op[6], alias) if len(op) > 6 else None)
    if name == 'fault':
        return fault(w, sim, d, sel, op[4])
    cont = containers(w, d)
    t = pick(cont, sel[0])
    r = t.real
    kids = t.kids
    n = len(kids)
    if name in ('before', 'after', 'replace', 'remove', 'pop', 'set', 'move') and not n:
        full = [c for c in cont if len(c.kids) > (1 if name == 'move' else 0)]
        t = pick(full, sel[0])
        if t is None:
            return False
        r, kids, n = t.real, t.kids, len(t.kids)
    i = sel[2] % n if n else 0
    if name == 'append':
        a = Arg(w, d, t, op[4], sel[1])
        ret = code('exception', r.append if alias else r.appendChild, a.value)
        check_ret(sim, 'append', ret, a)
        put(w, t, n, n, a.items(t, n))
    elif name == 'insert':
        a = Arg(w, d, t, op[4], sel[1])
        at = sel[2] % (2 * n + 5) - n - 2
        eff = max(0, at + n) if at < 0 else min(at, n)
        ret = code('exception', r.insert, at, a.value)
        check_ret(sim, 'insert', ret, a)
        put(w, t, eff, eff, a.items(t, eff))
    elif name in ('before', 'after'):
        a = Arg(w, d, t, op[4], sel[1])
        ret = code('exception', r.insertBefore if name == 'before' else r.insertAfter, a.value, kids[i].real)
        check_ret(sim, name, ret, a)
        at = i + (name == 'after')
        put(w, t, at, at, a.items(t, at))
    elif name == 'replace':
        a = Arg(w, d, t, op[4], sel[1])
        old = kids[i].real
        ret = code('exception', r.replaceChild, a.value, old)
        sim.check(ret is old, 'return', 'replaceChild did not return the replaced child')
        put(w, t, i, i + 1, a.items(t, i))
    elif name == 'remove':
        old = kids[i].real
        ret = code('exception', r.removeChild if alias else r.remove, old)
        sim.check(ret is old, 'return', 'removeChild did not return the removed child')
        put(w, t, i, i + 1, [])
    elif name == 'pop':
        at = sel[2] % (2 * n) - n
        old = kids[at].real
        if alias and at == -1:
            ret = code('exception', r.pop)
        else:
            ret = code('exception', r.pop, at)
        sim.check(ret is old, 'return', lambda: 'pop(%d) of %s returned %r' % (at, describe(t), ret))
        at %= n
        put(w, t, at, at + 1, [])
    elif name == 'set':
        a = Arg(w, d, t, op[4], sel[1])
        at = sel[2] % (2 * n) - n
        code('exception', r.__setitem__, at, a.value)
        at %= n
        put(w, t, at, at + 1, a.items(t, at))
    elif name == 'extend':
        args = [Arg(w, d, t, op[4], sel[1])]
        if sel[3] % 3:
            b = Arg(w, d, t, ['node', 'str', 'frag'][sel[3] % 3], sel[3])
            if b.m is None or b.m is not args[0].m:
                args.append(b)
        vals = [a.value for a in args]
        if alias and len(args) == 1 and args[0].kind == 'frag':
            vals = args[0].value        # extend by the children of the fragment
        if alias and sel[3] % 2:
            ret = code('exception', r.__iadd__, vals)
        else:
            ret = code('exception', r.extend, vals if sel[3] % 5 else iter(vals))
        sim.check(ret is r, 'return', 'extend did not return the node')
        for a in args:
            at = len(t.kids)
            put(w, t, at, at, a.items(t, at))
    elif name == 'move':
        j = sel[3] % n
        if i == j or n < 2:
            return False
        m, ref = kids[i], kids[j]
        how = sel[1] % 3
        fn = [r.insertBefore, r.insertAfter, r.replaceChild][how]
        ret = code('exception', fn, m.real, ref.real)
        sim.check(ret is (ref.real if how == 2 else m.real), 'return', 'moving a child')
        del kids[i]
        j = next(x for x, k in enumerate(kids) if k is ref)
        if how == 2:
            ref.parent = None
            kids[j] = m
        else:
            kids.insert(j + how, m)
        w.shifts += 1
    elif name == 'normalize':
        if sel[1] % 3 == 0:
            t = pick([n.top() for n in cont if n.attrs] or [t], sel[0])
        normalize(w, sim, t, alias)
    elif name in ('clone', 'shallow', 'eqclone'):
        clone(w, sim, d, sel, name)
    if name in ('insert', 'before', 'after', 'replace', 'remove', 'pop', 'set') and n > 1:
        w.shifts += 1
    return True


def grow(w, sim, d, spec, alias):
    m = w.create(d, spec[0], spec[1])
    for k in spec[2]:
        c = grow(w, sim, d, k, alias)
        sim.code('exception', m.real.append, c.real)
        c.parent = m
        m.kids.append(c)
    if alias and m.kids:
        verify(w)
    return m


def check_ret(sim, what, ret, a):
    if a.kind == 'str':
        sim.check(isinstance(ret, str) and ret == a.value, 'return', lambda: '%s returned %r' % (what, ret))
    else:
        sim.check(ret is a.value, 'return', lambda: '%s did not return the inserted node' % what)


def hold(w, sim, d, sel, how, attr, tree):
    code = sim.code
    free = [n for n in w.of(d) if n.parent is None and n.holder is None and n.kind != 'doc']
    frags = [n for n in free if n.kind == 'frag']
    if how == 'self':
        f = tree or pick(frags, sel[0]) or w.create(d, 'frag', '')
        e = w.create(d, 'el', NAMES[sel[1] % 3])
        if sel[2] % 2:
            # as the parser does it
            f.real.parentNode = e.real
        code('exception', e.real.setAttribute, 'self', f.real)
        e.attrs['self'] = f
        e.kids = f.kids         # one list
        f.holder = e
        f.isself = True
        for k in f.kids:
            k.parent = e
        return True
    els = [n for n in w.of(d) if n.kind == 'el' and attr not in n.attrs and (tree is None or n.top() is not tree)]
    e = pick(els, sel[0])
    if e is None:
        return False
    top = e.top()
    free = [n for n in free if n is not top]
    frags = [n for n in frags if n is not top]
    if how == 'str':
        value = TEXTS[sel[1] % len(TEXTS)]
        real = value
    elif how == 'attr':
        f = (tree if tree and tree.kind == 'frag' else pick(frags, sel[1])) or w.create(d, 'frag', '')
        value, real = f, f.real
        if sel[2] % 2:
            f.real.parentNode = e.real
    elif how == 'node':
        x = (tree if tree and tree.kind == 'el' else pick([n for n in free if n.kind in ('el', 'text')], sel[1])) or w.create(d, 'el', NAMES[sel[1] % 3])
        value, real = x, x.real
    else:
        x = tree or pick(free, sel[1]) or w.create(d, 'el', NAMES[sel[1] % 3])
        ys = [n for n in free if n is not x]
        y = pick(ys, sel[2]) or w.create(d, 'frag', '')
        value = [x, 'plain', y] if how == 'list' else {'k': x, 'v': y, 's': 'plain'}
        real = [x.real, 'plain', y.real] if how == 'list' else {'k': x.real, 'v': y.real, 's': 'plain'}
    if sel[3] % 2:
        code('exception', e.real.setAttribute, attr, real)
    else:
        code('exception', e.real.attributes.__setitem__, attr, real)
    e.attrs[attr] = value
    for m in members(value):
        m.holder = e
    return True


def fault(w, sim, d, sel, what):
    cont = containers(w, d)
    t = pick(cont, sel[0])
    r = t.real
    n = len(t.kids)
    own = {id(k) for k in t.kids}
    if what in ('before', 'after', 'replace', 'remove'):
        # prefer a reference that is equal to a child, but is not one
        cand = [m for m in w.of(d) if m.kind in ('el', 'text', 'cdata') and id(m) not in own and m is not t]
        eq = [m for m in cand if any(m.shape() == k.shape() for k in t.kids)]
        ref = pick(eq if eq and sel[3] % 3 else cand, sel[2])
        if ref is None:
            ref = w.create(d, 'text', TEXTS[sel[2] % len(TEXTS)])
        sim.fault('reference node that is only equal to a child' if ref in eq else 'reference node that is not a child')
        if what == 'remove':
            return expect(sim, 'removeChild', r.removeChild, (ref.real,), NotFoundErr) or True
        free = [m for m in free_items(w, d, t, 'frag' if sel[1] % 3 == 0 else 'node') if m is not ref]
        m = pick(free, sel[1]) or w.create(d, 'el', 'emph')
        fn = {'before': r.insertBefore, 'after': r.insertAfter, 'replace': r.replaceChild}[what]
        expect(sim, what, fn, (m.real, ref.real), NotFoundErr)
        return True
    if what == 'pop':
        at = n + sel[1] % 4 if sel[2] % 2 else -n - 1 - sel[1] % 4
        sim.fault('position outside the child list')
        expect(sim, 'pop(%d) of %d children' % (at, n), r.pop, (at,), IndexError)
        return True
    if what == 'set':
        at = n + sel[1] % 4 if sel[2] % 2 else -n - 1 - sel[1] % 4
        free = free_items(w, d, t, 'frag' if sel[1] % 3 == 0 else 'node')
        m = pick(free, sel[1]) or w.create(d, 'el', 'emph')
        sim.fault('position outside the child list')
        expect(sim, 'assignment to position %d of %d' % (at, n), r.__setitem__, (at, m.real), IndexError)
        return True
    if what == 'none':
        bad = [None, 3, object()][sel[1] % 3]
        sim.fault('argument that is not a node')
        fn, args = [(r.append, (bad,)), (r.insert, (sel[2] % (n + 1), bad))][sel[2] % 2]
        expect(sim, 'inserting %s' % type(bad).__name__, fn, args, Exception)
        return True
    # extend from a source that breaks off
    a = Arg(w, d, t, 'node', sel[1])

    class Broken(Exception):
        pass

    def source():
        yield a.value
        raise Broken
    sim.fault('source of children breaks off')
    expect(sim, 'extend', r.extend, (source(),), Broken)
    if len(r) > n:
        put(w, t, n, n, a.items(t, n))
    return True


def merge(kids):
    """Groups of models that normalize turns into one text each."""
    out = []
    for k in kids:
        if k.kind == 'text':
            if out and isinstance(out[-1], list):
                out[-1].append(k)
            else:
                out.append([k])
        else:
            out.append(k)
    return out


def normalize(w, sim, t, alias):
    fn = t.real.normalizeDocument if t.kind == 'doc' and alias else t.real.normalize
    before = t.text()
    for _ in range(2):
        sim.code('exception', fn)
        after = sim.code('exception', lambda: t.real.textContent)
        sim.check(after == before, 'normalize', lambda: 'normalize changed the text from %r to %r' % (before, after))
        adopt(w, sim, t, True)


def adopt(w, sim, t, strict):
    real = sim.code('exception', reals, t.real)
    want = merge(t.kids)
    if not strict and len(real) == len(t.kids) and all(a is b.real for a, b in zip(real, t.kids)):
        # left alone
        for k in t.kids:
            if k.kids is not None:
                adopt(w, sim, k, False)
        return
    sim.check(len(real) == len(want), 'normalize', lambda: 'normalize of %s gives %r, expected %r' % (
        describe(t), [x if isinstance(x, str) else x.nodeName for x in real], t.shape()))
    new = []
    for a, b in zip(real, want):
        if isinstance(b, list):
            text = ''.join(k.name for k in b)
            sim.check(a.nodeType == Node.TEXT_NODE and a == text, 'normalize', lambda: 'normalize of %s gives %r, expected %r' % (
                describe(t), a, text))
            same = [k for k in b if k.real is a]
            for k in b:
                if k not in same:
                    w.kill(k)
            if same:
                m = same[0]
                m.name = text
            else:
                m = w.add('text', text, a, t.doc)
                m.parent = b[0].parent
            new.append(m)
        else:
            sim.check(a is b.real, 'normalize', lambda: 'normalize of %s changes the order or replaces a child' % describe(t))
            new.append(b)
    t.kids[:] = new
    for k in new:
        if k.kids is not None:
            adopt(w, sim, k, strict)
    for key, v in list(t.attrs.items()):
        if key == 'self':
            continue
        for m in members(v):
            if m.kids is not None:
                adopt(w, sim, m, strict and isinstance(v, M))


def clone(w, sim, d, sel, how):
    src = pick([n for n in w.of(d) if n.kind != 'doc' and not n.isself], sel[0])
    if src is None:
        return
    if how == 'shallow':
        c = sim.code('exception', src.real.cloneNode, False) if sel[1] % 2 else sim.code('exception', src.real.cloneNode)
        live = {id(n.real) for n in w.nodes}
        for x in [c] + (list(c.allChildNodes) if src.kids is not None else []):
            sim.check(id(x) not in live, 'clone', lambda: 'the clone of %s lists nodes of the original' % describe(src))
        sim.check(c.nodeName == src.real.nodeName, 'clone', 'name of the clone')
        return
    c = sim.code('exception', src.real.cloneNode, [True, 1][sel[1] % 2])
    eq = sim.code('exception', lambda: [c == src.real, src.real == c, src.real.isEqualNode(c), c.isSameNode(src.real)])
    sim.check(eq == [True, True, True, False], 'clone', lambda: 'the deep clone of %s is not equal to it: %r' % (src.shape(), eq))
    live = {id(n.real) for n in w.nodes}
    w.clone_src = src
    m = adopt_clone(w, sim, c, src, live)
    if src.holder is not None:
        w.sim.probe('clone of a held node')
    if how == 'eqclone':
        # equality must notice a difference further down
        els = [x for x in m.preorder() if x.kind == 'el'] + ([m] if m.kind in ('el', 'frag') else [])
        x = pick(els, sel[2])
        if x is not None:
            y = w.create(d, 'el', 'quote')
            sim.code('exception', x.real.append, y.real)
            y.parent = x
            x.kids.append(y)
            same = sim.code('exception', src.real.isEqualNode, c)
            sim.check(not same, 'clone', lambda: 'the clone of %s changed, but is still equal or shared' % describe(src))


def adopt_clone(w, sim, real, src, live):
    sim.check(id(real) not in live, 'clone', lambda: 'the deep clone of %s contains %s of the original' % (
        describe(w.clone_src), describe(src)))
    sim.check(type(real) is type(src.real), 'clone', lambda: 'the clone of %s is a %s' % (describe(src), type(real)))
    if src.kids is None:
        sim.check(real == src.name, 'clone', lambda: 'text %r was cloned as %r' % (src.name, real))
        return w.add(src.kind, src.name, real, src.doc)
    sim.check(real.nodeName == src.real.nodeName, 'clone', 'name of the clone')
    m = w.add(src.kind, src.name, real, src.doc)
    for k, v in src.attrs.items():
        sim.check(k in real.attributes, 'clone', lambda: 'the clone lost attribute %r' % k)
        rv = real.attributes[k]
        m.attrs[k] = adopt_value(w, sim, rv, v, live)
        for x in members(m.attrs[k]):
            x.holder = m
    if src.kind == 'el':
        sim.check(len(real.attributes) == len(src.attrs), 'clone', lambda: 'attributes of the clone: %r' % sorted(real.attributes))
    if 'self' in m.attrs:
        m.kids = m.attrs['self'].kids
        m.attrs['self'].isself = True
        for k in m.kids:
            k.parent = m
        sim.check(len(real) == len(m.kids), 'clone', lambda: 'the clone has %d children instead of %d' % (len(real), len(m.kids)))
        return m
    kids = sim.code('exception', reals, real)
    sim.check(len(kids) == len(src.kids), 'clone', lambda: 'the clone of %s has %d children instead of %d' % (
        src.shape(), len(kids), len(src.kids)))
    for a, b in zip(kids, src.kids):
        x = adopt_clone(w, sim, a, b, live)
        x.parent = m
        m.kids.append(x)
    return m


def adopt_value(w, sim, real, v, live):
    if isinstance(v, M):
        return adopt_clone(w, sim, real, v, live)
    if isinstance(v, list):
        sim.check(isinstance(real, list) and len(real) == len(v), 'clone', 'list in an attribute')
        return [adopt_value(w, sim, a, b, live) for a, b in zip(real, v)]
    if isinstance(v, dict):
        sim.check(isinstance(real, dict) and sorted(real) == sorted(v), 'clone', 'dictionary in an attribute')
        return {k: adopt_value(w, sim, real[k], v[k], live) for k in v}
    sim.check(real == v, 'clone', lambda: 'attribute value %r was cloned as %r' % (v, real))
    return v


def execute(plan, sim):
    w = World(plan, sim)
    w.frags = w.shifts = 0
    edits = 0
    for op in plan['ops']:
        if op[0] >= len(w.docs):
            continue
        if len(w.nodes) > 70 and op[3] in ('clone', 'eqclone', 'new', 'tree', 'hold'):
            continue
        done = do(w, sim, op)
        verify(w)
        shapes = [n.shape() for n in w.nodes if n.parent is None and n.holder is None]
        sim.ev(op[3], op[4] if len(op) > 4 else '', bool(done))
        sim.state(shapes)
        if done and op[3] not in ('new', 'tree', 'fault', 'hold'):
            edits += 1
            sim.probe(op[3])
    verify(w, True)
    sim.ev('end', [n.shape() for n in w.nodes if n.parent is None and n.holder is None])
    sim.probe('fragments inserted', w.frags)
    if edits >= 8 and (w.frags or w.shifts) and sim.faults:
        sim.nontrivial = True
