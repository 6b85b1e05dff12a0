"""C15: the filename generator.

One run is one life of a generator: a template, a table of reserved names that other
parties also write to, and a history of requests.  Between requests the caller binds
and unbinds variables in the shared namespace; faults are unbound variables, names that
somebody else takes, and requests for which no fresh name exists.  A reference model
gives the set of names that may be returned to each request.
"""
import os
import re

from sim.kernel import shrink_lists, replace_at

from plasTeX.Filenames import Filenames

LEVEL = 'exercise'
BATCH = 200
TIMEOUT = 20
RUNS_QUICK = 80000
RUNS_THOROUGH = 1500000
RULE = ('a run is non-trivial if the generator issued at least two names and at least one fault fired '
        '(unbound variable, taken name, or exhausted template); distinct by trace digest')
STATE_MEASURE = 'distinct (template shape, sequence of request outcomes) digests'
REAL = ['plasTeX.Filenames.Filenames']
STUB = ['the renderer and the imager that call the generator: scripted callers that bind variables, '
        'reserve names and make requests']
ASSUMPTIONS = ['templates are well formed: no blanks inside an alternative, at most one bracket group per name, '
               'no stray $, variable names are separated from following letters by braces',
               'values are strings; the replacement string contains no forbidden character',
               'after a taken numbered candidate the generator may try either the next number of the same '
               'alternative or the next alternative first']
TIME_NOTE = 'no simulated clock: the generator reads none'

VARS = ['id', 'title', 'ref', 'name', 'jobname']
WORDS = ['a', 'Intro', 'x:y', 'the', 'b.c', 'd/e', 'naïve', '1', '10', 'f(g)', 'sect', 'Über', 'q?', 'n$n', '{z}', 'w-w']
BAD = [None, [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '-'], [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', ''], [' ', '_'],
       ['aeiou', '--'], [':/', 'é'], ['', '-']]


# ------------------------------------------------------------------ generation
def gen_name(rng, wild):
    """A name: list of parts, ['t', text] | ['v', var, fmt or None]."""
    parts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        if r < .35:
            parts.append(['t', rng.choice(['sect', 'index', 'a', 'b-', '-', 'toc.html', 'file', 'x_', '.d', 'é'])])
        elif r < (.7 if wild else .55):
            parts.append(['v', 'num', rng.choice([None, None, 1, 2, 4, 4, 3])])
        else:
            parts.append(['v', rng.choice(VARS), rng.choice([None, None, None, 1, 2, 3])])
    return parts


def gen(rng, tier, index):
    static = [gen_name(rng, False) if rng.random() < .4 else [['t', rng.choice(['index', 'toc', 'index.html', 'a', 's1'])]]
              for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]))]
    wild = None
    if rng.random() < .88 or not static:
        alts = [gen_name(rng, True) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        prefix = gen_name(rng, False) if rng.random() < .3 else []
        suffix = [['t', rng.choice(['.html', '-x', '.v1'])]] if rng.random() < .2 else []
        wild = [prefix, alts, suffix]
    t = {'static': static, 'wild': wild, 'style': rng.randrange(1 << 30),
         'extra': rng.random() < .1 and wild is not None}
    initial = {}
    for v in VARS:
        if rng.random() < (.5 if v == 'jobname' else .06):
            initial[v] = gen_value(rng)
    reserved = []
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
        reserved.append(gen_reserved(rng))
    if rng.random() < .12:
        # a long run of consecutive taken numbers
        a = rng.randint(1, 3)
        reserved.append(['run', a, rng.choice([3, 20, 60, 110, 160, 240])])
    n = rng.choice([1, 2, 3, 5, 8, 12, 20]) if rng.random() < .93 else rng.choice([110, 150, 230])
    ops = []
    pool = [gen_value(rng) for _ in range(rng.randint(1, 4))]
    for _ in range(n):
        r = rng.random()
        if r < .1:
            ops.append(['reserve', gen_reserved(rng)])
        b = {}
        for v in VARS:
            if rng.random() < .38:
                b[v] = rng.choice(pool) if rng.random() < .7 else gen_value(rng)
        ops.append(['req', b])
    return {'t': t, 'initial': initial, 'reserved': reserved, 'ops': ops, 'charsub': rng.choice(BAD),
            'ext': rng.choice(['', '.html', '.html', '.html', '.xml']), 'pass_empty': rng.random() < .3}


def gen_value(rng):
    r = rng.random()
    if r < .05:
        return ''
    if r < .08:
        return '  '
    return ' '.join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 3, 4])))


def gen_reserved(rng):
    r = rng.random()
    if r < .6:
        # name that the template would produce for these bindings and this number
        b = {v: gen_value(rng) for v in VARS}
        return ['tpl', rng.randrange(64), b, rng.choice([1, 1, 2, 2, 3, 4, 5, 101])]
    return ['lit', rng.choice(['index.html', 'index', 'sect1.html', 'sect0001.html', 'a', 'Intro.html'])]


def shrink(plan):
    yield from shrink_lists(plan, [('ops',), ('reserved',), ('t', 'static')])
    if plan['t']['wild']:
        yield from shrink_lists(plan, [('t', 'wild', 1)])
        if plan['t']['wild'][0]:
            yield replace_at(plan, ('t', 'wild', 0), [])
        if plan['t']['wild'][2]:
            yield replace_at(plan, ('t', 'wild', 2), [])
        for i, a in enumerate(plan['t']['wild'][1]):
            if len(a) > 1:
                for j in range(len(a)):
                    yield replace_at(plan, ('t', 'wild', 1, i), a[:j] + a[j + 1:])
            for j, p in enumerate(a):
                if p[0] == 'v' and p[2] is not None:
                    yield replace_at(plan, ('t', 'wild', 1, i, j), ['v', p[1], None])
    for i, op in enumerate(plan['ops']):
        if op[0] == 'req':
            for k in sorted(op[1]):
                yield replace_at(plan, ('ops', i), ['req', {x: y for x, y in op[1].items() if x != k}])
                if ' ' in op[1][k] or len(op[1][k]) > 1:
                    yield replace_at(plan, ('ops', i), ['req', dict(op[1], **{k: 'a'})])
    for k in sorted(plan['initial']):
        yield replace_at(plan, ('initial',), {x: y for x, y in plan['initial'].items() if x != k})
    if plan['t']['style']:
        yield replace_at(plan, ('t', 'style'), 0)
    if plan['t']['extra']:
        yield replace_at(plan, ('t', 'extra'), False)
    if plan['charsub']:
        yield replace_at(plan, ('charsub',), None)
    if plan['ext']:
        yield replace_at(plan, ('ext',), '')
    if plan['pass_empty']:
        yield replace_at(plan, ('pass_empty',), False)


# ------------------------------------------------------------------ template text
class Style:
    """Spelling choices, taken one after the other from an integer."""
    def __init__(self, n):
        self.n = n

    def pick(self, k):
        r = self.n % k
        self.n = self.n // k if self.n else 0
        return r


def spell(parts, st):
    out = ''
    for i, p in enumerate(parts):
        if p[0] == 't':
            out += p[1]
            continue
        fmt = ''
        if p[2] is not None:
            fmt = ('(%d)', '( %d )', '(%d )')[st.pick(3)] % p[2]
        nxt = parts[i + 1] if i + 1 < len(parts) else None
        # $name directly followed by a word character would be another variable
        brace = not fmt and (nxt is None or (nxt[0] == 't' and re.match(r'\w', nxt[1])))
        if brace or st.pick(2):
            out += ('${%s}', '${ %s }')[st.pick(2)] % p[1] + fmt
        else:
            out += '$%s' % p[1] + fmt
    return out


def template(t):
    st = Style(t['style'])
    names = [spell(p, st) for p in t['static']]
    if t['wild']:
        prefix, alts, suffix = t['wild']
        if len(alts) == 1 and not st.pick(3) and not t['extra']:
            # a single alternative needs no brackets when it is the last name
            names.append(spell(prefix + alts[0] + suffix, st))
        else:
            sep = (',', ', ', ' , ')[st.pick(3)]
            names.append(spell(prefix, st) + ('[', '[ ')[st.pick(2)] + sep.join(spell(a, st) for a in alts)
                         + (']', ' ]')[st.pick(2)] + spell(suffix, st))
    if t['extra']:
        names.append('never')
    return (' ', '  ')[st.pick(2)].join(names)


# ------------------------------------------------------------------ reference model
class Model:
    def __init__(self, t, initial, charsub, ext, taken):
        self.static = [list(p) for p in t['static']]
        if t['wild']:
            prefix, alts, suffix = t['wild']
            self.wild = [prefix + a + suffix for a in alts]
        else:
            self.wild = [self.static.pop()] if self.static else []
        self.initial = initial
        self.charsub = charsub
        self.ext = ext
        self.taken = taken
        self.pos = 0
        self.nums = {1}

    def clean(self, value, fmt):
        if fmt:
            value = ' '.join(value.split()[:fmt])
        elif fmt == 0:
            value = ''
        if self.charsub:
            value = ''.join(self.charsub[1] if c in self.charsub[0] else c for c in value)
        return value

    def name(self, parts, ns, num):
        """(name, numbered) or None if a variable is unbound."""
        out = ''
        numbered = False
        for p in parts:
            if p[0] == 't':
                out += p[1]
            elif p[1] == 'num':
                numbered = True
                out += '%0*d' % (p[2] or 1, num)
            elif p[1] not in ns:
                return None
            else:
                out += self.clean(ns[p[1]], p[2])
        if not os.path.splitext(out)[1]:
            out += self.ext
        return out, numbered

    def request(self, bindings, sim=None):
        """Acceptable outcomes: {name or None (error): set of next numbers}."""
        ns = dict(self.initial)
        ns.update(bindings)
        results = {}
        while self.pos < len(self.static):
            item = self.static[self.pos]
            self.pos += 1
            out = set()
            hit = None
            for num in self.nums:
                r = self.name(item, ns, num)
                if r is None:
                    hit = 'unbound'
                    break
                name, numbered = r
                if numbered:
                    num += 1
                out.add(num)
                hit = name
            if hit == 'unbound':
                if sim:
                    sim.fault('unbound variable in static name')
                continue
            self.nums = out
            if hit in self.taken:
                if sim:
                    sim.fault('static name already taken')
                continue
            return {hit: out}
        for start in sorted(self.nums):
            seen = set()
            todo = [(0, start, False)]
            while todo:
                i, num, retry = todo.pop()
                if (i, num, retry) in seen:
                    continue
                seen.add((i, num, retry))
                if i == len(self.wild):
                    if retry:
                        todo.append((0, num, False))
                    else:
                        results.setdefault(None, set()).add(num)
                    continue
                r = self.name(self.wild[i], ns, num)
                if r is None:
                    if sim:
                        sim.fault('unbound variable')
                    todo.append((i + 1, num, retry))
                    continue
                name, numbered = r
                if name not in self.taken:
                    results.setdefault(name, set()).add(num + (1 if numbered else 0))
                    continue
                if sim:
                    sim.fault('candidate already taken')
                if numbered:
                    todo.append((i, num + 1, True))
                    todo.append((i + 1, num + 1, True))
                else:
                    todo.append((i + 1, num, retry))
        return results


# ------------------------------------------------------------------ execution
def reserved_names(spec, t, model):
    if spec[0] == 'lit':
        return [spec[1]]
    items = [p for p in t['static']]
    if t['wild']:
        items += model.wild
    if not items:
        return []
    if spec[0] == 'run':
        numbered = [p for p in items if any(x[0] == 'v' and x[1] == 'num' for x in p)
                    and not any(x[0] == 'v' and x[1] not in ('num', 'jobname') for x in p)]
        out = []
        for p in numbered[:1]:
            for n in range(spec[1], spec[1] + spec[2]):
                r = model.name(p, dict({'jobname': 'job'}, **model.initial), n)
                out.append(r[0])
        return out
    r = model.name(items[spec[1] % len(items)], spec[2], spec[3])
    return [r[0]] if r else []


def execute(plan, sim):
    t = plan['t']
    if not t['static'] and not t['wild']:
        return
    taken = {}
    model = Model(t, dict(plan['initial']), plan['charsub'], plan['ext'], set())
    for spec in plan['reserved']:
        for n in reserved_names(spec, t, model):
            taken[n] = None
    shared = bool(taken)
    model.taken = set(taken)
    spec = template(t)
    initial = dict(plan['initial'])
    args = {}
    if initial or plan['pass_empty']:
        args['variables'] = dict(initial)
    if taken or plan['pass_empty']:
        args['invalid'] = taken
    if plan['charsub'] is not None:
        args['charsub'] = tuple(plan['charsub'])
    g = sim.code('exception', Filenames, spec, extension=plan['ext'], **args)
    issued = []
    outcomes = []
    for op in plan['ops']:
        if op[0] == 'reserve':
            names = reserved_names(op[1], t, model)
            if shared:
                for n in names:
                    taken[n] = None
                    model.taken.add(n)
                sim.fault('name reserved by somebody else between requests')
            continue
        before = set(model.nums)
        pos = model.pos
        allowed = model.request(op[1], sim)
        g.variables.update(op[1])
        try:
            name = sim.code('exception', g, allow=(ValueError,))
        except ValueError as e:
            name = None
            sim.fault('request that cannot be satisfied')
        else:
            sim.check(isinstance(name, str), 'no-name', lambda: 'template %r: request %r returned %r instead of a '
                      'name or an error' % (spec, op[1], name))
        sim.ev('req', sorted(op[1]), name)
        outcomes.append('error' if name is None else 'static' if model.pos > pos and before == model.nums else 'name')
        if name is not None:
            sim.check(name not in model.taken, 'duplicate', lambda: 'template %r: %r was issued twice or is reserved' % (spec, name))
        sim.check(name in allowed, 'name', lambda: 'template %r with %r returned %s, expected %s; issued before: %r' % (
            spec, dict(initial, **op[1]), 'an error' if name is None else repr(name),
            ' or '.join('an error' if x is None else repr(x) for x in sorted(allowed, key=str)), issued[-12:]))
        model.nums = allowed[name]
        if name is None:
            g.variables.clear()
            g.variables.update(initial)
        else:
            model.taken.add(name)
            issued.append(name)
    sim.state([[['v' if x[0] == 'v' and x[1] != 'num' else x[0:2] for x in p] for p in t['static']],
               [len(p) for p in model.wild], outcomes])
    if len(issued) >= 2 and sim.faults:
        sim.nontrivial = True
    sim.probe('issued', len(issued))
