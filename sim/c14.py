r"""C14: every internal link of the rendered output lands on an existing target.

A run is a history of builds of one or two generated documents in one directory, under changing renderers,
split levels, filename templates, depths of the table of contents and base addresses; with leftovers of earlier
builds, disk errors and crashes.  After every build that completes, every link and identifier of the files
it wrote is followed and compared with the model of the document.
"""
import os
import re
import urllib.parse

from sim import c13, docs
from sim.docs import Doc
from sim.kernel import Violation, replace_at, shrink_lists

LEVEL = 'exercise'
BATCH = 4
TIMEOUT = 60
RUNS_QUICK = 700
RUNS_THOROUGH = 12000
RULE = ('a run is non-trivial if at least two builds completed, one of them with links between files, and at least one fault was injected '
        'or leftover files of another build were present; distinct by trace digest')
STATE_MEASURE = 'distinct (renderer, split level, template, depth of contents, base address, units per level, kinds of links) digests at a completed build'
REAL = c13.REAL
STUB = c13.STUB
ASSUMPTIONS = ['a build that met an injected error may fail; the next one must be complete',
               'a fragment may be written percent-encoded', 'the default forbidden characters keep characters special in addresses out of filenames']
TIME_NOTE = 'no simulated clock: nothing here reads one'
RENDERERS = [('HTML5', 'default'), ('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default'), ('XHTML', 'default')]
TEMPLATES = [('index [$id, sect$num(4)]', True), ('index [$id, sect$num(4)]', True), ('index [$title(2), s$num]', True), ('[$title, x$num(3)]', True),
             ('$jobname [$id, $title(3), p$num(2)]', True), ('index toc about [$ref, $name$num]', True), ('index part-$num(3)', True), ('sect$num(4)', True),
             ('${jobname}_[$id, $title, sect$num(4)]', True), ('a b.htm c d.x.html $num(3)', True), ('index [$name-$title(1), $name-$num]', True),
             ('index [$id, $title]', False), ('$id $title $ref [$name]', False)]
BASES = ['', '', '', 'http://x.org/b', 'http://x.org/b/', '/docs', '../up']
SINGLE = ['index', 'all', '$jobname', 'out-$jobname', 'my.page']


def gen(rng, tier, index):
    n = rng.choice([1, 1, 1, 2])
    plan = {'docs': [docs.gen_doc(rng, tier, {}) for _ in range(n)], 'events': []}
    prev = None
    for _ in range(rng.choice([2, 3, 3, 4]) if tier == 'quick' else rng.choice([3, 5, 7])):
        ev = {'doc': rng.randrange(n), 'r': rng.randrange(len(RENDERERS)), 'split': rng.choice([-10, -2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]),
              'tmpl': rng.randrange(len(TEMPLATES)), 'single': rng.choice([-1] * 9 + list(range(len(SINGLE)))),
              'toc': rng.choice([0, 1, 1, 1, 2, 3, 6]), 'non': rng.random() < .4, 'base': rng.randrange(len(BASES)),
              'local': rng.choice([-20, -20, -20, 0, 1, 10]), 'crumbs': rng.choice([10, 10, -20, 1]), 'show': rng.random() < .8,
              'dir': rng.choice(['out', 'out', '$jobname', 'a/b']), 'faults': [], 'list': rng.randrange(100), 'esc': rng.random() < .2}
        if prev is not None and rng.random() < .5:
            ev = dict(prev, list=rng.randrange(100), faults=[], split=ev['split'] if rng.random() < .5 else prev['split'])
            ev.pop('leave', None)
        if rng.random() < .3:
            ev['faults'].append({'op': rng.choice(['write', 'open_w', 'close_w', 'read']), 'suffix': '.html', 'nth': rng.choice([0, 1, 2, 3, 5, 8]),
                                 'kind': rng.choice(['crash', 'crash', 'enospc', 'eio']), 'frac': rng.choice([0, .3, .9])})
            if rng.random() < .3:
                ev['faults'][-1]['suffix'] = rng.choice(['.paux', '.tex', '.js', '.css'])
        if rng.random() < .2:
            ev['leave'] = rng.choice(['paux', 'html', 'dir', 'foreign'])
        plan['events'].append(ev)
        prev = ev
    return plan


def options(ev):
    r, theme = RENDERERS[ev['r']]
    o = {'general.renderer': r, 'general.theme': theme, 'files.split-level': ev['split'],
         'files.filename': SINGLE[ev['single']] if ev['single'] >= 0 else TEMPLATES[ev['tmpl']][0], 'files.directory': ev['dir'],
         'files.escape-high-chars': ev['esc'], 'general.copy-theme-extras': False, 'document.base-url': BASES[ev['base']],
         'document.toc-depth': ev['toc'], 'document.toc-non-files': ev['non']}
    if r == 'HTML5':
        o.update({'html5.localtoc-level': ev['local'], 'html5.breadcrumbs-level': ev['crumbs'], 'html5.display-toc': ev['show']})
    return o


def execute(plan, sim):
    names, ds = c13.sources(plan)
    done = linked = 0
    leftovers = False
    pending = None
    for n, ev in enumerate(plan['events']):
        k = ev['doc'] % len(plan['docs'])
        opts = options(ev)
        outdir = ev['dir'].replace('$jobname', names[k])
        c13.leave(sim, ev, outdir, names[k])
        if os.path.isdir(outdir) and any(f.endswith('.html') for f in os.listdir(outdir)):
            leftovers = True
            sim.fault('files of an earlier build in the output directory')
        s = docs.build(names[k] + '.tex', opts, sim.scratch, ev['faults'], ev['list'])
        for f in s.fired:
            sim.fault('disk ' + f)
        if s.status == 'exc' and 'Filename could not be created' in s.error and ev['single'] < 0 and not TEMPLATES[ev['tmpl']][1]:
            sim.probe('build refused: no name left')
            sim.ev('refused', n)
            continue
        if s.status != 'ok':
            sim.check(s.status in ('exc', 'crash') and (s.fired or s.origin == 'harness'), 'exception', lambda: 'build %d of %s failed: %s %s\n%s' % (
                n, names[k], s.status, s.error, c13.describe(plan, ev, names[k])))
            sim.probe('build failed: injected error')
            sim.ev('failed', n, s.status)
            continue
        rel = []
        for f in s.value:
            if not f.endswith(c13.NOTPAGES) and f[len(outdir) + 1:] not in rel:
                rel.append(f[len(outdir) + 1:])
        d = ds[k, RENDERERS[ev['r']][0] == 'HTML5']
        j = Judge(sim, ev, d, outdir, rel, opts)
        try:
            j.run()
        except Violation as v:
            v.msg = 'build %d of %s (%s): %s\n%s' % (n, names[k], opts, v.msg, c13.describe(plan, ev, names[k]))
            raise
        if j.pending and not pending:
            pending = j.pending
            pending.msg = 'build %d of %s (%s): %s' % (n, names[k], opts, pending.msg)
        done += 1
        linked += j.between > 0
        sim.probe('links followed', j.followed)
        sim.probe('links between files', j.between)
        sim.state([ev['r'], ev['split'], opts['files.filename'], ev['toc'], ev['non'], ev['base'], [u['level'] for u in d.units][:12], sorted(j.kinds)])
        sim.ev('build', n, sorted(rel), j.followed, j.between)
    if done >= 2 and linked and (sim.faults or leftovers):
        sim.nontrivial = True
    if pending:
        raise pending


# identifiers of the layouts themselves: their elements, and whether they are first or last of a page
FURNITURE = {'footnotes': (('footer', 'div'), -1), 'doc_title': (('h1',), 0), 'toc-toggle': (('svg',), 0), 'IDXGROUP.X': (('h2',), -1)}


def furniture(es, i):
    if len(es) == 2 and i in FURNITURE and es[FURNITURE[i][1]].tag in FURNITURE[i][0]:
        return es[FURNITURE[i][1]]


class Judge:
    def __init__(self, sim, ev, d, outdir, rel, opts):
        self.sim, self.ev, self.d, self.rel, self.opts = sim, ev, d, rel, opts
        self.pages = docs.read_pages(outdir, rel, 'utf-8')
        self.base = opts['document.base-url'].rstrip('/')
        self.base += '/' if self.base else ''
        self.followed = self.between = 0
        self.pending = None
        self.kinds = set()
        self.split = -10 if ev['single'] >= 0 else ev['split']
        self.sure = ev['single'] >= 0 or TEMPLATES[ev['tmpl']][1]

    def target(self, f, e):
        """(file, element or None) a link leads to, None for addresses elsewhere"""
        h = e.href
        if h.startswith(('http://ext.org', 'https://cdn')) or e.rel in ('stylesheet', 'icon'):
            return None
        if h in ('', '#') and e.tag == 'a' and e.start == e.end and docs.MARK.match(self.pages[f].text, e.end):
            return None                 # \path, which is no known command, and has a template for a link
        if h in ('', '#'):
            raise Violation('link', 'in %s: %r (%r) has no address' % (f, e, self.near(f, e)))
        if not h.partition('#')[0]:     # this file
            g, frag = f, h[1:]
        else:
            if self.base:
                if not h.startswith(self.base):
                    raise Violation('link', 'in %s: %r has no base address %r' % (f, e, self.base))
                h = h[len(self.base):]
            g, _, frag = h.partition('#')
        if g not in self.pages and urllib.parse.unquote(g) in self.pages:
            g = urllib.parse.unquote(g)
        if g not in self.pages:
            raise Violation('link', 'in %s: %r (%r) leads to no file of %r' % (f, e, self.near(f, e), self.rel))
        if '#' not in e.href:
            return g, None
        ids = self.pages[g].ids
        if frag not in ids and urllib.parse.unquote(frag) in ids:
            frag = urllib.parse.unquote(frag)
        if frag not in ids:
            raise Violation('fragment', 'in %s: %r (%r) leads to no element of %s; identifiers: %s' % (f, e, self.near(f, e), g, sorted(ids)[:40]))
        x = furniture(ids[frag], frag)
        if x and e.cls == 'footnote':
            return g, x
        return g, next(e for e in ids[frag] if e is not x)

    def near(self, f, e):
        t = self.pages[f].text
        return t[max(0, e.start - 30):e.end + 10]

    def run(self):
        sim, d, pages = self.sim, self.d, self.pages
        for f, p in pages.items():
            for i, es in p.ids.items():
                if len(es) > 1:
                    v = Violation('identifiers', 'in %s: %r is used for %r' % (f, i, [(e, p.text[e.start:e.start + 40]) for e in es]))
                    if furniture(es, i) and i in d.labels:
                        # a label like a fixed identifier of the layout, which is judged at the end of the run
                        v.sig = 'label ' + i
                        self.pending = v
                    else:
                        raise v
        goes = {f: set() for f in pages}
        to = {}
        for f, p in pages.items():
            for e in p.links:
                t = self.target(f, e)
                if t is not None:
                    self.followed += 1
                    self.between += t[0] != f
                    goes[f].add(t[0])
                    to[e] = t
        where = {}
        for f, p in pages.items():
            for m in docs.MARK.finditer(p.text):
                where.setdefault(m.group(), (f, m.start()))
        files = {}
        if self.sure:
            for t, u, kind in d.seq:
                if t in where:
                    files.setdefault(d.owner(u, self.split), where[t][0])
        start = self.rel_start(files)
        if self.ev['toc'] >= 1 and start and RENDERERS[self.ev['r']][1] != 'minimal':     # which has no contents
            seen, todo = {start}, [start]
            while todo:
                for g in goes[todo.pop()]:
                    if g not in seen:
                        seen.add(g)
                        todo.append(g)
            if len(seen) < len(pages):
                raise Violation('reachable', '%r cannot be reached from %s' % (sorted(set(pages) - seen), start))
        self.titles(to, files)
        self.references(to, where, files)
        self.indexed(to, where, files)

    def rel_start(self, files):
        return files.get(0)

    # --- entries of contents and navigation
    def titles(self, to, files):
        d = self.d
        units = {u['mark']: i for i, u in enumerate(d.units) if u['mark']}
        for f, p in self.pages.items():
            for e in p.links:
                if e.tag != 'a' or e not in to:
                    continue
                words = set(re.findall(r'T\d+T', p.inside(e)))
                if len(words) != 1 or not words <= set(units):
                    continue
                u = units[words.pop()]
                self.kinds.add('title')
                self.lands(f, e, to[e], u, files, 'the entry')

    def lands(self, f, e, t, u, files, what):
        """Does the link lead to unit u?"""
        d = self.d
        g, el = t
        own = files.get(d.owner(u, self.split)) if self.sure else None
        desc = lambda: 'in %s: %s %r (%r) leads to %s %r' % (f, what, e, self.near(f, e), g, el)
        if own and g != own:
            raise Violation('wrong target', '%s; %s %r is in %s' % (desc(), d.units[u]['kind'], d.units[u]['title'], own))
        if el is None:
            if self.sure and d.owner(u, self.split) != u:
                raise Violation('wrong target', '%s; %s %r is only a part of it' % (desc(), d.units[u]['kind'], d.units[u]['title']))
        else:
            self.holds(g, el, d.units[u]['mark'], desc)

    def holds(self, g, el, mark, desc):
        if mark is None:
            return
        p = self.pages[g]
        text = p.inside(el)
        if mark in text:
            return
        # an anchor in front of the text
        rest = p.text[el.end:el.end + 400]
        if mark in rest and not re.search(r'[QFMT]\d+[QFMT]', text + rest[:rest.index(mark)]):
            return
        raise Violation('wrong target', '%s, which is %r... and not %s' % (desc(), (text + '|' + rest)[:60], mark))

    # --- references
    def references(self, to, where, files):
        d = self.d
        spots = {}
        for f, p in self.pages.items():
            for m in re.finditer(r'[RNC]\d+[RNC]', p.text):
                spots.setdefault(m.group(), []).append((f, m.end()))
        for mark, how, what, unit in d.reflist:
            if mark not in spots:
                raise Violation('reference', '%s is in no file' % mark)
            for f, at in spots[mark]:
                self.reference(to, where, files, mark, how, what, unit, f, at)

    def citation(self, f, p, d, to, at, what, desc):
        """All links of a citation lead to its entries, in order"""
        mode = d.plan.get('bibmode', 0)
        keys = what.split(',')
        n = [int(k[1:]) for k in keys]
        if len(n) > 1:
            self.kinds.add('cites%d' % mode)
            if mode == 4:
                # runs of three or more show their ends only
                n = sorted(n)
                n = [k for k in n if not (k - 1 in n and k + 1 in n)]
        good = lambda k: ['%d' % (2000 + k), 'A%d' % k, 'A%d, B' % k] if mode == 3 else [d.bib['c%d' % k][1]]
        i = -1
        for e in p.links:
            if e.start < at or e.tag != 'a':
                continue
            # words of natbib between
            gap = p.text[at:e.start]
            if not re.fullmatch(r'[\s\xa0]*(A\d+|[()\[\],;-]|see|, B|\u2013|[\s\xa0])*' if mode >= 2 else r'[\s\xa0\[(,]*', gap):
                break
            shown = p.inside(e).strip()
            at = e.end
            if i + 1 < len(n) and shown in good(n[i + 1]):
                i += 1
            elif i == len(n) - 1 and (mode != 3 or shown not in good(n[i])):
                break
            elif i < 0 or shown not in good(n[i]):
                raise Violation('citation', '%s; %r is not the number of %s' % (desc(), shown, n[min(i + 1, len(n) - 1)]))
            g, el = to[e]
            if el is None:
                self.miss('citation', desc)
            self.holds(g, el, d.bib['c%d' % n[i]][0], desc)
        if i < len(n) - 1:
            raise Violation('citation', '%s has no link to entry %s' % (desc(), n[i + 1]))

    def reference(self, to, where, files, mark, how, what, unit, f, at):
        d, p = self.d, self.pages[f]
        e = None
        for x in p.links:
            if x.start >= at and x.tag == 'a':
                gap = p.text[at:x.start]
                if not gap.strip(' \n\t\xa0[(' if how in ('foot', 'cite') else '(') or how == 'foot' and len(gap) < 60 and not re.search(r'[QFMTRNC]\d+[QFMTRNC]', gap):
                    e = x
                break
        shown = p.inside(e).strip() if e is not None else None
        desc = lambda: 'in %s: %s%s %r, shown as %r' % (f, mark, how, what, p.text[at:at + 20])
        if how == 'foot':
            self.kinds.add('foot')
            if e is None:
                raise Violation('footnote', '%s is not a link' % desc())
            g, el = to[e]
            if g != f:
                raise Violation('footnote', '%s leads to %s' % (desc(), g))
            self.holds(g, el, what, desc) if el is not None else self.miss('footnote', desc)
            notes = [x for x in self.pages[g].els if x.tag == 'li' and x.up and x.up.up and x.up.up.id == 'footnotes' and x.up.up.tag in ('div', 'footer')]
            n = [i + 1 for i, x in enumerate(notes) if what in p.inside(x)]
            if len(n) != 1 or shown != str(n[0]):
                raise Violation('footnote', '%s; its text %s is number %s of the list' % (desc(), what, n))
            return
        if how == 'cite':
            self.kinds.add('cite')
            self.citation(f, p, d, to, at, what, desc)
            return
        if what not in d.labels:
            self.kinds.add('dangling')
            if e is not None:
                raise Violation('dangling', '%s, leads to %r' % (desc(), e))
            return
        kind, m, number, u = d.labels[what]
        if kind == 'section' and d.units[u].get('star'):
            return
        if e is None and (number is None or 'nameref' in how):
            # has no number to be shown
            return
        self.kinds.add(kind)
        if e is None:
            raise Violation('reference', '%s is not a link to the %s %s' % (desc(), kind, m))
        if kind == 'section':
            self.lands(f, e, to[e], u, files, 'reference %s %r' % (what, how))
        else:
            g, el = to[e]
            if el is None:
                self.miss('reference', desc)
            own = where.get(m)
            if own and own[0] != g:
                raise Violation('wrong target', '%s leads to %s, the %s %s is in %s' % (desc(), g, kind, m, own[0]))
            if own:
                # all rows of HTML5 are one piece of text
                self.holds(g, el.up if kind == 'row' and el.tag == 'a' else el, m, desc)
        if number is not None and how in ('\\ref{%s}', '\\eqref{%s}'):
            want = '(%s)' % number if 'eqref' in how else number
            if shown.strip('()') != number:
                raise Violation('number', '%s; the number of the %s is %s' % (desc(), kind, number))
        elif number is not None and how in ('\\cref{%s}', '\\Cref{%s}', '\\autoref{%s}'):
            # behind the name of the kind
            if (shown.split() or [''])[-1].strip('()') != number:
                raise Violation('number', '%s; the number of the %s is %s' % (desc(), kind, number))

    def miss(self, cls, desc):
        raise Violation(cls, '%s has no fragment' % desc())

    # --- index
    def indexed(self, to, where, files):
        d = self.d
        if not d.plan['index']:
            return
        places = {}
        for term, u, prev, n in d.index:
            places.setdefault(term, []).append((u, n))
        for term, ps in places.items():
            found = False
            for f, p in self.pages.items():
                for m in re.finditer(term, p.text):
                    es, at = [], m.end()
                    for e in p.links:
                        if e.start >= at and e.tag == 'a' and p.inside(e).strip().isdigit() and not re.sub(r'[ \n\t,\xa0]', '', p.text[at:e.start]):
                            es.append(e)
                            at = e.end
                        elif e.start >= at:
                            break
                    if not es:
                        continue
                    found = True
                    self.kinds.add('index%d' % min(len(es), 2))
                    if len(es) != len(ps):
                        raise Violation('index', 'in %s: %d links for the %d places of %s: %r' % (f, len(es), len(ps), term, es))
                    for e, (u, n) in zip(es, ps):
                        self.entry(to, where, files, f, term, e, u, n)
            if not found:
                raise Violation('index', 'the index has no link for %s' % term)

    def entry(self, to, where, files, f, term, e, u, n):
        d = self.d
        g, el = to[e]
        own = files.get(d.owner(u, self.split)) if self.sure else None
        desc = 'in %s: the index entry %s %r leads to %s %r' % (f, term, e, g, el)
        if own and own != g:
            raise Violation('wrong target', '%s; it belongs to %s' % (desc, own))
        if el is None:
            raise Violation('index', desc)
        # between the pieces of text around it
        q = self.pages[g]
        before = [where[t] for t, x, kind in d.seq[:n] if kind == 'body' and t in where and where[t][0] == g]
        after = [where[t] for t, x, kind in d.seq[n:] if kind == 'body' and t in where and where[t][0] == g]
        if before and before[-1][1] > el.start or after and after[0][1] < el.start:
            raise Violation('wrong target', '%s, which is at %r' % (desc, q.text[el.start - 30:el.start + 30]))


def shrink(plan):
    yield from shrink_lists(plan, [('events',)])
    if len(plan['docs']) > 1:
        yield replace_at(plan, ('docs',), plan['docs'][:1])
        yield replace_at(plan, ('docs',), plan['docs'][1:])
    for i, ev in enumerate(plan['events']):
        yield from shrink_lists(plan, [('events', i, 'faults')])
        for k, v in (('split', 2), ('split', 0), ('tmpl', 0), ('single', -1), ('dir', 'out'), ('r', 0), ('r', 3), ('toc', 3), ('non', False), ('base', 0),
                     ('local', -20), ('crumbs', 10), ('show', True), ('esc', False)):
            if ev[k] != v:
                yield replace_at(plan, ('events', i, k), v)
        if 'leave' in ev:
            yield replace_at(plan, ('events', i), {k: v for k, v in ev.items() if k != 'leave'})
    yield from c13.shrink_docs(plan)
