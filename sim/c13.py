r"""C13: rendering splits the document into files without losing or repeating content.

A run is a history of builds of one or two generated documents in one directory: real renderers under
changing split levels, filename templates and forbidden characters; leftovers of earlier builds, disk
errors and crashes while output files are written, damaged label data, directory listings in any order.
After every build that completes, the files it wrote are compared with a model of where each
marked piece of text belongs.
"""
import os
import re
import subprocess
import sys

from sim import docs
from sim.docs import Doc
from sim.kernel import REPO, ROOT, Violation, replace_at, shrink_lists

LEVEL = 'exercise'
BATCH = 4
TIMEOUT = 60
# files that are written besides the pages (a name that has a dot gets no .html)
NOTPAGES = ('.paux', '.py', '.js', '.css', '.svg', '.png', '.gif', '.ico', '.tex', '.map', '.pickle')
RUNS_QUICK = 440
RUNS_THOROUGH = 12000
RULE = ('a run is non-trivial if at least two builds completed, one of them into several files, and at least one fault was injected '
        'or leftover files of another build were present; distinct by trace digest')
STATE_MEASURE = 'distinct (renderer, split level, template, units per level, leftovers) digests at a completed build'
REAL = ['plasTeX.Compile.run', 'TeX parser', 'Renderer.render, Renderable.__str__/filename, cacheFilenames, cleanup', 'plasTeX.Filenames',
        'HTML5 (default, minimal) and XHTML (default, minimal, plain, python) templates', 'the kernel file system below the interposed calls']
STUB = ['open/read/write/close/listdir on the run directory (interposed, decided by the plan)', 'image generators (disabled)',
        'process crash (os._exit at the chosen operation)', 'compiled Jinja templates are kept between builds']
ASSUMPTIONS = ['a build that met an injected error may fail; the next one must be complete',
               'math is kept as text by HTML5 only', 'the fixed characters of a template are the choice of the user: only what is '
               'substituted for variables is free of forbidden characters']
TIME_NOTE = 'no simulated clock: nothing here reads one'

# template, does it always find a name, first names
TEMPLATES = [('index [$id, sect$num(4)]', True), ('index [$id, sect$num(4)]', True), ('index [$title(2), s$num]', True), ('[$title, x$num(3)]', True),
             ('$jobname [$id, $title(3), p$num(2)]', True), ('index toc about [$ref, $name$num]', True), ('index $name-[$ref, sect$num(4)]', True),
             ('index part-$num(3)', True), ('sect$num(4)', True), ('${jobname}_[$id, $title, sect$num(4)]', True), ('a b c d $num(3)', True),
             ('index [$name-$title(1), $name-$num]', True), ('[$num(5)]', True), ('${jobname}-$num', True), ('index $title [$id, q$num]', True),
             ('index [$id, $title]', False), ('$id $title $ref [$name]', False), ('index $title', False), ('[$title(1), $ref]', False)]
SINGLE = ['index', 'all', '$jobname', 'out-$jobname', 'my.page']
BADS = [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', ':/ ', '', ' ae', 'TQ/.:', '/', ': #$%^&*!~`"\'=?{}[]()|<>;\\,.\xe9\xc9&/+']


def gen(rng, tier, index):
    n = rng.choice([1, 1, 1, 2])
    plan = {'docs': [docs.gen_doc(rng, tier, {}) for _ in range(n)], 'events': []}
    prev = None
    for _ in range(rng.choice([2, 3, 3, 4]) if tier == 'quick' else rng.choice([3, 5, 7])):
        c = rng.random()
        ev = {'doc': rng.randrange(n), 'r': rng.randrange(len(docs.RENDERERS)), 'split': rng.choice([-10, -2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]),
              'tmpl': rng.randrange(len(TEMPLATES)), 'single': rng.choice([-1] * 9 + list(range(len(SINGLE)))), 'bad': rng.randrange(len(BADS)),
              'sub': rng.choice(['-', '-', '_', '']), 'dir': rng.choice(['out', 'out', '$jobname', 'a/b']), 'faults': [], 'list': rng.randrange(100),
              'extras': rng.random() < .1, 'enc': rng.choice(['utf-8', 'utf-8', 'ascii-x'])}
        if prev is not None and rng.random() < .5:
            # the same build again
            ev = dict(prev, list=rng.randrange(100), faults=[])
        if rng.random() < .3:
            ev['faults'].append({'op': rng.choice(['write', 'open_w', 'close_w', 'read']), 'suffix': '.html', 'nth': rng.choice([0, 1, 2, 3, 5, 8]),
                                 'kind': rng.choice(['crash', 'crash', 'enospc', 'eio']), 'frac': rng.choice([0, .3, .9])})
            if rng.random() < .3:
                ev['faults'][-1]['suffix'] = rng.choice(['.paux', '.tex', '.js', '.css'])
        if rng.random() < .2:
            ev['leave'] = rng.choice(['paux', 'html', 'dir', 'foreign'])
        plan['events'].append(ev)
        prev = ev
    plan['hash'] = rng.randrange(1 << 30) if rng.random() < .06 else 0
    return plan


def options(ev):
    r, theme = docs.RENDERERS[ev['r']]
    t = SINGLE[ev['single']] if ev['single'] >= 0 else TEMPLATES[ev['tmpl']][0]
    enc = {'ascii-x': 'utf-8'}.get(ev['enc'], ev['enc'])
    return {'general.renderer': r, 'general.theme': theme, 'files.split-level': ev['split'], 'files.filename': t,
            'files.bad-chars': BADS[ev['bad']].replace('%', '%%'),   # options are interpolated
             'files.bad-chars-sub': ev['sub'], 'files.directory': ev['dir'],
            'files.output-encoding': enc, 'files.escape-high-chars': ev['enc'] == 'ascii-x', 'general.copy-theme-extras': ev['extras']}


def sources(plan):
    """Writes the documents; their names and models (with and without math as text)"""
    names = ['job', 'other'][:len(plan['docs'])]
    ds = {}
    for math in (True, False):
        for k, d in enumerate(plan['docs']):
            ds[k, math] = Doc(d, math)
            src, files = ds[k, math].write()
            if math:
                with open(names[k] + '.tex', 'w', encoding='utf-8') as fh:
                    fh.write(src)
                for ext, c in (('.bbl', ds[k, math].bbl), ('.aux', ds[k, math].aux)):
                    if c is not None:
                        with open(names[k] + ext, 'w', encoding='utf-8') as fh:
                            fh.write(c)
                os.makedirs('x', exist_ok=True)
                for f, c in files.items():
                    # both documents use the same names
                    with open(f if k == 0 else 'o' + f, 'w', encoding='utf-8') as fh:
                        fh.write(c)
                if k:
                    with open(names[k] + '.tex', 'w', encoding='utf-8') as fh:
                        fh.write(re.sub(r'\\input\{inc', r'\\input{oinc', src))
    return names, ds


def execute(plan, sim):
    names, ds = sources(plan)
    seen = {}
    done = several = 0
    leftovers = False
    for n, ev in enumerate(plan['events']):
        k = ev['doc'] % len(plan['docs'])
        opts = options(ev)
        outdir = ev['dir'].replace('$jobname', names[k])
        leave(sim, ev, outdir, names[k])
        before = sorted(os.listdir(outdir)) if os.path.isdir(outdir) else []
        if any(f.endswith('.html') for f in before):
            leftovers = True
            sim.fault('files of an earlier build in the output directory')
        s = docs.build(names[k] + '.tex', opts, sim.scratch, ev['faults'], ev['list'])
        for f in s.fired:
            sim.fault('disk ' + f)
        key = (k, ev['r'] if ev['single'] >= 0 else ev['r'], opts['files.filename'], ev['split'], ev['bad'], ev['sub'], ev['enc'])
        if s.status == 'exc' and 'Filename could not be created' in s.error and ev['single'] < 0 and not TEMPLATES[ev['tmpl']][1]:
            # the template offers no name of last resort
            sim.probe('build refused: no name left')
            sim.ev('refused', n)
            continue
        if s.status != 'ok':
            sim.check(s.status in ('exc', 'crash') and (s.fired or s.origin == 'harness'), 'exception', lambda: 'build %d of %s failed: %s %s\n%s' % (
                n, names[k], s.status, s.error, describe(plan, ev, names[k])))
            sim.probe('build failed: injected error')
            sim.ev('failed', n, s.status)
            continue
        wrote = []
        for f in s.value:
            if not f.endswith(NOTPAGES) and f not in wrote:
                wrote.append(f)
        rel = []
        for f in wrote:
            sim.check(f.startswith(outdir + '/'), 'place', lambda: 'build %d wrote %r outside of %r' % (n, f, outdir))
            rel.append(f[len(outdir) + 1:])
        sim.check(rel, 'place', lambda: 'build %d wrote no file' % n)
        math = docs.RENDERERS[ev['r']][0] == 'HTML5'
        try:
            judge(sim, plan, ev, ds[k, math], names[k], outdir, rel, opts)
        except Violation as v:
            v.msg = 'build %d of %s (%s): %s\n%s' % (n, names[k], opts, v.msg, describe(plan, ev, names[k]))
            raise
        got = sorted(rel)
        if key in seen:
            sim.check(seen[key] == got, 'same names', lambda: 'build %d of %s: the files are %r, in an earlier build of the same input %r\n%s' % (
                n, names[k], got, seen[key], describe(plan, ev, names[k])))
            sim.probe('same build again')
        seen[key] = got
        done += 1
        several += len(got) > 1
        sim.probe('files written', len(got))
        sim.state([ev['r'], ev['split'], opts['files.filename'], [u['level'] for u in ds[k, True].units][:12], bool(before)])
        sim.ev('build', n, got)
        if plan['hash'] and done == 1:
            other_process(sim, plan, ev, names[k], opts, got)
    if done >= 2 and several and (sim.faults or leftovers):
        sim.nontrivial = True


def leave(sim, ev, outdir, name):
    what = ev.get('leave')
    if what is None:
        return
    sim.fault('leftover ' + what)
    if what == 'paux':
        with open(name + '.paux', 'wb') as fh:
            fh.write(b'\x80junk')
    elif what == 'foreign':
        with open('foreign.paux', 'wb') as fh:
            fh.write(b'\x80\x04junk')
    else:
        os.makedirs(outdir, exist_ok=True)
        if what == 'html':
            for f in ('index.html', 'sect0001.html', 'section-1.html'):
                if not os.path.isdir(os.path.join(outdir, f)):
                    with open(os.path.join(outdir, f), 'w') as fh:
                        fh.write('<p>Q1Q Q2Q stale</p>')
        else:
            os.makedirs(os.path.join(outdir, 'sect'), exist_ok=True)


def describe(plan, ev, name):
    with open(name + '.tex', encoding='utf-8') as fh:
        return fh.read()[:3000]


def other_process(sim, plan, ev, name, opts, got):
    """The same build in another interpreter with another hash seed."""
    code = ('import sys,json; sys.path[:0]=%r\nfrom sim import pt,docs\nimport logging; logging.disable(50)\n'
            'pt.build(%r, json.loads(%r))' % ([REPO, ROOT], name + '.tex', __import__('json').dumps(dict(opts, **{'files.directory': 'again'}))))
    env = dict(os.environ, PYTHONHASHSEED=str(plan['hash'] % 4294967295), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    sim.fault('another hash seed')
    sim.check(p.returncode == 0, 'exception', lambda: 'build with another hash seed failed: %s' % p.stdout[-800:])
    have = sorted(os.path.relpath(os.path.join(d, f), 'again') for d, _, fs in os.walk('again') for f in fs if not f.endswith(NOTPAGES))
    sim.check(have == got, 'same names', lambda: 'with another hash seed the files are %r instead of %r' % (have, got))
    __import__('shutil').rmtree('again')


def judge(sim, plan, ev, d, name, outdir, rel, opts):
    split = ev['split']
    tmpl, sure = TEMPLATES[ev['tmpl']]
    single = ev['single'] >= 0
    if single:
        tmpl = SINGLE[ev['single']]
        split = -10
        sure = True
    # names
    sim.check(len(set(rel)) == len(rel), 'distinct names', 'names are used twice')
    bad = BADS[ev['bad']]
    fixed = re.sub(r'\$\{?\w+\}?', '', tmpl).replace(' ', '')
    for f in rel:
        stem = os.path.splitext(f)[0] if f.endswith(('.html', '.txt')) else f
        for c in bad:
            if c in stem and c not in fixed:
                raise Violation('forbidden characters', 'file name %r contains %r' % (f, c))
    pages = docs.read_pages(outdir, rel, opts['files.output-encoding'])
    # every piece of text once
    where = {}
    order = {}
    for f in rel:
        for m in docs.MARK.finditer(pages[f].text):
            t = m.group()
            if t[0] == 'M' and not d.math:
                continue
            if t in where:
                raise Violation('repeated', '%s is in %s and again in %s' % (t, where[t], f))
            where[t] = f
            order.setdefault(f, []).append(t)
    for t, u, kind in d.seq:
        if t not in where:
            raise Violation('lost', '%s (%s of %s %r) is in none of %r' % (t, kind, d.units[u]['kind'], d.units[u]['title'], rel))
    for t in ('ZqZ', 'ZfZ'):
        have, want = sum(p.text.count(t) for p in pages.values()), sum(x == t for x, u in d.dups)
        sim.check(have >= want, 'lost', lambda: '%s is %d times in the document, %d times in the files' % (t, want, have))
        sim.check(have <= want, 'repeated', lambda: '%s is %d times in the document, %d times in the files' % (t, want, have))
    files = {}
    if sure:
        owners = d.owners(split)
        for u in owners:
            files[u] = None
        for t, u, kind in d.seq:
            o = d.owner(u, split)
            if files[o] is None:
                files[o] = where[t]
            sim.check(files[o] == where[t], 'placement', lambda: '%s belongs to %s %r, whose text is in %s, but is in %s' % (
                t, d.units[o]['kind'], d.units[o]['title'], files[o], where[t]))
        used = [f for f in files.values() if f]
        sim.check(len(set(used)) == len(used), 'placement', lambda: 'two units are in the same file: %r' % (
            {d.units[u]['title']: f for u, f in files.items()}))
        sim.check(len(rel) == len(owners), 'number of files', lambda: '%d files %r for %d units %r' % (
            len(rel), rel, len(owners), [(d.units[u]['kind'], d.units[u]['title']) for u in owners]))
        # order
        for u in owners:
            f = files[u]
            if f is None:
                continue
            want = [t for t, x, kind in d.seq if d.owner(x, split) == u and kind == 'body']
            want += [t for t, x, kind in d.seq if d.owner(x, split) == u and kind == 'foot']
            sim.check(order[f] == want, 'order', lambda: 'the text of %s is %r, in the document it is %r' % (f, order[f], want))
        for t in ('ZqZ', 'ZfZ'):
            for u in owners:
                if files[u]:
                    have, want = pages[files[u]].text.count(t), sum(x == t and d.owner(y, split) == u for x, y in d.dups)
                    sim.check(have == want, 'placement', lambda: '%s belongs %d times to %s %r, but is %d times in %s' % (
                        t, want, d.units[u]['kind'], d.units[u]['title'], have, files[u]))
        # headings
        for u in owners:
            mark = d.units[u]['mark']
            if u and mark and files[u]:
                sim.check(mark in pages[files[u]].text, 'heading', lambda: 'the title %r is not in %s' % (d.units[u]['title'], files[u]))
        for u, x in enumerate(d.units):
            f = files[d.owner(u, split)]
            if x['mark'] and f:
                sim.check(x['mark'] in pages[f].text, 'heading', lambda: 'the title %r is not in %s' % (x['title'], f))
    else:
        # without a name of last resort units may stay in the file of their parent
        for f in order:
            seq = [(t, kind) for t, x, kind in d.seq if where[t] == f]
            want = [t for t, kind in seq if kind == 'body'] + [t for t, kind in seq if kind == 'foot']
            sim.check(order[f] == want, 'order', lambda: 'the text of %s is %r, in the document it is %r' % (f, order[f], want))
        for u, x in enumerate(d.units):
            fs = {where[t] for t, y, kind in d.seq if y == u}
            sim.check(len(fs) <= 1, 'placement', lambda: 'the text of %s %r is in %r' % (x['kind'], x['title'], sorted(fs)))


def shrink(plan):
    yield from shrink_lists(plan, [('events',)])
    if len(plan['docs']) > 1:
        yield replace_at(plan, ('docs',), plan['docs'][:1])
        yield replace_at(plan, ('docs',), plan['docs'][1:])
    if plan['hash']:
        yield replace_at(plan, ('hash',), 0)
    for i, ev in enumerate(plan['events']):
        yield from shrink_lists(plan, [('events', i, 'faults')])
        for k, v in (('split', 2), ('split', 0), ('tmpl', 0), ('single', -1), ('bad', 0), ('sub', '-'), ('dir', 'out'), ('extras', False), ('enc', 'utf-8'), ('r', 0), ('r', 3)):
            if ev[k] != v:
                yield replace_at(plan, ('events', i, k), v)
        if 'leave' in ev:
            yield replace_at(plan, ('events', i), {k: v for k, v in ev.items() if k != 'leave'})
    yield from shrink_docs(plan)


def shrink_docs(plan):
    for k, d in enumerate(plan['docs']):
        yield from shrink_lists(plan, [('docs', k, 'items'), ('docs', k, 'pkgs')])
        for key, v in (('cls', 'article'), ('title', False), ('bib', 0), ('index', 0), ('abstract', False)):
            if d[key] != v:
                yield replace_at(plan, ('docs', k, key), v)
        yield from shrink_items(plan, ('docs', k, 'items'), d['items'])


def shrink_items(plan, path, items):
    for i, it in enumerate(items):
        p = path + (i,)
        if it[0] == 'par':
            yield from shrink_lists(plan, [p + (1,)])
        elif it[0] == 'sec':
            for j, v in ((2, False), (3, 0), (4, 0), (5, False)):
                if it[j] != v:
                    yield replace_at(plan, p + (j,), v)
        elif it[0] == 'list':
            yield from shrink_lists(plan, [p + (2,)])
            for j, kids in enumerate(it[2]):
                yield from shrink_lists(plan, [p + (2, j)])
                yield from shrink_items(plan, p + (2, j), kids)
        elif it[0] in ('thm', 'float'):
            yield from shrink_lists(plan, [p + (3,)])
            yield from shrink_items(plan, p + (3,), it[3])
        elif it[0] == 'box':
            yield from shrink_lists(plan, [p + (2,)])
            yield from shrink_items(plan, p + (2,), it[2])
        elif it[0] == 'file':
            yield from shrink_lists(plan, [p + (1,)])
            yield from shrink_items(plan, p + (1,), it[1])
        elif it[0] == 'tab':
            yield from shrink_lists(plan, [p + (2,)])
        if it[0] in ('list', 'thm', 'float', 'box', 'file'):
            body = it[1] if it[0] == 'file' else it[3] if it[0] in ('thm', 'float') else it[2]
            if it[0] == 'list':
                body = [x for b in body for x in b]
            for x in body:
                yield replace_at(plan, p, x)
