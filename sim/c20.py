"""C20: cross-document label data survives a round trip and never blocks processing.

A run is a history over one simulated disk holding 2-3 LaTeX documents.  Events:
builds (each a forked plasTeX process running Compile.run with a real renderer),
damage to the saved *.paux files between processes, disk faults and crashes inside
the save or the load, readers running while a writer is stopped half way through its
save, and sweeps that load every truncation of a saved file.

Reference model: per document and renderer, for every label the set of records that a
correct load may produce (label text, number, title, location), computed from the
generator's own numbering/splitting model, never from plasTeX's answer.
"""
import copy
import html
import json
import os
import pickle
import random
import re
import shutil
import zlib

from sim import pt, seams
from sim.kernel import Violation, shrink_lists, replace_at, short_tb

LEVEL = 'fault_enumeration'
BATCH = 1
TIMEOUT = 120
RUNS_QUICK = 600
RUNS_THOROUGH = 9000
RULE = ('a case is a history of 4-9 events over 2-3 documents on one simulated disk (builds by '
        'real plasTeX processes, damage to saved files, disk faults/crashes inside save and load, '
        'readers during a half-written save, truncation/bit-flip sweeps); non-trivial when at '
        'least one process loaded a label saved by another process or loaded a damaged file')
STATE_MEASURE = ('distinct (condition of every saved file: absent/intact/damaged-kind, number of '
                 'sections, op) tuples seen before an event')
REAL = ['plasTeX.Compile.run', 'Context.persist/restore', 'Macro.persist/restore', 'TeX parser',
        'HTML5 and XHTML renderers (Renderer.render, Renderable.url/filename)', 'Packages/xr.py',
        'pickle', 'the kernel file system below the interposed calls']
STUB = ['open/read/write/close/remove/replace/listdir/scandir on the run directory (interposed, '
        'decided by the plan)', 'image generators (disabled)', 'process crash (os._exit at the '
        'chosen operation)', 'logging sink (/dev/null)']
ASSUMPTIONS = ['os._exit after a flush stands for a crash: bytes already given to write() before '
               'the chosen point survive; loss of later bytes is modelled by the truncation events',
               'a file that cannot be written (injected ENOSPC/EIO/EACCES) may make that save fail',
               'no two processes save the same file at the same time']

RENDERERS = ['HTML5', 'XHTML']
EXT = '.html'
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'theta', 'kappa', 'sigma', 'omega',
         'Éclair', 'naïve', 'Straße', 'two-part']
BAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'


# ---------------------------------------------------------------- generation

def gen_doc(rng, name, others):
    items = []
    nlab = 0

    def lab(kind):
        nonlocal nlab
        nlab += 1
        style = rng.choice(['%s:%s%d', '%s%s%d', '%s-%s-%d', '%s_%s_%d', '%s.%s.%d'])
        return style % (name, kind[:2], nlab)
    n = rng.randint(1, 7)
    for _ in range(n):
        kind = rng.choice(['section', 'section', 'subsection', 'equation', 'item', 'figure',
                           'table', 'thm', 'section*'])
        it = {'kind': kind, 'title': ' '.join(rng.sample(WORDS, rng.randint(1, 3)))}
        if kind != 'section*' and rng.random() < 0.8:
            it['label'] = lab(kind)
        if kind in ('section', 'subsection') and rng.random() < 0.25:
            it['emph'] = True
        items.append(it)
    return {'name': name, 'items': items}


DAMAGE = ['trunc', 'trunc', 'flip', 'flip', 'flips', 'empty', 'garbage', 'foreign', 'delete',
          'zeros', 'tail', 'otherfile', 'dup']


def gen(rng, tier, index):
    ndocs = rng.choice([2, 2, 3])
    # names that are prefixes and suffixes of each other
    names = rng.choice([['da', 'db', 'dc'], ['da', 'da2', 'xda'], ['b-da', 'da', 'da.b']])[:ndocs]
    docs = [gen_doc(rng, n, names) for n in names]
    plan = {
        'docs': docs,
        'layout': rng.choice(['same', 'same', 'dirs', 'mixed', 'mixed']),
        'split': rng.choice([2, 2, 1, 0, 3]),
        'baseurl': rng.choice(['', '', '', 'http://x.org/b', 'sub/']),
        'reserved': rng.choice([0, 0, 0, 1]),
        'events': [],
    }
    ev = plan['events']
    rends = rng.choice([['HTML5'], ['XHTML'], ['HTML5', 'XHTML'], ['HTML5', 'XHTML']])
    for d in range(ndocs):
        if rng.random() < 0.85:
            ev.append(gen_build(rng, plan, d, rng.choice(rends), 0.15))
    n = rng.randint(2, 6)
    for _ in range(n):
        d = rng.randrange(ndocs)
        c = rng.random()
        if c < 0.45:
            ev.append(gen_build(rng, plan, d, rng.choice(rends), 0.45))
        elif c < 0.75:
            ev.append(gen_damage(rng, d))
        elif c < 0.85:
            ev.append({'op': 'sweep', 'doc': d, 'r': rng.choice(rends), 'seed': rng.randrange(1 << 30),
                       'flips': rng.choice([0, 60, 200])})
        elif c < 0.93:
            ev.append({'op': 'xr', 'doc': d, 'r': 'HTML5', 'prefix': rng.choice(['', 'P-', 'x:']),
                       'url': rng.choice(['', 'http://h.org/d', 'http://h.org/d/'])})
        else:
            ev.append({'op': 'resave', 'doc': d, 'r': rng.choice(rends + ['Text'])})
    # most histories end with the reader checking everything again
    if rng.random() < 0.8:
        ev.append(gen_build(rng, plan, rng.randrange(ndocs), rng.choice(rends), 0.0))
    return plan


def gen_build(rng, plan, d, r, pfault):
    doc = plan['docs'][d]
    e = {'op': 'build', 'doc': d, 'r': r, 'drop': [], 'order': rng.randrange(1 << 20)}
    labs = [it['label'] for it in doc['items'] if it.get('label')]
    if labs and rng.random() < 0.3:
        e['drop'] = rng.sample(labs, rng.randint(1, len(labs)))
    if rng.random() < pfault:
        e['fault'] = gen_fault(rng)
        if e['fault']['kind'] == 'pause':
            others = [i for i in range(len(plan['docs'])) if i != d]
            e['inner'] = {'op': 'build', 'doc': rng.choice(others), 'r': r, 'drop': [],
                          'order': rng.randrange(1 << 20)}
    return e


def gen_fault(rng):
    c = rng.random()
    frac = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99, 1.0, rng.random()])
    if c < 0.3:
        return {'op': 'write', 'kind': 'crash', 'suffix': '.paux', 'nth': rng.choice([0, 0, 0, 1]),
                'frac': frac}
    if c < 0.42:
        return {'op': 'write', 'kind': 'pause', 'suffix': '.paux', 'nth': 0, 'frac': frac}
    if c < 0.55:
        return {'op': 'write', 'kind': rng.choice(['enospc', 'eio']), 'suffix': '.paux',
                'nth': rng.choice([0, 0, 1]), 'frac': frac}
    if c < 0.62:
        return {'op': 'open_w', 'kind': rng.choice(['eacces', 'crash', 'enospc']), 'suffix': '.paux',
                'nth': 0}
    if c < 0.75:
        return {'op': 'open_r', 'kind': rng.choice(['eacces', 'eio']), 'suffix': '.paux',
                'nth': rng.choice([0, 0, 1, 2])}
    if c < 0.85:
        return {'op': 'read', 'kind': 'eio', 'suffix': '.paux', 'nth': rng.choice([0, 0, 1, 2, 3])}
    if c < 0.92:
        return {'op': 'remove', 'kind': rng.choice(['eacces', 'crash']), 'suffix': '.paux', 'nth': 0}
    return {'op': 'write', 'kind': 'crash', 'suffix': '.html', 'nth': rng.choice([0, 0, 1, 2]),
            'frac': frac}


def gen_damage(rng, d):
    kind = rng.choice(DAMAGE)
    e = {'op': 'damage', 'doc': d, 'kind': kind, 'pos': rng.choice([rng.random(), rng.random(),
                                                                    0.97 + 0.03 * rng.random()])}
    if kind == 'flips':
        e['n'] = rng.randint(2, 12)
    e['seed'] = rng.randrange(1 << 30)
    return e


def shrink(plan):
    yield from shrink_lists(plan, [['events']])
    for i, e in enumerate(plan['events']):
        for k in ('fault', 'inner'):
            if e.get(k):
                new = {kk: v for kk, v in e.items() if kk not in ('fault', 'inner')}
                yield replace_at(plan, ['events', i], new)
        if e.get('drop'):
            yield replace_at(plan, ['events', i, 'drop'], [])
    for d in range(len(plan['docs'])):
        yield from shrink_lists(plan, [['docs', d, 'items']])
    if len(plan['docs']) > 2 and not any(e.get('doc') == 2 or (e.get('inner') or {}).get('doc') == 2
                                         for e in plan['events']):
        yield replace_at(plan, ['docs'], plan['docs'][:2])
    for k, v in (('baseurl', ''), ('layout', 'same'), ('split', 2), ('reserved', 0)):
        if plan.get(k) != v:
            yield replace_at(plan, [k], v)


# ---------------------------------------------------------------- the model

def tex_source(plan, d, drop, present):
    """LaTeX text of document d without the dropped labels, referring to `present`
    labels of the other documents."""
    doc = plan['docs'][d]
    out = [r'\documentclass{article}', r'\newtheorem{thm}{Theorem}']
    out.append(r'\begin{document}')
    out.append('Opening words.')
    for it in doc['items']:
        lab = it.get('label')
        lab = r'\label{%s}' % lab if lab and lab not in drop else ''
        t = it['title']
        if it.get('emph'):
            t = t + r' \emph{strong}'
        k = it['kind']
        if k in ('section', 'subsection'):
            out.append('\\%s{%s}%s\nSome body text.\n' % (k, t, lab))
        elif k == 'section*':
            out.append('\\section*{%s}\nStarred body.\n' % t)
        elif k == 'equation':
            out.append('\\begin{equation}%s x=1 \\end{equation}\n' % lab)
        elif k == 'item':
            out.append('\\begin{enumerate}\\item one\n\\item%s two\n\\end{enumerate}\n' % lab)
        elif k in ('figure', 'table'):
            out.append('\\begin{%s}pic\\caption{%s}%s\\end{%s}\n' % (k, t, lab, k))
        elif k == 'thm':
            out.append('\\begin{thm}%s %s\\end{thm}\n' % (lab, t))
    out.append('')
    out.append('Refs:')
    for lab in present:
        out.append(r'[R %s \ref{%s} R]' % (lab.replace('_', r'\_'), lab))
    out.append(r'\end{document}')
    return '\n'.join(out) + '\n'


def expected(plan, d, drop):
    """label -> record that a correct save+load yields."""
    doc = plan['docs'][d]
    sec = sub = eq = fig = tab = thm = 0
    split = plan['split']
    names = {'index'}
    num = 1
    cur = 'index'
    base = plan['baseurl'].rstrip('/')
    base = base + '/' if base else ''
    recs = {}

    def clean(s):
        return ''.join('-' if c in BAD else c for c in s)
    for it in doc['items']:
        lab = it.get('label')
        if lab in drop:
            lab = None
        k = it['kind']
        title = it['title']
        if k in ('section', 'subsection', 'section*'):
            if k == 'section':
                sec += 1
                sub = 0
                ref = '%d' % sec
            elif k == 'subsection':
                sub += 1
                ref = '%d.%d' % (sec, sub)
            else:
                ref = None
            level = 2 if k == 'subsection' else 1
            if level <= split:
                if lab:
                    cur = clean(lab)
                else:
                    cur = 'sect%04d' % num
                    num += 1
                url = base + cur + EXT
            else:
                url = base + cur + EXT + '#' + (lab or '')
            if lab:
                recs[lab] = {'ref': ref, 'title': title, 'url': url, 'id': lab}
            continue
        if k == 'equation':
            eq += 1
            ref, title = str(eq), None
        elif k == 'item':
            ref, title = '2', None
        elif k == 'figure':
            fig += 1
            ref, title = str(fig), None
        elif k == 'table':
            tab += 1
            ref, title = str(tab), None
        elif k == 'thm':
            thm += 1
            ref, title = str(thm), None
        if lab:
            recs[lab] = {'ref': ref, 'title': title, 'url': base + cur + EXT + '#' + lab, 'id': lab}
    return recs


def rec_matches(rec, got):
    """got: attributes observed on a restored object (strings or None)."""
    for k in ('ref', 'url', 'id'):
        if got.get(k) != rec[k]:
            return False
    if rec['title'] is not None:
        t = re.sub(r'<[^>]*>', '', got.get('title') or '').split()
        want = rec['title'].split()
        if t != want and t != want + ['strong']:
            return False
    return True


class Saved:
    """What one document's saved file may contain."""
    def __init__(self):
        self.certain = True
        self.exact = {}         # renderer -> {label: record}      (when certain)
        self.maybe = {}         # renderer -> {label: [records]}   everything ever saved
        self.cond = 'absent'

    def remember(self, r, recs):
        m = self.maybe.setdefault(r, {})
        for k, v in recs.items():
            l = m.setdefault(k, [])
            if v not in l:
                l.append(v)

    def saved(self, r, recs):
        self.remember(r, recs)
        if not self.certain:
            # a damaged file was replaced: sections of other renderers may be gone
            self.exact = {}
            self.loose = set(self.maybe) - {r}
        self.exact[r] = recs
        self.certain_r = getattr(self, 'certain_r', set())
        if not self.certain:
            self.certain_r = set()
        self.certain_r.add(r)
        self.certain = True
        self.cond = 'intact'

    def is_certain(self, r):
        return self.certain and (r in getattr(self, 'certain_r', set())
                                 or r not in getattr(self, 'loose', set()))

    def damaged(self, kind):
        self.certain = False
        self.cond = kind

    def gone(self):
        self.certain = True
        self.exact = {}
        self.loose = set()
        self.certain_r = set()
        self.cond = 'absent'


# ---------------------------------------------------------------- execution

class World:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.root = sim.scratch
        self.saved = [Saved() for _ in plan['docs']]
        self.dirs = []
        for i, d in enumerate(plan['docs']):
            apart = {'same': False, 'dirs': True, 'mixed': i == len(plan['docs']) - 1}[plan['layout']]
            p = os.path.join(self.root, 'dir%d' % i) if apart else self.root
            os.makedirs(p, exist_ok=True)
            self.dirs.append(p)

    def paux(self, d):
        return os.path.join(self.dirs[d], self.plan['docs'][d]['name'] + '.paux')

    def opts(self, d, r):
        o = {'general.renderer': r,
             'files.split-level': self.plan['split'],
             'document.base-url': self.plan['baseurl'],
             'files.directory': 'out-%s-%s' % (self.plan['docs'][d]['name'], r)}
        if self.plan['layout'] != 'same':
            o['general.paux-dirs'] = sorted(set(self.dirs) - {self.dirs[d]})
        if self.plan.get('reserved'):
            o['document.toc-depth'] = 1
        return o

    def others(self, d):
        return [i for i in range(len(self.plan['docs'])) if i != d]

    def present(self, d):
        return [it['label'] for i in self.others(d) for it in self.plan['docs'][i]['items']
                if it.get('label')]

    def snapshot_state(self, op):
        self.sim.state([op, [(s.cond, sorted(s.exact)) for s in self.saved]])


def grab_labels(context):
    """What processing will see for every label known before parsing."""
    out = {}
    for k, n in context.labels.items():
        if isinstance(n, dict):
            g = {a: n.get(a) for a in ('ref', 'title', 'id', 'url')}
        else:
            g = {'ref': getattr(n, 'ref', None), 'title': getattr(n, 'title', None),
                 'id': getattr(n, 'id', None), 'url': getattr(n, 'urloverride', None)}
        out[str(k)] = {a: (None if v is None else str(v)) for a, v in g.items()}
    return out


def build_session(w, d, r, texname):
    opts = w.opts(d, r)

    def fn(disk):
        got = {}
        real = pt.TeX.parse

        def parse(self, *a, **kw):
            if not got:
                got.update(before=grab_labels(self.ownerDocument.context))
            return real(self, *a, **kw)
        pt.TeX.parse = parse
        pt.build(texname, opts)
        return got
    return fn


def do_build(w, e, depth=0, loose_docs=()):
    sim, plan = w.sim, w.plan
    d, r = e['doc'], e['r']
    name = plan['docs'][d]['name']
    src = tex_source(plan, d, e['drop'], w.present(d))
    # the output of earlier builds is not this property's subject
    shutil.rmtree(os.path.join(w.dirs[d], 'out-%s-%s' % (name, r)), ignore_errors=True)
    with open(os.path.join(w.dirs[d], name + '.tex'), 'w', encoding='utf-8') as fh:
        fh.write(src)
    faults = [e['fault']] if e.get('fault') else []
    if faults and faults[0]['op'] in ('write', 'open_w', 'remove') and faults[0]['suffix'] == '.paux':
        faults = [dict(faults[0], suffix=name + '.paux')]
    s = seams.Session(w.root, build_session(w, d, r, name + '.tex'), faults, e['order'],
                      cwd=w.dirs[d], timeout=TIMEOUT / 3)
    # the load happens before anything of this process (or of an interleaved one) is saved
    at_load = copy.deepcopy(w.saved)
    st = s.wait()
    recs = expected(plan, d, e['drop'])
    loose = set(loose_docs)
    if st == 'paused':
        sim.fault('interleaved-reader')
        sim.ev('paused', name, r)
        w.saved[d].remember(r, recs)
        do_build(w, e['inner'], depth + 1, loose_docs=[d])
        st = s.resume()
    for f in s.fired:
        sim.fault(f)
    sim.ev('build', name, r, st, s.fired)
    wfault = [f for f in s.fired if f.split(':')[0] in ('write', 'open_w', 'close_w', 'remove', 'replace')
              and not f.endswith(':pause')]
    rfault = [f for f in s.fired if f.split(':')[0] in ('read', 'open_r')]
    if st in ('hang', 'died'):
        raise Violation('blocked', 'processing %s with %s: %s (%s)' % (name, r, st, s.error))
    if st == 'exc':
        if s.origin == 'harness':
            raise RuntimeError('harness failure in session: ' + s.error)
        if wfault:
            w.saved[d].remember(r, recs)
            w.saved[d].damaged('failed-save')
            sim.probe('save-error-propagated')
            return
        raise Violation('blocked', 'processing %s with %s failed: %s\nfaults fired: %s' %
                        (name, r, s.error, s.fired))
    if st == 'crash':
        w.saved[d].remember(r, recs)
        if any(f.startswith(('write', 'open_w', 'remove')) and w_is_paux(e) for f in s.fired):
            w.saved[d].damaged('torn')
        return
    # -- a completed process: check what it loaded
    sim.probe('completed-build')
    read_fault = bool(rfault)
    check_loaded(w, at_load, d, r, s.value.get('before', {}), read_fault, loose)
    check_output(w, d, r, s.value.get('before', {}), e)
    if wfault:
        w.saved[d].remember(r, recs)
        w.saved[d].damaged('failed-save')
        return
    if read_fault:
        # the read that failed may have been the save's own reload of the old file:
        # sections of other renderers may legitimately be gone afterwards
        w.saved[d].certain = False
    w.saved[d].saved(r, recs)
    check_file(w, d, r, recs)


def w_is_paux(e):
    return e['fault']['suffix'].endswith('.paux')


def check_loaded(w, saved, d, r, before, read_fault, loose=()):
    sim, plan = w.sim, w.plan
    allowed = {}
    for i in w.others(d):
        sv = saved[i]
        certain = sv.is_certain(r) and not read_fault and i not in loose
        exact = sv.exact.get(r, {}) if certain else None
        maybe = sv.maybe.get(r, {})
        name = plan['docs'][i]['name']
        if certain:
            for lab, rec in exact.items():
                sim.check(lab in before, 'label-missing',
                          lambda: 'label %r saved by %s (%s) was not restored in %s; file %s' %
                          (lab, name, r, plan['docs'][d]['name'], sv.cond))
                sim.check(rec_matches(rec, before[lab]), 'label-wrong',
                          lambda: 'label %r of %s (%s): saved %r, restored %r' %
                          (lab, name, r, rec, before[lab]))
                allowed[lab] = True
                sim.probe('label-restored')
                sim.nontrivial = True
        else:
            sim.nontrivial = True
            sim.probe('damaged-file-loaded:' + sv.cond)
            for lab, recs in maybe.items():
                allowed[lab] = True
                if lab in before:
                    sim.check(any(rec_matches(rec, before[lab]) for rec in recs), 'label-corrupt',
                              lambda: 'label %r of damaged file of %s (%s, %s): restored %r, ever saved %r'
                              % (lab, name, r, sv.cond, before[lab], recs))
                    sim.probe('label-survived-damage')
    extra = sorted(set(before) - set(allowed))
    sim.check(not extra, 'label-extra',
              lambda: 'labels %r restored for %s (%s) that no intact file holds; files: %s' %
              (extra, plan['docs'][d]['name'], r, [(s.cond, s.certain) for s in saved]))


REFRE = re.compile(r'\[R\s*(\S+)\s*(.*?)\s*R\]', re.S)


def check_output(w, d, r, before, e):
    """References to other documents' labels link to the restored target."""
    sim, plan = w.sim, w.plan
    out = os.path.join(w.dirs[d], 'out-%s-%s' % (plan['docs'][d]['name'], r))
    text = ''
    for fn in sorted(os.listdir(out)):
        if fn.endswith(EXT):
            with open(os.path.join(out, fn), encoding='utf-8') as fh:
                t = fh.read()
            if '[R' in t:
                text = t
                seen = {}
                for m in REFRE.finditer(t):
                    seen[re.sub(r'<[^>]*>', '', m.group(1))] = m.group(2)
                if seen:
                    break
    else:
        seen = {}
    for lab in w.present(d):
        if lab in before and before[lab]['ref']:
            want_url = before[lab]['url']
            got = seen.get(lab)
            sim.check(got is not None, 'ref-lost', lambda: 'reference to %r not rendered in %s' % (lab, out))
            m = re.search(r'<a [^>]*href="([^"]*)"[^>]*>(.*?)</a>', got, re.S)
            sim.check(m is not None, 'ref-unresolved',
                      lambda: 'reference to restored label %r rendered as %r' % (lab, got))
            sim.check(html.unescape(m.group(1)) == want_url and
                      re.sub(r'<[^>]*>', '', m.group(2)).strip() == before[lab]['ref'], 'ref-wrong',
                      lambda: 'reference to %r rendered %r, restored %r' % (lab, got, before[lab]))
            sim.probe('foreign-ref-rendered')


def check_file(w, d, r, recs):
    """The next save produces a complete, loadable file."""
    sim = w.sim
    path = w.paux(d)
    name = w.plan['docs'][d]['name']
    sim.check(os.path.exists(path), 'no-file', lambda: 'no %s after a completed save' % path)
    try:
        with open(path, 'rb') as fh:
            data = pickle.load(fh)
    except Exception as ex:
        raise Violation('unloadable-save', 'file saved by %s (%s) cannot be loaded: %s' % (name, r, short_tb(ex)))
    sim.check(isinstance(data, dict) and isinstance(data.get(r), dict), 'unloadable-save',
              lambda: 'file saved by %s: no section for %s' % (name, r))
    missing = [l for l in recs if l not in data[r]]
    sim.check(not missing, 'incomplete-save',
              lambda: 'file saved by %s (%s) lacks labels %r' % (name, r, missing))


def restore_only(w, d_reader, files, r):
    """One session: load each candidate file content into a fresh context."""
    def fn(disk):
        out = []
        for data in files:
            with open(os.path.join(w.root, 'probe.paux'), 'wb') as fh:
                fh.write(bytes.fromhex(data))
            doc = pt.TeXDocument(config=pt.make_config({'general.renderer': r}))
            ctx = doc.context
            wou = ctx.warnOnUnrecognized
            try:
                ctx.restore(os.path.join(w.root, 'probe.paux'), r)
            except MemoryError:
                raise
            except Exception as ex:
                out.append({'exc': short_tb(ex)})
                continue
            out.append({'labels': grab_labels(ctx), 'wou': ctx.warnOnUnrecognized == wou})
        return out
    return fn


def do_sweep(w, e):
    """Every truncation point, plus sampled bit flips, of one saved file."""
    sim, plan = w.sim, w.plan
    d, r = e['doc'], e['r']
    path = w.paux(d)
    if not os.path.exists(path) or w.saved[d].cond not in ('intact', 'torn', 'trunc', 'failed-save'):
        # one kind of damage at a time: see do_damage
        return
    with open(path, 'rb') as fh:
        data = fh.read()
    if not data or len(data) > 6000:
        return
    rng = random.Random(e['seed'])
    cases = []
    for n in range(len(data)):
        cases.append(('trunc', n, data[:n]))
    for _ in range(e['flips']):
        b = bytearray(data)
        k = rng.choice([1, 1, 1, 2, 5])
        for _ in range(k):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        cases.append(('flip', k, bytes(b)))
    cases.append(('whole', len(data), data))
    maybe = {}
    for rr, m in w.saved[d].maybe.items():
        if rr == r:
            maybe = m
    s = seams.Session(w.root, restore_only(w, d, [c[2].hex() for c in cases], r), timeout=TIMEOUT / 2)
    st = s.wait()
    if st == 'exc' and s.origin == 'harness':
        raise RuntimeError(s.error)
    if st != 'ok':
        raise Violation('blocked', 'sweep over damaged copies of %s: %s %s' % (path, st, s.error))
    for (kind, n, content), res in zip(cases, s.value):
        sim.fault('sweep-' + kind)
        sim.check('exc' not in res, 'restore-raised',
                  lambda: 'restore of %s@%d of %s raised %s' % (kind, n, os.path.basename(path), res['exc']))
        sim.check(res['wou'], 'state-leak', lambda: 'restore of %s@%d left warnOnUnrecognized changed' % (kind, n))
        for lab, got in res['labels'].items():
            recs = maybe.get(lab)
            sim.check(recs is not None, 'label-corrupt',
                      lambda: '%s@%d of %s restored unknown label %r = %r' % (kind, n, os.path.basename(path), lab, got))
            sim.check(any(rec_matches(rec, got) for rec in recs), 'label-corrupt',
                      lambda: '%s@%d of %s restored %r = %r, saved %r' %
                      (kind, n, os.path.basename(path), lab, got, recs))
        if kind == 'whole' and w.saved[d].is_certain(r) and w.saved[d].cond == 'intact':
            sim.check(set(res['labels']) == set(w.saved[d].exact.get(r, {})), 'label-missing',
                      lambda: 'intact file of %s (%s): restored %s, saved %s' %
                      (path, r, sorted(res['labels']), sorted(w.saved[d].exact.get(r, {}))))
    os.remove(os.path.join(w.root, 'probe.paux'))
    sim.nontrivial = True
    sim.ev('sweep', d, r, len(cases), len(data))


FOREIGN = [
    lambda: pickle.dumps([1, 2, 3]), lambda: pickle.dumps(None), lambda: pickle.dumps('text'),
    lambda: pickle.dumps({}), lambda: pickle.dumps({'HTML5': 5, 'XHTML': None}),
    lambda: pickle.dumps({'HTML5': [1], 'XHTML': ['x']}), lambda: pickle.dumps(7),
    lambda: pickle.dumps({'HTML5': {'zz': 5}, 'XHTML': {'zz': 'str'}}),
    lambda: pickle.dumps({'Other': {}}), lambda: pickle.dumps({1: 2}),
    lambda: pickle.dumps({'HTML5': 'abc', 'XHTML': 'abc'}),
    lambda: b'cnosuchmodule\nThing\n.', lambda: b'\\relax\n\\newlabel{a}{{1}{1}}\n',
    lambda: b'\x80\x04\x95', lambda: b'<?xml version="1.0"?><x/>\n',
]


def do_damage(w, e):
    sim = w.sim
    d = e['doc']
    path = w.paux(d)
    kind = e['kind']
    rng = random.Random(e['seed'])
    data = b''
    exists = os.path.isfile(path)
    if exists:
        with open(path, 'rb') as fh:
            data = fh.read()
    if kind in ('trunc', 'flip', 'flips', 'zeros', 'tail', 'dup') and not data:
        sim.ev('damage-skipped', d, kind)
        return
    if w.saved[d].cond not in ('intact', 'absent') and kind in ('trunc', 'flip', 'flips', 'zeros', 'tail', 'dup'):
        # compound damage could defeat any finite redundancy; one damage at a time
        sim.ev('damage-skipped', d, kind)
        return
    if kind == 'delete':
        if exists:
            os.remove(path)
        w.saved[d].gone()
    else:
        if kind == 'trunc':
            new = data[:int(len(data) * e['pos'])]
        elif kind == 'flip':
            b = bytearray(data)
            b[int(len(b) * e['pos'])] ^= 1 << rng.randrange(8)
            new = bytes(b)
        elif kind == 'flips':
            b = bytearray(data)
            for _ in range(e['n']):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            new = bytes(b)
        elif kind == 'empty':
            new = b''
        elif kind == 'garbage':
            new = bytes(rng.randrange(256) for _ in range(rng.randint(1, 300)))
        elif kind == 'foreign':
            new = rng.choice(FOREIGN)()
        elif kind == 'zeros':
            n = int(len(data) * e['pos'])
            new = data[:n] + b'\0' * (len(data) - n)
        elif kind == 'tail':
            new = data[int(len(data) * e['pos']):]
        elif kind == 'dup':
            n = int(len(data) * e['pos'])
            new = data[:n] + data[n // 2:]
        elif kind == 'otherfile':
            # the file of another document under this document's name
            o = [i for i in w.others(d) if os.path.isfile(w.paux(i))]
            if not o or w.saved[o[0]].cond != 'intact':
                sim.ev('damage-skipped', d, kind)
                return
            with open(w.paux(o[0]), 'rb') as fh:
                new = fh.read()
            for rr, m in w.saved[o[0]].maybe.items():
                for lab, recs in m.items():
                    for rec in recs:
                        w.saved[d].remember(rr, {lab: rec})
        if new == data:
            sim.ev('damage-none', d, kind)
            return
        with open(path, 'wb') as fh:
            fh.write(new)
        w.saved[d].damaged(kind)
    sim.fault('damage-' + kind)
    sim.ev('damage', d, kind, len(data))


def do_xr(w, e):
    """Explicit cross-document references through the xr package (no *.paux in cwd)."""
    sim, plan = w.sim, w.plan
    d, r = e['doc'], e['r']
    i = w.others(d)[0]
    path = w.paux(i)
    sub = os.path.join(w.root, 'xrdir')
    os.makedirs(os.path.join(sub, 'ext'), exist_ok=True)
    tgt = os.path.join(sub, 'ext', 'file.paux')
    if os.path.exists(path):
        shutil.copy(path, tgt)
    elif os.path.exists(tgt):
        os.remove(tgt)
    labs = [it['label'] for it in plan['docs'][i]['items'] if it.get('label')]
    src = ['\\documentclass{article}\\usepackage{xr}',
           '\\externaldocument[%s]{ext/file}%s' % (e['prefix'], '[%s]' % e['url'] if e['url'] else ''),
           '\\begin{document}Refs:']
    if not e['prefix']:
        src[1] = '\\externaldocument{ext/file}%s' % ('[%s]' % e['url'] if e['url'] else '')
    for lab in labs:
        src.append('[R %s \\ref{%s%s} R]' % (lab.replace('_', r'\_'), e['prefix'], lab))
    src.append('\\end{document}')
    with open(os.path.join(sub, 'xrmain.tex'), 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(src))
    opts = {'general.renderer': r, 'files.directory': 'out'}

    def fn(disk):
        pt.build('xrmain.tex', opts)
        return None
    s = seams.Session(w.root, fn, cwd=sub, timeout=TIMEOUT / 3)
    st = s.wait()
    sim.ev('xr', d, r, st)
    if st == 'exc' and s.origin == 'harness':
        raise RuntimeError(s.error)
    if st != 'ok':
        raise Violation('blocked', 'document using xr on %s file failed: %s %s' % (w.saved[i].cond, st, s.error))
    with open(os.path.join(sub, 'out', 'index.html'), encoding='utf-8') as fh:
        t = fh.read()
    seen = {re.sub(r'<[^>]*>', '', m.group(1)): m.group(2) for m in REFRE.finditer(t)}
    sv = w.saved[i]
    url = e['url'].rstrip('/') + '/' if e['url'] else ''
    for lab in labs:
        got = seen.get(lab)
        sim.check(got is not None, 'ref-lost', lambda: 'xr reference to %r not rendered' % lab)
        m = re.search(r'<a [^>]*href="([^"]*)"[^>]*>(.*?)</a>', got, re.S)
        if sv.is_certain(r):
            rec = sv.exact.get(r, {}).get(lab)
            recs = [rec] if rec else []
            if rec and rec['ref']:
                sim.check(m is not None, 'ref-unresolved',
                          lambda: 'xr reference to saved label %r rendered as %r' % (lab, got))
        else:
            recs = sv.maybe.get(r, {}).get(lab, [])
        if m is not None:
            sim.probe('xr-ref-rendered')
            sim.nontrivial = True
            ok = any(html.unescape(m.group(1)) == url + rec['url'] and
                     re.sub(r'<[^>]*>', '', m.group(2)).strip() == rec['ref'] for rec in recs)
            sim.check(ok, 'ref-wrong', lambda: 'xr reference to %r rendered %r; saved records %r, url %r' %
                      (lab, got, recs, url))


class LightRenderer(pt.plasTeX.Renderers.Renderer):
    fileExtension = '.txt'


def do_resave(w, e):
    """Save with another renderer name straight through the API, on whatever is there."""
    sim, plan = w.sim, w.plan
    d, r = e['doc'], e['r']
    path = w.paux(d)
    src = '\\documentclass{article}\\begin{document}\\section{One}\\label{%s:extra}x\\end{document}' % \
        plan['docs'][d]['name']
    lab = '%s:extra' % plan['docs'][d]['name']

    def fn(disk):
        tex = pt.parse_string(src, {'general.renderer': r}, plan['docs'][d]['name'])
        os.makedirs('light', exist_ok=True)
        os.chdir('light')
        tex.ownerDocument.userdata['working-dir'] = w.dirs[d]
        LightRenderer().render(tex.ownerDocument)
        doc = pt.TeXDocument(config=pt.make_config({'general.renderer': 'HTML5'}))
        doc.context.restore(path, r)
        first = grab_labels(doc.context)
        doc2 = pt.TeXDocument(config=pt.make_config({'general.renderer': 'HTML5'}))
        doc2.context.restore(path, 'NoSuchRenderer')
        return [first, grab_labels(doc2.context)]
    s = seams.Session(w.root, fn, cwd=w.root, timeout=TIMEOUT / 3)
    st = s.wait()
    sim.ev('resave', d, r, st)
    if st == 'exc' and s.origin == 'harness':
        raise RuntimeError(s.error)
    if st != 'ok':
        raise Violation('blocked', 'save over %s file failed: %s %s' % (w.saved[d].cond, st, s.error))
    first, none = s.value
    sim.check(not none, 'label-extra', lambda: 'labels %r restored for a renderer that saved nothing' % sorted(none))
    sim.check(lab in first and first[lab]['ref'] == '1' and first[lab]['title'] == 'One', 'label-missing',
              lambda: 'label %r saved over a %s file is not restored: %r' % (lab, w.saved[d].cond, first))
    sim.check(sorted(first) == [lab], 'label-extra',
              lambda: 'saved exactly %r for %s, restored %r' % (lab, r, sorted(first)))
    # this wrote section r with a single, url-less label
    rec = {lab: {'ref': '1', 'title': 'One', 'url': first[lab]['url'], 'id': lab}}
    sim.check(first[lab]['url'] == ''.join('-' if c in BAD else c for c in lab) + '.txt', 'label-wrong',
              lambda: 'location of label saved with the light renderer: %r' % first[lab])
    w.saved[d].saved(r, rec)
    with open(path, 'rb') as fh:
        try:
            data = pickle.load(fh)
        except Exception as ex:
            raise Violation('unloadable-save', 'resaved file cannot be loaded: %s' % short_tb(ex))
    sim.check(isinstance(data, dict) and r in data, 'incomplete-save', 'resaved file lacks section %s' % r)


def execute(plan, sim):
    w = World(plan, sim)
    for e in plan['events']:
        w.snapshot_state(e['op'])
        if e['op'] == 'build':
            do_build(w, e)
        elif e['op'] == 'damage':
            do_damage(w, e)
        elif e['op'] == 'sweep':
            do_sweep(w, e)
        elif e['op'] == 'xr':
            do_xr(w, e)
        elif e['op'] == 'resave':
            do_resave(w, e)
