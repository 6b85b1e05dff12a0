r"""C09: references resolve to the object their label names, wherever the label is.

Two kinds of runs.  'doc': generated documents (in several files, possibly two processed alternately)
with labels on all sorts of numbered objects and references before, after and inside of them,
in a directory that holds label data of other documents, of documents that use the same labels, and
damaged label data.  A model of the nesting says which object each label names and what its
number is.  'api': a history of numberings, labels, references and restored files
on the contexts of one or two documents, checked after each operation.
"""
import logging
import os
import threading

from sim import pt
from sim.c04 import Baton
from sim.kernel import Violation, replace_at, shrink_lists

import plasTeX
from plasTeX import Command, TeXDocument
from plasTeX.TeX import TeX

LEVEL = 'exercise'
BATCH = 40
TIMEOUT = 20
RUNS_QUICK = 4500
RUNS_THOROUGH = 100000
RULE = ('a run is non-trivial if at least two references are made before their label, at least two after it, and at least '
        'one fault was injected; distinct by trace digest')
STATE_MEASURE = 'distinct (kinds of labelled objects, order of labels and references, restored labels) digests'
REAL = ['plasTeX.Context.label/ref/persist/restore and currentlabel, TeX parser and argument types, all numbered macros, '
        'packages amsmath, amsthm, hyperref, cleveref, nameref, subfig, wrapfig, longtable, xr']
STUB = ['rendering is left out (the label data of other documents is saved by Context.persist without rendering)']
ASSUMPTIONS = ['a label belongs to the innermost numbered object that is open at that point; the number of a float is that of '
               'its caption, and labels in a float come after the caption',
               'labels are not placed directly into objects without a number (items of itemize, footnotes), except '
               'directly after an unnumbered sectioning command',
               'each label is defined once in a document']
TIME_NOTE = 'no simulated clock: nothing here reads one'

PKGS = ['amsmath', 'amsthm', 'hyperref', 'cleveref', 'nameref', 'subfig', 'wrapfig', 'longtable']
HOWS = {'ref': '\\ref{%s}', 'pageref': '\\pageref{%s}', 'autoref': '\\autoref{%s}', 'hyperref': '\\hyperref[%s]{t}',
        'nameref': '\\nameref{%s}', 'cref': '\\cref{%s}', 'Cref': '\\Cref{%s}', 'eqref': '\\eqref{%s}',
        'hyperlink': '\\hyperlink{%s}{t}'}
NEEDS = {'autoref': 'hyperref', 'hyperref': 'hyperref', 'nameref': 'nameref', 'cref': 'cleveref', 'Cref': 'cleveref',
         'eqref': 'amsmath', 'hyperlink': 'hyperref'}
STYLES = ['l%s', 'sec:l%s', 'a_b%s', 'x^%s', 'my label %s', 'd.%s-e', '\xe9\xfc%s', "it's%s", 'A+B/%s', 'eq:%s!', '%s']
WRAPS = ['%s', '%s', '%s', '%s', '{%s}', '\\textbf{%s}', '\\footnote{n %s}', '\\mbox{%s}', '\\begin{center}%s\\end{center}', '$x_{\\mbox{%s}}$',
         '\\begin{tabular}{c}%s\\\\%s\\end{tabular}', '\\twice{%s}', '\\begin{itemize}\\item %s\\end{itemize}', '\\emph{\\textit{%s}}',
         '\\begin{description}\\item[%s] d\\end{description}', '\\begin{quote}%s\\end{quote}', '\\iftrue %s\\fi ',
         '\\begin{minipage}{3cm}%s\\end{minipage}']


# ------------------------------------------------------------------ generation
def gen(rng, tier, index):
    if rng.random() < .35:
        return gen_api(rng, tier)
    docs = []
    for _ in range(2 if rng.random() < .2 else 1):
        n = rng.choice([8, 14, 24, 40] if tier == 'quick' else [10, 24, 50, 90])
        budget = [n]
        docs.append({'cls': rng.choice(['article', 'article', 'report', 'book']),
                     'pkgs': [p for p in PKGS if rng.random() < .5],
                     'tree': gen_nodes(rng, budget, 4, True), 'nref': rng.randrange(3, 16),
                     'seed': rng.randrange(1 << 30), 'late': rng.random() < .3, 'nw': rng.random() < .3,
                     'bib': [rng.choice(['start', 'end', 'end', 'none']), [rng.randrange(3) for _ in range(rng.choice([0, 1, 3, 5]))]]})
    prior = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        prior.append([rng.choice(['restore', 'restore', 'xr', 'xrp']), rng.choice(['same', 'same', 'subset', 'own']),
                      rng.choice(['ok', 'ok', 'ok', 'cut', 'flip', 'empty', 'missing']), rng.randrange(1000)])
    return {'kind': 'doc', 'docs': docs, 'prior': prior, 'sched': [rng.randrange(2) for _ in range(30)],
            'junk': rng.choice([0, 0, rng.randrange(1, 1000)])}


def gen_nodes(rng, budget, depth, top):
    out = []
    k = rng.choice([2, 3, 5, 8]) if not top else 99
    while k > 0 and budget[0] > 0:
        k -= 1
        budget[0] -= 1
        r = rng.random()
        if r < .2:
            out.append(['lab'])
        elif r < .38 and top:
            out.append(['sec', rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]), rng.random() < .12, rng.choice([0, 0, 1, 1, 2, 3])])
        elif r < .42 and top:
            out.append(rng.choice([['file', gen_nodes(rng, budget, depth, False)], ['appendix'], ['include', gen_nodes(rng, budget, depth, False)]]))
        elif r < .52:
            out.append(['eq', rng.choice(['equation', 'equation', 'eqsplit', 'eqcases', 'eqalgd', 'multline']), rng.choice([1, 1, 1, 0, 2]),
                        rng.randrange(3)])
        elif r < .6:
            out.append(['rows', rng.choice(['eqnarray', 'align', 'gather', 'alignat', 'flalign']),
                        [[rng.choice([0, 1, 1]), rng.random() < .2, rng.randrange(2)] for _ in range(rng.choice([1, 2, 3]))]])
        elif r < .7 and depth > 0:
            out.append(['enum', [gen_nodes(rng, budget, depth - 1, False) for _ in range(rng.choice([1, 2, 3]))]])
        elif r < .8 and depth > 0:
            out.append(['float', rng.choice(['figure', 'figure', 'table', 'figure*', 'wrapfigure', 'longtable']),
                        gen_nodes(rng, budget, 1, False), rng.choice([0, 0, 0, 1, 2]), gen_nodes(rng, budget, 1, False)])
        elif r < .9 and depth > 0:
            out.append(['thm', rng.choice(['thm', 'lem', 'prop', 'rem']), rng.randrange(3), gen_nodes(rng, budget, depth - 1, False)])
        elif r < .95 and depth > 0:
            out.append(['box', rng.choice(['itemize', 'description', 'center', 'quote', 'brace', 'minipage', 'tabular', 'proof', 'myenv', 'undef']),
                        gen_nodes(rng, budget, depth - 1, False)])
        else:
            out.append(rng.choice([['noise', rng.randrange(8)], ['par'], ['target']]))
    return out


# ------------------------------------------------------------------ writing
class Doc:
    def __init__(self, d, prefix):
        self.d = d
        self.prefix = prefix
        self.pk = set(d['pkgs'])
        if 'cleveref' in self.pk:
            self.pk.add('hyperref')
        self.files = {}
        self.n = 0
        self.labels = {}    # label: object
        self.objs = []
        self.ctr = {}
        self.slots = []     # positions where references may go
        self.uses = []      # (how, label)
        self.out = []       # pieces of text; None for a slot
        self.faults = {}
        self.kinds = {}
        self.app = False
        self.seq = []
        self.bib = {}       # key: (mark, label shown in citations)
        self.cites = []     # keys and note of each citation

    def num(self):
        self.n += 1
        return self.n

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def obj(self, kind, number):
        o = {'id': len(self.objs), 'kind': kind, 'mark': 'Q%sQ' % self.num(), 'number': number, 'labels': []}
        self.objs.append(o)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return o

    def label(self, o):
        i = self.num()
        lab = STYLES[(i * 7 + self.d['seed']) % len(STYLES)] % ('%s%d' % ('n', i) if (i * 7 + self.d['seed']) % len(STYLES) == 10 else i)
        self.labels[lab] = o
        o['labels'].append(lab)
        self.seq.append('L' + o['kind'][:2])
        how = (i + self.d['seed']) % 9
        if how == 0:
            return '\\lab{%s}' % lab
        if how == 1:
            return '\\label{ %s }' % lab
        if how == 2 and '_' not in lab and '^' not in lab:
            return '\\label{\\empty %s}' % lab
        return '\\label{%s}' % lab

    def step(self, c):
        self.ctr[c] = self.ctr.get(c, 0) + 1
        for x, by in (RESETS_NW if self.nw else RESETS).items():
            if c in by:
                self.reset(x)

    def reset(self, c):
        self.ctr[c] = 0
        for x, by in (RESETS_NW if self.nw else RESETS).items():
            if c in by:
                self.reset(x)

    def the(self, c):
        v = self.ctr.get(c, 0)
        art = self.d['cls'] == 'article'
        if c == 'chapter':
            return chr(64 + v) if self.app and not art else str(v)
        if c == 'section':
            s = chr(64 + v) if self.app and art else str(v)
            return s if art else '%s.%s' % (self.the('chapter'), s)
        if c == 'subsection':
            return '%s.%s' % (self.the('section'), v)
        if c == 'subsubsection':
            return '%s.%s' % (self.the('subsection'), v)
        if c in ('figure', 'table'):
            return str(v) if art else '%s.%s' % (self.the('chapter'), v)
        if c == 'equation':
            if self.nw:
                return '%s.%s' % (self.the('section'), v)
            if self.d['cls'] == 'report':
                return False        # not numbered by chapter in plasTeX: another property
            return str(v) if art else '%s.%s' % (self.the('chapter'), v)
        if c == 'prop':
            return '%s.%s' % (self.the('section'), v)
        return str(v)

    def slot(self):
        self.out.append(None)
        self.slots.append(len(self.out) - 1)

    def w(self, s):
        self.out.append(s)

    # cur: what labels are attached to here (None: leave labels out)
    def nodes(self, nodes, cur, w):
        for n in nodes:
            c2 = getattr(self, 'n_' + n[0])(n, cur, w)
            if c2 is not None:
                cur = c2[0]
        return cur

    def n_lab(self, n, cur, w):
        self.slot()
        if cur is not None:
            self.w(self.label(cur))
        self.w(' w%d. ' % self.num())

    def n_par(self, n, cur, w):
        if w['par']:
            self.w('\n\n')

    def n_noise(self, n, cur, w):
        i = self.num()
        k = n[1]
        src = ['\\iffalse\\label{ghost%d}\\fi ' % i, '%% \\label{ghost%d}\n' % i, '\\verb|\\label{ghost%d}|' % i if w['par'] else '',
               '\\undefinedmac%s ' % 'abc'[i % 3], '\\input{nofile%d}' % i, '\\begin{eqnarray*}a\\\\b\\end{eqnarray*}',
               '\\label{}', '$$x$$ \\[y\\]'][k]
        if k in (3, 4):
            self.fault(['command that does not exist', 'file that does not exist'][k - 3])
        if k == 6 and cur is None:
            return
        self.w(src)
        self.seq.append('n%d' % k)

    def n_target(self, n, cur, w):
        if 'hyperref' in self.pk:
            i = self.num()
            o = self.obj('target', False)
            lab = 'tgt%d' % i
            self.w('\\hypertarget{%s}{%s}' % (lab, o['mark']))
            self.labels[lab] = o
            o['labels'].append(lab)

    def n_sec(self, n, cur, w):
        level, star, where = n[1], n[2], n[3]
        names = ['chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'part']
        if self.d['cls'] == 'article' and level == 0:
            level = 1
        name = names[level]
        deep = level in (3, 4)      # sec-num-depth
        if star:
            number = None
        else:
            self.step(name)
            number = None if deep else False if name == 'part' else self.the(name)
        o = self.obj('section', number)
        self.w('\n\n')
        self.w('\\%s%s' % (name, '*' if star else ''))
        if where == 3 and not star:
            self.w('[t ')
            self.slot()
            self.w(']')
        self.w('{%s' % o['mark'])
        if where == 2:
            self.w(self.label(o))
        if where == 3:
            self.w(' ')
            self.slot()
        self.w('}')
        if where == 1 or where == 3:
            self.w(self.label(o))
        self.w('\n')
        return (None if star or deep else o,)

    def n_appendix(self, n, cur, w):
        if self.app or not w['top'] or self.d['cls'] != 'article':
            return
        self.app = True
        self.ctr['section'] = 0
        self.reset('section')
        self.w('\n\n\\appendix\n')
        o = self.obj('section', None)
        self.step('section')
        o['number'] = self.the('section')
        self.w('\\section{%s}' % o['mark'])
        return (o,)

    def n_file(self, n, cur, w, cmd='input'):
        save = self.out
        self.out = []
        slots = self.slots
        self.slots = []
        cur = self.nodes(n[1], cur, dict(w, top=False))
        name = '%sf%d' % (self.prefix, len(self.files))
        self.files[name + '.tex'] = self.out
        self.subslots.append((self.out, self.slots))
        self.out, self.slots = save, slots
        self.w('\\%s{%s}' % (cmd, name))
        return (cur,)

    def n_include(self, n, cur, w):
        return self.n_file(n, cur, w, 'include')

    def n_eq(self, n, cur, w):
        kind, nlab, where = n[1], n[2], n[3]
        if kind != 'equation' and 'amsmath' not in self.pk:
            kind = 'equation'
        self.step('equation')
        o = self.obj('equation', self.the('equation'))
        lab = [self.label(o) for _ in range(nlab)]
        body = {'equation': '%s', 'eqsplit': '\\begin{split}%s&=b\\\\&=c%%s\\end{split}',
                'eqcases': '%s=\\begin{cases}a&b\\\\c&d\\end{cases}', 'eqalgd': '\\begin{aligned}%s&b\\\\c&d\\end{aligned}',
                'multline': '%s\\\\b%%s\\\\c'}[kind] % o['mark']
        env = 'multline' if kind == 'multline' else 'equation'
        inner = ''
        if '%s' in body:
            if lab and where == 2:
                inner = lab.pop()
            body = body % inner
        if lab and where == 0 and kind == 'equation':
            body = lab.pop(0) + body
        src = '\\begin{%s}%s' % (env, body)
        self.w(src)
        if where == 1:
            self.w('\\mbox{')
            self.slot()
            self.w('}')
        for x in lab:
            self.w(x)
        self.w('\\end{%s}' % env)

    def n_rows(self, n, cur, w):
        env, rows = n[1], n[2]
        if 'amsmath' not in self.pk:
            env = 'eqnarray'
        self.w('\\begin{%s}' % env + ('{2}' if env == 'alignat' else ''))
        for i, (nlab, nonum, where) in enumerate(rows):
            if i:
                self.w('\\\\')
            if nonum:
                self.w('z&=\\nonumber ' if env != 'gather' else 'z\\nonumber ')
                continue
            self.step('equation')
            o = self.obj('row0' if i == 0 else 'row', self.the('equation'))
            lab = self.label(o) if nlab else ''
            if where and lab:
                self.w(lab)
                lab = ''
            self.w(o['mark'] + ('&=c' if env != 'gather' else ''))
            self.w(lab)
        self.w('\\end{%s}' % env)

    def n_enum(self, n, cur, w):
        depth = w['enum'] + 1
        if depth > 3:
            return
        self.w('\\begin{enumerate}')
        for i, kids in enumerate(n[1]):
            o = self.obj('item', str(i + 1) if depth == 1 else False)
            self.w('\\item %s ' % o['mark'])
            self.nodes(kids, o, dict(w, enum=depth, top=False))
        self.w('\\end{enumerate}\n')

    def n_float(self, n, cur, w):
        env, before, where, after = n[1], n[2], n[3], n[4]
        if w['float'] or env == 'wrapfigure' and 'wrapfig' not in self.pk or env == 'longtable' and 'longtable' not in self.pk:
            return
        w2 = dict(w, float=True, top=False, par=w['par'] and env not in ('longtable', 'table'))
        args = {'figure': '[h]', 'wrapfigure': '{r}{2cm}', 'longtable': '{c}'}.get(env, '')
        self.w('\\begin{%s}%s' % (env, args))
        c = 'table' if env in ('table', 'longtable') else 'figure'
        subs = []
        if env == 'longtable':
            self.step(c)
            o = self.obj('caption', self.the(c))
            self.w('\\caption{%s}' % o['mark'])
            if where == 1:
                self.w(self.label(o))
            self.w('\\\\ ')
            self.nodes(after, o, w2)
            self.w('\\\\\\end{longtable}')
            return
        # nothing in front of the caption gets a label of its own
        self.nodes(before, None, w2)
        if env == 'figure' and where == 2 and 'subfig' in self.pk:
            for k in range(2):
                s = self.obj('subfloat', None)
                self.w('\\subfloat[c]{%s %s}' % (s['mark'], self.label(s)))
                subs.append(s)
        self.step(c)
        o = self.obj('caption', self.the(c))
        for k, s in enumerate(subs):
            s['number'] = o['number'] + 'ab'[k]
        if env == 'table' and where == 0:
            self.w('\\begin{tabular}{cc}a&b\\\\c&d\\end{tabular}')
        if where == 2:
            self.w('\\begin{center}')
        self.w('\\caption')
        if where == 1:
            self.w('[s ')
            self.slot()
            self.w(']')
        self.w('{%s ' % o['mark'])
        if where == 2:
            self.w(self.label(o))
        else:
            self.slot()
        self.w('}')
        if where == 0:
            self.w(self.label(o))
        if where == 2:
            self.w('\\end{center}')
        self.nodes(after, o, w2)
        self.w('\\end{%s}' % env)

    def n_thm(self, n, cur, w):
        kind, where, kids = n[1], n[2], n[3]
        if w['float']:
            return
        if kind == 'rem':
            # without a number
            if 'amsthm' not in self.pk:
                return
            self.w('\\begin{rem}')
            self.nodes(kids, cur, dict(w, top=False))
            self.w('\\end{rem}')
            return
        c = {'thm': 'thm', 'lem': 'thm', 'prop': 'prop'}[kind]
        self.step(c)
        o = self.obj('thm', self.the(c))
        self.w('\\begin{%s}' % kind)
        if where == 2:
            self.w('[note ')
            self.slot()
            if o['id'] % 2:
                self.w(self.label(o))
            self.w(']')
        if where == 1:
            self.w(self.label(o))
        self.w(' %s ' % o['mark'])
        self.nodes(kids, o, dict(w, top=False))
        self.w('\\end{%s}' % kind)

    def n_box(self, n, cur, w):
        kind, kids = n[1], n[2]
        if kind == 'proof' and 'amsthm' not in self.pk:
            kind = 'quote'
        if kind in ('itemize', 'description') and w['enum'] > 2:
            return
        o, c = {'itemize': ('\\begin{itemize}\\item ', '\\end{itemize}'), 'description': ('\\begin{description}\\item[x] ', '\\end{description}'),
                'brace': ('{', '}'), 'minipage': ('\\begin{minipage}{4cm}', '\\end{minipage}'),
                'tabular': ('\\begin{tabular}{cc}a&', '\\\\c&d\\end{tabular}'),
                'undef': ('\\begin{zork}', '\\end{zork}')}.get(kind, ('\\begin{%s}' % kind, '\\end{%s}' % kind))
        if kind == 'undef':
            self.fault('environment that does not exist')
        w2 = dict(w, top=False, par=w['par'] and kind != 'tabular')
        if kind in ('itemize', 'description'):
            cur = None
            w2['enum'] = w['enum'] + 1
        if kind in ('tabular',):
            w2['float'] = True
        self.w(o)
        self.nodes(kids, cur, w2)
        self.w(c)

    def n_bib(self, where):
        place, items = self.d['bib']
        if place != where or not items:
            return
        self.w('\n\n\\begin{thebibliography}{9}\n')
        plain = 0
        for kind in items:
            i = self.num()
            key = ['key%d', 'k:%d', 'Foo-%d', 'a.b%d'][i % 4] % i
            if kind == 1:
                self.w('\\bibitem[B%dB]{%s} ' % (i, key))
                shown = 'B%dB' % i
            else:
                plain += 1
                self.w('\\bibitem{%s} ' % key)
                shown = str(plain)
            self.bib[key] = ('Q%dQ' % i, shown)
            self.w('Q%dQ ' % i)
            if kind == 2:
                self.slot()
            self.w('\n')
        self.w('\\end{thebibliography}\n\n')
        self.seq.append('B%d' % len(items))

    # --- references, once all labels are known
    def refs(self, foreign):
        """foreign: labels restored from other documents"""
        r = Rand(self.d['seed'])
        labs = sorted(self.labels)
        slots = [(self.out, i) for i in self.slots] + [(o, i) for o, sl in self.subslots for i in sl]
        fill = {}
        cites = {}
        for k in range(self.d['nref']):
            which = r.next(10)
            if which < 8 and labs:
                lab = labs[r.next(len(labs))]
            elif which == 8 and foreign:
                lab = sorted(foreign)[r.next(len(foreign))]
            else:
                lab = 'ghost%d' % r.next(9)
            hows = [h for h in HOWS if h not in NEEDS or NEEDS[h] in self.pk]
            how = hows[r.next(len(hows))]
            if lab in self.labels and self.labels[lab]['kind'] == 'target' and how not in ('hyperlink',):
                if 'hyperref' not in self.pk:
                    continue
                how = 'hyperlink'
            if not slots:
                break
            s = len(slots) - 1 - r.next(len(slots)) // 2 if self.d['late'] else r.next(len(slots))
            fill.setdefault(s, []).append((how, lab, r.next(100)))
        for k in range(self.d['nref'] // 3 if self.d['bib'][0] != 'none' else 0):
            keys = []
            for _ in range(1 + r.next(3)):
                q = r.next(6)
                keys.append(sorted(self.bib)[r.next(len(self.bib))] if self.bib and q else 'nokey%d' % q)
            note = 'note%d' % k if r.next(3) == 0 else None
            if slots:
                s = r.next(len(slots))
                src = '\\cite%s{%s}' % ('[%s]' % note if note else '', [',', ', '][r.next(2)].join(keys))
                if self.wrapok(*slots[s]):
                    cites.setdefault(s, []).append(src)
                    self.cites.append((tuple(keys), note))
        for s, (out, i) in enumerate(slots):
            txt = ''.join(cites.get(s, []))
            for how, lab, q in fill.get(s, []):
                arg = lab if q % 5 or "'" in lab else ' %s ' % lab
                src = HOWS[how] % arg
                wrap = WRAPS[q % len(WRAPS)] if self.wrapok(out, i) else '%s'
                txt += wrap.replace('%s', src, 1).replace('%s', 'x')
                self.uses.append((how, lab))
                if wrap.startswith('\\twice'):
                    self.uses.append((how, lab))
            out[i] = txt

    def wrapok(self, out, i):
        prev = ''.join(x or '' for x in out[max(0, i - 1):i])
        return not (prev.endswith('[s ') or prev.endswith('[t ') or prev.endswith('[note ') or prev.endswith('\\mbox{')
                    or 'Q' in prev[-4:])

    def write(self, foreign, xr):
        d = self.d
        self.subslots = []
        self.nw = d['nw'] and 'amsmath' in self.pk
        w = {'enum': 0, 'float': False, 'top': True, 'par': True}
        pre = ['\\documentclass{%s}\n' % d['cls']] + ['\\usepackage{%s}\n' % p for p in PKGS if p in self.pk]
        if xr:
            pre.append('\\usepackage{xr}\n' + ''.join(xr))
        pre.append('\\newtheorem{thm}{Theorem}\\newtheorem{lem}[thm]{Lemma}\\newtheorem{prop}{Prop}[section]\n')
        if 'amsthm' in self.pk:
            pre.append('\\newtheorem*{rem}{Remark}\n')
        if self.nw:
            pre.append('\\numberwithin{equation}{section}\n')
        pre.append('\\newcommand{\\lab}[1]{\\label{#1}}\\newcommand{\\twice}[1]{#1#1}\\newenvironment{myenv}{\\begin{quote}}{\\end{quote}}\n'
                   '\\def\\empty{}\n\\begin{document}\n')
        self.slot()
        tree = d['tree']
        cur = None
        if d['cls'] != 'article':
            cur = self.n_sec(['sec', 0, False, 1], None, w)[0]
        elif d['seed'] % 4:
            cur = self.n_sec(['sec', 1, False, 1], None, w)[0]
        self.n_bib('start')
        self.nodes(tree, cur, w)
        self.slot()
        self.n_bib('end')
        self.refs(foreign)
        src = ''.join(pre) + ''.join(self.out) + '\n\\end{document}\n'
        files = {k: ''.join(v) + '%\n' for k, v in self.files.items()}
        return src, files


RESETS = {'section': ['chapter'], 'subsection': ['section'], 'subsubsection': ['subsection'], 'paragraph': ['subsubsection'],
          'equation': ['chapter'], 'figure': ['chapter'], 'table': ['chapter'], 'prop': ['section']}
RESETS_NW = dict(RESETS, equation=['section'])


class Rand:
    """A small generator of numbers, so that a plan stays valid when parts of it are removed."""

    def __init__(self, seed):
        self.s = seed * 2 + 1

    def next(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.s >> 33) % n


# ------------------------------------------------------------------ execution
def start(src, name, rname='HTML5', switch=None):
    doc = TeXDocument(config=pt.make_config({'general.renderer': rname}))
    tex = TeX(doc)
    doc.userdata['jobname'] = name
    doc.userdata['working-dir'] = os.getcwd()
    if switch is not None:
        class switchhere(Command):
            def invoke(self, tex):
                switch()
                return []
        doc.context.addGlobal('switchhere', switchhere)
    tex.input(src)
    return doc, tex


def walk(node, seen, out):
    """All nodes in the tree and in attributes, in document order."""
    if id(node) in seen:
        return
    seen.add(id(node))
    if getattr(node, 'nodeType', None) == 3:
        return
    out.append(node)
    attrs = getattr(node, 'attributes', None)
    if attrs:
        for v in list(attrs.values()):
            visit(v, seen, out)
    if node.nodeName.startswith('longtable') and node.title is not None:
        walk(node.title, seen, out)
    for c in list(getattr(node, 'childNodes', None) or []):
        walk(c, seen, out)


def visit(v, seen, out):
    if hasattr(v, 'nodeType'):
        walk(v, seen, out)
    elif isinstance(v, dict):
        for x in v.values():
            visit(x, seen, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            visit(x, seen, out)


def txt(node):
    return None if node is None else ''.join((node if isinstance(node, str) else node.textContent).split())


KIND = {'equation': lambda n: n.nodeName in ('equation', 'multline'),
        'row0': lambda n: n.nodeName in ('eqnarray', 'align', 'gather', 'alignat', 'flalign', 'ArrayRow'),
        'row': lambda n: n.nodeName == 'ArrayRow',
        'item': lambda n: n.nodeName == 'item',
        'caption': lambda n: n.nodeName == 'caption',
        'thm': lambda n: n.nodeName == 'thmenv',
        'subfloat': lambda n: n.nodeName == 'subfloat',
        'target': lambda n: n.nodeName == 'hypertarget'}


def belongs(o, node):
    """Is node the object of the model?"""
    if not hasattr(node, 'nodeType'):
        return False
    if o['kind'] == 'section':
        t = txt(getattr(node, 'title', None))
        return node.nodeName in ('part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph') and t is not None and t.startswith(o['mark'])
    return KIND[o['kind']](node) and txt(node).startswith(o['mark'])


def run_doc(plan, sim):
    jobs = []
    docs = [Doc(d, 'ab'[k]) for k, d in enumerate(plan['docs'])]
    # what other documents left behind; written by other lives of the same programs
    foreign = [{} for _ in docs]
    xr = [[] for _ in docs]
    restore = [[] for _ in docs]
    for i, (how, which, state, s) in enumerate(plan['prior']):
        for k in range(len(docs)):
            f = prior(sim, plan['docs'][k], k, i, how, which, state, s)
            if f is None:
                continue
            name, labels = f
            if how == 'restore':
                restore[k].append(name + '.paux')
            else:
                prefix = 'X-' if how == 'xrp' else ''
                xr[k].append('\\externaldocument%s{%s}\n' % ('[%s]' % prefix if prefix else '', name))
                labels = {prefix + l: v for l, v in labels.items()}
            if how == 'restore':
                foreign[k] = dict(foreign[k], **{l: v for l, v in labels.items()})
            else:
                xr[k].append(labels)
    for k, dd in enumerate(docs):
        for x in xr[k][1::2]:
            foreign[k] = dict(foreign[k], **x)
        src, files = dd.write(foreign[k], xr[k][0::2])
        for name, content in files.items():
            with open(name, 'w', encoding='utf-8') as fh:
                fh.write(content)
        jobs.append(src)
    if plan['junk']:
        src = jobs[0]
        at = src.index('\\begin{document}')
        cut = at + plan['junk'] * max(1, len(src) - at) // 1000
        sim.fault('document that breaks off')
        try:
            start(src[:cut], 'junk')[1].parse()
        except Exception:
            sim.probe('document that breaks off: exception')
    results = [None] * len(jobs)

    def work(k):
        try:
            sw = None
            if baton is not None:
                with baton.cond:
                    baton.wait(k)
                sw = lambda: baton.switch(k)
            src = jobs[k]
            if sw is not None:
                head, body = src.split('\\begin{document}', 1)
                paras = body.split('\n\n')
                src = head + '\\begin{document}' + '\n\n\\switchhere '.join(paras)
            doc, tex = start(src, 'job%d' % k, switch=sw)
            for f in restore[k]:
                doc.context.restore(f, 'HTML5')
            tex.parse()
            results[k] = doc
        except BaseException as e:
            results[k] = e
        finally:
            if baton is not None:
                baton.done(k)
    baton = None
    if len(jobs) == 1:
        work(0)
    else:
        baton = Baton(plan['sched'], len(jobs))
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if baton.switches:
            sim.fault('switch to another document between two tokens', baton.switches)
    for k, dd in enumerate(docs):
        try:
            if isinstance(results[k], BaseException):
                def again():
                    raise results[k]
                sim.code('exception', again)
            judge(sim, k, dd, results[k], foreign[k])
        except Violation as v:
            v.msg += '\n' + jobs[k][:2500]
            raise


def prior(sim, d, k, i, how, which, state, s):
    """Saves the label data of another document; returns its name and the labels it holds."""
    name = 'old%d%d' % (k, i)
    fn = name + '.paux'
    if state == 'missing':
        sim.fault('label data is missing')
        return name, {}
    if which == 'own':
        labels = ['ext%d-%d' % (i, j) for j in range(1 + s % 3)]
        src = ''.join('\\section{E%d}\\label{%s}' % (j, l) for j, l in enumerate(labels))
        src = '\\documentclass{article}\\begin{document}%s\\end{document}' % src
    else:
        # an earlier document that uses the same labels for something else
        dd = Doc(d, 'p')
        dd.write({}, [])
        labels = sorted(dd.labels)
        if which == 'subset':
            labels = [l for j, l in enumerate(labels) if (j + s) % 3 == 0]
        src = '\\documentclass{article}\\begin{document}%s\\end{document}' % ''.join(
            '\\section{S%d}\\label{%s}' % (j, l) for j, l in enumerate(labels))
        sim.fault('label data of a document with the same labels')
    doc, tex = start(src, name)
    tex.parse()
    for n in walked(doc):
        if n.nodeName == 'section':
            # stands for the renderer, which turns these attributes into strings
            n.url = 'u%s.html' % ''.join(n.ref.textContent)
            for a in n.refAttributes:
                v = getattr(n, a, None)
                if hasattr(v, 'textContent') and not isinstance(v, str):
                    setattr(n, a, ''.join(list(v.textContent)))
    sim.code('exception', doc.context.persist, fn, 'HTML5')
    if not os.path.exists(fn):
        raise Violation('exception', 'label data was not saved')
    got = {l: str(j + 1) for j, l in enumerate(labels)}
    if state != 'ok':
        sim.fault('label data is damaged')
        with open(fn, 'rb') as fh:
            data = fh.read()
        if state == 'cut':
            data = data[:len(data) * (s % 100) // 100]
        elif state == 'empty':
            data = b''
        else:
            at = s * 7 % len(data)
            data = data[:at] + bytes([data[at] ^ (1 << s % 8)]) + data[at + 1:]
        with open(fn, 'wb') as fh:
            fh.write(data)
        got = {}
    return name, got


def walked(doc):
    out = []
    walk(doc, set(), out)
    return out


def number(node):
    if isinstance(node, dict):
        ref = node.get('ref')
    else:
        ref = node.ref
    return None if ref is None else ''.join(str(ref if isinstance(ref, str) else ref.textContent).split())


def judge(sim, k, dd, doc, foreign):
    nodes = walked(doc)
    tag = 'document %d' % k
    ctx = doc.context
    inside = {id(n) for n in nodes}
    targets = {}
    for l, o in dd.labels.items():
        cand = [n for n in nodes if belongs(o, n)]
        sim.check(cand, 'labelled', lambda: '%s: the object of label %r (%s %s) is not in the document' % (tag, l, o['kind'], o['mark']))
        node = ctx.labels.get(l)
        sim.check(node is not None, 'labelled', lambda: '%s: label %r is not registered' % (tag, l))
        sim.check(any(n is node for n in cand), 'labelled', lambda: '%s: label %r is attached to %s %r instead of %s %s' % (
            tag, l, getattr(node, 'nodeName', node), txt(node)[:40] if hasattr(node, 'nodeName') else '', o['kind'], o['mark']))
        targets[l] = node
        if len(o['labels']) == 1:
            sim.check(node.id == l, 'identifier', lambda: '%s: the identifier of the object of label %r is %r' % (tag, l, node.id))
        else:
            sim.check(node.id in o['labels'], 'identifier', lambda: '%s: the identifier of the object of labels %r is %r' % (
                tag, o['labels'], node.id))
        if o['number'] is not False:
            got = sim.code('exception', number, node)
            sim.check(got == o['number'], 'number', lambda: '%s: the number of %s %s (label %r) is %r, expected %r' % (
                tag, o['kind'], o['mark'], l, got, o['number']))
    # distinct labels of distinct objects give distinct identifiers
    ids = {}
    for l, node in targets.items():
        other = ids.setdefault(node.id, node)
        sim.check(other is node, 'identifier', lambda: '%s: two objects have the identifier %r' % (tag, node.id))
    found = {}
    early = late = 0
    for n in nodes:
        if n.nodeName not in HOWS:
            continue
        l = n.attributes.get('label')
        l = None if l is None else str(l).strip()
        found[(n.nodeName, l)] = found.get((n.nodeName, l), 0) + 1
        got = n.idref.get('label')
        if l in targets:
            sim.check(got is targets[l], 'resolution', lambda: '%s: \\%s{%s} is resolved to %s (%r), the label is attached to %s %s' % (
                tag, n.nodeName, l, getattr(got, 'nodeName', got), getattr(got, 'id', None), dd.labels[l]['kind'], dd.labels[l]['mark']))
        elif l in foreign:
            sim.check(got is not None and id(got) not in inside, 'resolution', lambda: '%s: \\%s{%s} is resolved to an object of this '
                      'document, the label is in another one' % (tag, n.nodeName, l))
            sim.check(number(got) == foreign[l], 'restored', lambda: '%s: \\%s{%s} has the number %r, in the other document it is %r' % (
                tag, n.nodeName, l, number(got), foreign[l]))
        else:
            sim.check(got is None or not isinstance(got, dict) and id(got) not in inside and got.parentNode is None and number(got) is None,
                      'dangling', lambda: '%s: \\%s{%s} is resolved to %s although there is no such label' % (
                          tag, n.nodeName, l, got.nodeName))
            sim.fault('reference to a label that does not exist')
    want = {}
    for u in dd.uses:
        want[u] = want.get(u, 0) + 1
    for u, c in want.items():
        sim.check(found.get(u, 0) >= c, 'references', lambda: '%s: %d references \\%s{%s} in the document, written were %d' % (
            tag, found.get(u, 0), u[0], u[1], c))
    for l in ctx.labels:
        sim.check(l in dd.labels or l in foreign, 'labels', lambda: '%s: label %r is not in the document' % (tag, l))
    # citations
    got = {}
    for n in nodes:
        if n.nodeName != 'cite':
            continue
        keys = tuple(str(x) for x in n.attributes['bibkeys'])
        note = None if n.attributes['text'] is None else txt(n.attributes['text'])
        got[(keys, note)] = got.get((keys, note), 0) + 1
        items = sim.code('exception', lambda: list(n.bibitems))
        want = [x for x in keys if x in dd.bib]
        sim.check([x.id for x in items] == want, 'citation', lambda: '%s: the citation of %r has the items %r, expected %r' % (
            tag, keys, [x.id for x in items], want))
        for x in items:
            sim.check(id(x) in inside and txt(x).startswith(dd.bib[x.id][0]), 'citation', lambda: '%s: %r is resolved to item %r' % (tag, x.id, txt(x)[:30]))
        if want:
            shown = '[%s%s]' % (','.join(dd.bib[x][1] for x in want), ',' + note if note else '')
            c = sim.code('exception', lambda: txt(n.citation()))
            sim.check(c == shown, 'citation', lambda: '%s: the citation of %r is printed as %r, expected %r' % (tag, keys, c, shown))
        if len(want) < len(keys):
            sim.fault('citation of an entry that does not exist')
        sim.probe('citation')
    for c in set(dd.cites):
        sim.check(got.get(c, 0) >= dd.cites.count(c), 'references', lambda: '%s: %d citations %r in the document, written were %d' % (
            tag, got.get(c, 0), c, dd.cites.count(c)))
    # order of labels and references
    labs = {}
    pos = 0
    for i, n in enumerate(nodes):
        if n.nodeName in ('label', 'lab'):
            labs[str(n.attributes.get('label')).strip()] = i
    for i, n in enumerate(nodes):
        if n.nodeName in HOWS:
            l = str(n.attributes.get('label')).strip()
            if l in labs:
                if i < labs[l]:
                    early += 1
                else:
                    late += 1
    for kind, c in dd.faults.items():
        sim.fault(kind, c)
    for kind, c in dd.kinds.items():
        sim.probe('object ' + kind, c)
    sim.probe('reference before its label', early)
    sim.probe('reference after its label', late)
    sim.state([dd.seq, sorted(foreign)[:4]])
    sim.ev('doc', k, sorted((l, dd.labels[l]['mark'], str(number(t))) for l, t in targets.items()),
           sorted((str(a), c) for a, c in found.items()), early, late)
    if early >= 2 and late >= 2 and sim.faults:
        sim.nontrivial = True


# ------------------------------------------------------------------ the context API
def gen_api(rng, tier):
    n = rng.choice([10, 20, 40, 70] if tier == 'quick' else [20, 60, 150, 300])
    ndocs = rng.choice([1, 1, 2])
    ops = []
    nl = rng.choice([2, 4, 8])
    for _ in range(n):
        r = rng.random()
        d = rng.randrange(ndocs)
        if r < .2:
            op = ['number', rng.randrange(5)]
        elif r < .45:
            op = ['label', rng.randrange(nl), rng.choice([0, 0, 0, 1])]
        elif r < .8:
            op = ['ref', rng.randrange(6), rng.choice(['label', 'label', 'to', 'from']), rng.randrange(nl)]
        elif r < .86:
            op = ['restore', rng.randrange(3)]
        elif r < .9:
            op = ['persist', rng.randrange(3), rng.choice(['ok', 'ok', 'cut', 'flip'])]
        elif r < .94:
            op = ['empty', rng.randrange(3)]
        elif r < .97:
            op = ['push', rng.randrange(3)]
        else:
            op = ['pop']
        ops.append([d] + op)
    return {'kind': 'api', 'ndocs': ndocs, 'ops': ops}


def run_api(plan, sim):
    docs = []
    ms = []
    for _ in range(plan['ndocs']):
        doc = TeXDocument(config=pt.make_config({}))
        tex = TeX(doc)
        tex.input('\\documentclass{article}\\begin{document}')
        tex.parse()
        docs.append(doc)
        ms.append({'cur': None, 'own': {}, 'foreign': {}, 'refs': {}, 'objs': [], 'res': [doc.createElement('ref') for _ in range(6)],
                   'stack': [], 'nums': {}})
    files = {}
    early = late = 0
    for op in plan['ops']:
        d = op[0]
        if d >= len(docs):
            continue
        doc, m = docs[d], ms[d]
        ctx = doc.context
        what = op[1]
        done = True
        if what == 'number':
            kind = ['section', 'equation', 'caption', 'item', 'subsection'][op[2]]
            node = doc.createElement(kind if kind != 'caption' else 'equation')
            node.ref = 'r%d' % len(m['objs'])
            m['objs'].append(node)
            ctx.currentlabel = node
            m['cur'] = node
        elif what == 'label':
            l = 'k%d' % op[2]
            node = m['cur']
            if l in m['own']:
                done = False
            else:
                if op[3]:
                    node = doc.createElement('figure')
                    node.ref = 'f%d' % len(m['objs'])
                    m['objs'].append(node)
                    sim.code('exception', ctx.label, l, node)
                elif m['cur'] is None:
                    sim.fault('label without an object')
                    sim.code('exception', ctx.label, l)
                else:
                    sim.code('exception', ctx.label, ' %s ' % l if op[2] % 2 else l)
                if node is not None:
                    m['own'][l] = node
                    sim.check(node.id == l, 'identifier', lambda: 'after label(%r) the identifier is %r' % (l, node.id))
                    if any(v[1] == l for v in m['refs'].values()):
                        early += 1
        elif what == 'ref':
            l = 'k%d' % op[4]
            obj = m['res'][op[2]]
            sim.code('exception', ctx.ref, obj, op[3], ' %s' % l if op[4] % 2 else l)
            m['refs'][(op[2], op[3])] = (obj, l)
            late += l in m['own']
        elif what == 'persist':
            fn = 'f%d.paux' % op[2]
            for i, n in enumerate(m['objs']):
                n.title = 't'
                n.url = 'u%d' % i
            with_ = {l: n.ref for l, n in m['own'].items()}
            old = files.get(fn)
            sim.code('exception', ctx.persist, fn, 'HTML5')
            if op[3] != 'ok':
                sim.fault('label data is damaged')
                with open(fn, 'rb') as fh:
                    data = fh.read()
                data = data[:len(data) // 2] if op[3] == 'cut' else data[:9] + bytes([data[9] ^ 4]) + data[10:]
                with open(fn, 'wb') as fh:
                    fh.write(data)
                with_ = {}
            files[fn] = with_
        elif what == 'restore':
            fn = 'f%d.paux' % op[2]
            if fn not in files:
                sim.fault('label data is missing')
            sim.code('exception', ctx.restore, fn, 'HTML5')
            got = {l: n for l, n in files.get(fn, {}).items()}
            # only what comes before the document's own labels
            m['foreign'] = dict(m['foreign'], **got)
            if any(l in m['own'] for l in got):
                sim.fault('label data of a document with the same labels')
                for l in got:
                    if l in m['own']:
                        done = 'own labels were known'
        elif what == 'empty':
            sim.fault('label without a name')
            if op[2] == 0:
                sim.code('exception', ctx.label, ['', '  '][len(m['objs']) % 2])
            else:
                obj = doc.createElement('ref')
                sim.code('exception', ctx.ref, obj, 'label', ' ')
                sim.check(obj.idref.get('label') is None, 'dangling', 'a reference without a name is resolved')
        elif what == 'push':
            obj = None
            if op[2]:
                obj = doc.createElement(['', 'equation', 'enumerate'][op[2]])
                obj.macroMode = Command.MODE_BEGIN
            ctx.push(obj)
            m['stack'].append((obj, m['cur']))
        elif what == 'pop':
            if not m['stack']:
                done = False
            else:
                obj, cur = m['stack'].pop()
                if obj is None:
                    ctx.pop()
                else:
                    end = doc.createElement(obj.nodeName)
                    end.macroMode = Command.MODE_END
                    ctx.pop(end)
                    m['cur'] = cur
        for i, mm in enumerate(ms):
            api_check(sim, docs[i], mm, op)
        sim.ev(op, done)
        sim.state([sorted(m['own']), sorted(m['foreign']), sorted((a, b, v[1]) for (a, b), v in m['refs'].items())])
    if early >= 2 and late >= 2 and sim.faults:
        sim.nontrivial = True


def api_check(sim, doc, m, op):
    ctx = doc.context
    for l, node in m['own'].items():
        sim.check(ctx.labels.get(l) is node, 'labelled', lambda: 'after %r: label %r is attached to another object' % (op, l))
    for (i, name), (obj, l) in m['refs'].items():
        got = obj.idref.get(name)
        if l in m['own']:
            sim.check(got is m['own'][l], 'resolution', lambda: 'after %r: reference %d (%s) to %r is resolved to %s %r' % (
                op, i, name, l, getattr(got, 'nodeName', got), getattr(got, 'id', None)))
        elif l in m['foreign']:
            # restored before or after the reference was made
            sim.check(not any(got is n for n in m['objs']), 'resolution', lambda: 'after %r: reference %d (%s) to %r is resolved to an '
                      'object of this document' % (op, i, name, l))
        else:
            sim.check(got is None or not any(got is n for n in m['objs']) and number(got) is None, 'dangling', lambda: (
                'after %r: reference %d (%s) to %r is resolved although there is no such label' % (op, i, name, l)))


def execute(plan, sim):
    logging.disable(logging.CRITICAL)
    if plan['kind'] == 'api':
        run_api(plan, sim)
    else:
        run_doc(plan, sim)


# ------------------------------------------------------------------ minimisation
def shrink(plan):
    if plan['kind'] == 'api':
        yield from shrink_lists(plan, [('ops',)])
        if plan['ndocs'] > 1:
            yield replace_at(plan, ('ndocs',), 1)
        return
    if len(plan['docs']) > 1:
        yield replace_at(plan, ('docs',), plan['docs'][:1])
        yield replace_at(plan, ('docs',), plan['docs'][1:])
    if plan['junk']:
        yield replace_at(plan, ('junk',), 0)
    yield from shrink_lists(plan, [('prior',)])
    for k, d in enumerate(plan['docs']):
        yield from shrink_lists(plan, [('docs', k, 'tree'), ('docs', k, 'pkgs')])
        if d['cls'] != 'article':
            yield replace_at(plan, ('docs', k, 'cls'), 'article')
        if d['bib'][0] != 'none':
            yield replace_at(plan, ('docs', k, 'bib'), ['none', []])
        yield from shrink_lists(plan, [('docs', k, 'bib', 1)])
        if d['nw']:
            yield replace_at(plan, ('docs', k, 'nw'), False)
        for n in (0, 1, d['nref'] // 2, d['nref'] - 1):
            if 0 <= n < d['nref']:
                yield replace_at(plan, ('docs', k, 'nref'), n)
        yield from shrink_nodes(plan, ('docs', k, 'tree'), d['tree'])


def shrink_nodes(plan, path, nodes):
    for i, n in enumerate(nodes):
        p = path + (i,)
        subs = {'file': [1], 'include': [1], 'float': [2, 4], 'thm': [3], 'box': [2]}.get(n[0], [])
        for j in subs:
            yield from shrink_lists(plan, [p + (j,)])
            yield from shrink_nodes(plan, p + (j,), n[j])
        if n[0] in ('box', 'file', 'include'):
            yield replace_at(plan, path, nodes[:i] + n[subs[0]] + nodes[i + 1:])
        if n[0] == 'enum':
            yield from shrink_lists(plan, [p + (1,)])
            for j, it in enumerate(n[1]):
                yield from shrink_lists(plan, [p + (1, j)])
                yield from shrink_nodes(plan, p + (1, j), it)
        if n[0] == 'rows':
            yield from shrink_lists(plan, [p + (2,)])
