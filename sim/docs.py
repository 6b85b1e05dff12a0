r"""Generated documents, their builds and the scanning of the output, shared by C13 and C14.

A document is a list of items (sections and body items).  `Doc` writes the source and at the same
time records where each marked piece of text belongs: Q<n>Q body text, F<n>F footnote text,
M<n>M text in math.  Nothing of it is read from plasTeX.
"""
import html.parser
import logging
import marshal
import os
import re
import tempfile

import jinja2

from sim import pt, seams
from sim.wraps import BLOCK, INLINE, NOTES, PKGS

CLASSES = ['article', 'article', 'report', 'book']
RENDERERS = [('HTML5', 'default'), ('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default'), ('XHTML', 'default'),
             ('XHTML', 'minimal'), ('XHTML', 'plain'), ('XHTML', 'python'), ('HTML5', 'fragment')]
NAMES = ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
# titles; %s is a word that appears in this title only
TITLES = ['%s', '%s', 'On %s', '\\emph{%s} it', '%s: a b/c? "d"', '%s \\& more', '\xc9t\xe9 %s', 'The $x^2$ %s', 'A B C D E F %s', 'Same', 'Same',
          '%s $<$ b', "it's %s ``q''", '%s\\_x', 'dot. %s.html', '\\textbf{a \\emph{b}} %s', '%s -- c', '-', '%s, [b] (c)', 'index', 'Same.html', 'index.html', 'sect0001']
LABELS = ['l%s', 'sec:%s', 'a.b%s', 'Foo_%s', 'x y%s', 'd-%s', 'k+%s', '\xe9%s', 'q%s!', "it's%s", 'a&b%s', 'p%s"', '%sx', 'F%s', 'IDXGROUP.%s', 'c%s']
# labels that could be taken for something else
# sort keys of index entries
SORTKEYS = ['', 'é', 'λ', '日本', '1', '_', 'A', 'b', '"!', '+x', '"@', 'Ω', '\\textit{c}', ' z', '«', 'ß']
ODDLABELS = ['A', 'K', 'M', 'X', 'footnotes', 'doc_title', 'toc-toggle', 'index', 'IDXGROUP.X', 'none', 'c0', 'c2', 'fig:1', '1', 'a1', 'document', 'label']


# ------------------------------------------------------------------ faster loading of templates
_compiled = {}
_compile = jinja2.Environment.compile


def _cached(self, source, name=None, filename=None, raw=False, defer_init=False):
    """Compiling a template is a pure function of its source and the settings of its environment."""
    if not isinstance(source, str) or raw:
        return _compile(self, source, name, filename, raw, defer_init)
    k = (source, name, filename, defer_init, self.trim_blocks, self.lstrip_blocks, self.optimized, self.autoescape is True,
         self.block_start_string, self.variable_start_string, tuple(sorted(self.filters)), tuple(sorted(self.tests)),
         tuple(sorted(self.extensions)))
    if k not in _compiled:
        _compiled[k] = _compile(self, source, name, filename, raw, defer_init)
    return _compiled[k]


jinja2.Environment.compile = _cached


def warm():
    """Compiles the templates once, in a child, before the runs are forked off."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            logging.disable(logging.CRITICAL)
            with tempfile.TemporaryDirectory() as d:
                os.chdir(d)
                with open('t.tex', 'w') as fh:
                    fh.write('\\documentclass{article}\\begin{document}\\section{a}x\\end{document}')
                for rend, theme in sorted(set(RENDERERS)):
                    try:
                        pt.build('t.tex', {'general.renderer': rend, 'general.theme': theme, 'general.copy-theme-extras': False})
                    except Exception:
                        pass
                os.chdir('/')
            with os.fdopen(w, 'wb') as fh:
                fh.write(marshal.dumps(_compiled))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if data:
        _compiled.update(marshal.loads(data))


warm()


# ------------------------------------------------------------------ generation
def gen_doc(rng, tier, opts):
    """opts: features to use"""
    n = rng.choice([6, 12, 20, 32] if tier == 'quick' else [12, 30, 60, 110])
    items = []
    prev = 0
    for _ in range(n):
        r = rng.random()
        if r < .42:
            # mostly regular nesting, sometimes levels are skipped
            level = rng.choice([prev, prev, prev + 1, prev + 1, prev - 1, rng.randrange(-1, 6)])
            level = min(5, max(-1, level))
            prev = level
            items.append(['sec', level, rng.random() < .15, rng.randrange(len(TITLES)), rng.choice([0, 0, 1]), rng.random() < .15])
        elif r < .47:
            items.append(rng.choice([['file', gen_body(rng, 1)], ['appendix'], ['toc']]))
        else:
            items.append(gen_item(rng, 2))
    return {'cls': rng.choice(CLASSES), 'items': items, 'title': rng.random() < .7, 'seed': rng.randrange(1 << 30),
            'bib': rng.choice([0, 0, 1, 3, 3, 12]), 'bibmode': rng.choice([0, 0, 1, 2, 3, 4]), 'index': rng.choice([0, 1, 1]), 'pkgs': [p for p in ('amsmath', 'hyperref', 'amsthm', 'cleveref', 'nameref') if rng.random() < .6] +
            [p for p in PKGS if rng.random() < .15],
            'abstract': rng.random() < .2, 'nref': rng.randrange(12)}


def gen_body(rng, depth):
    return [gen_item(rng, depth) for _ in range(rng.choice([1, 1, 2, 3]))]


def gen_item(rng, depth):
    r = rng.random()
    if r < .5 or depth == 0:
        return ['par', [rng.choice(['q', 'q', 'q', 'fn', 'em', 'ref', 'ref', 'cite', 'idx', 'math', 'url', 'verb', 'dq', 'df', 'brace', 'fnm', 'fnb', 'mb', 'acc', 'br', 'w%d' % rng.randrange(len(INLINE)), 'w%d' % rng.randrange(len(INLINE)), 'n%d' % rng.randrange(len(NOTES))])
                        for _ in range(rng.choice([1, 2, 3, 5]))]]
    if r < .6:
        return ['list', rng.choice(['itemize', 'enumerate', 'description']), [gen_body(rng, depth - 1) for _ in range(rng.choice([1, 2, 3]))], rng.random() < .5]
    if r < .66:
        return ['thm', rng.choice(['thm', 'lem', 'proof']), rng.random() < .5, gen_body(rng, depth - 1)]
    if r < .72:
        return ['box', rng.choice(['quote', 'center', 'minipage', 'quotation', 'brace', 'verse', 'flushright', 'large']), gen_body(rng, depth - 1)]
    if r < .76:
        return ['verbatim', rng.randrange(3)] if rng.random() < .3 else ['wrap', rng.randrange(len(BLOCK))]
    if r < .82:
        return ['eq', rng.choice(['equation', 'equation', '\\[', '$$', 'eqnarray', 'align', 'equation*']), rng.random() < .6]
    if r < .9:
        return ['float', rng.choice(['figure', 'table', 'figure*', 'two', 'wrap', 'long', 'sub', 'target']), rng.random() < .7, gen_body(rng, 0), rng.random() < .2]
    return ['tab', rng.choice(['tabular', 'array', 'tabular']), [[rng.choice(['q', 'q', 'em', 'fn', 'ref', '']) for _ in range(2)] for _ in range(rng.choice([1, 2, 3]))],
            rng.random() < .3]


# ------------------------------------------------------------------ writing
class Doc:
    """math: is text in math kept as text by the renderer?"""

    def __init__(self, plan, math=True):
        self.plan = plan
        self.math = math
        self.pk = set(plan['pkgs'])
        self.n = 0
        self.src = []
        self.files = {}
        self.units = [{'level': -1000, 'mark': None, 'parent': None, 'kind': 'document', 'title': None, 'labels': []}]
        self.unit = 0
        self.seq = []           # (mark, unit, 'body'|'foot')
        self.labels = {}        # label: (kind, mark of the object, number or None, unit)
        self.ctr = {}
        self.refs = []          # positions in src for references: (marker is generated when filled)
        self.fills = {}
        self.app = False
        self.pending = []       # footnote marks whose text is still to come
        self.bib = {}           # key: (mark of the text, what is shown)
        self.index = []         # (term, unit)
        self.entries = {}
        self.bbl = self.aux = None
        self.footmarks = []     # (mark of footnote or None, unit)
        self.reflist = []
        self.dups = []          # (text that occurs in several places, unit)
        self.depth = 0
        self.kinds = set()

    def num(self):
        self.n += 1
        return self.n

    def w(self, s):
        self.src.append(s)

    def q(self):
        m = 'Q%dQ' % self.num()
        self.seq.append((m, self.unit, 'body'))
        return m

    def m(self):
        m = 'M%dM' % self.num()
        if self.math:
            self.seq.append((m, self.unit, 'body'))
        return m

    def foot(self):
        m = 'F%dF' % self.num()
        self.seq.append((m, self.unit, 'foot'))
        return m

    def step(self, c):
        self.ctr[c] = self.ctr.get(c, 0) + 1
        self.resets(c)

    def resets(self, c):
        art = self.plan['cls'] == 'article'
        for x, by in {'section': 'chapter', 'subsection': 'section', 'subsubsection': 'subsection',
                      'equation': None if art else 'chapter', 'figure': None if art else 'chapter', 'table': None if art else 'chapter'}.items():
            if by == c:
                self.ctr[x] = 0
                self.resets(x)

    def the(self, c):
        v = self.ctr.get(c, 0)
        art = self.plan['cls'] == 'article'
        if c == 'chapter':
            return chr(64 + v) if self.app and not art else str(v)
        if c == 'section':
            s = chr(64 + v) if self.app and art else str(v)
            return s if art else '%s.%s' % (self.the('chapter'), s)
        if c == 'subsection':
            return '%s.%s' % (self.the('section'), v)
        if c in ('figure', 'table', 'equation'):
            if art:
                return str(v)
            if self.ctr.get('chapter', 0) == 0 or c == 'equation' and self.plan['cls'] == 'report':
                return None     # not settled here
            return '%s.%s' % (self.the('chapter'), v)
        return str(v)

    def label(self, kind, mark, number, style=0):
        i = self.num()
        lab = LABELS[(i * 5 + self.plan['seed']) % len(LABELS)] % i
        odd = ODDLABELS[(i // 9 * 7 + self.plan['seed']) % len(ODDLABELS)]
        if (i + self.plan['seed']) % 9 == 0 and odd not in self.labels:
            lab = odd
        self.labels[lab] = (kind, mark, number, self.unit)
        return '\\label{%s}' % lab

    # --- items
    def items(self, items):
        for it in items:
            getattr(self, 'i_' + it[0])(it)

    def i_sec(self, it):
        level, star, t, lab, toc = it[1:6]
        if self.plan['cls'] == 'article' and level == 0:
            level = 1
        name = NAMES[level + 1]
        self.kinds.add('s%d' % level)
        while self.units[self.unit]['level'] >= level:
            self.unit = self.units[self.unit]['parent']
        word = 'T%dT' % self.num()
        title = TITLES[t]
        title = title % word if '%s' in title else title
        number = None
        if not star:
            if name in ('chapter', 'section', 'subsection'):
                self.step(name)
                number = self.the(name)
            elif name == 'part':
                self.step('part')
            else:
                self.step(name)
        self.units.append({'level': level, 'mark': word if word in title else None, 'parent': self.unit, 'kind': name, 'title': title,
                           'labels': [], 'number': number, 'star': star})
        self.unit = len(self.units) - 1
        self.w('\n\n\\%s%s%s{%s}' % (name, '*' if star else '', '[short %s]' % word if toc and not star else '', title))
        if lab:
            src = self.label('section', word, number)
            self.units[self.unit]['labels'].append(src[7:-1])
            self.w(src)
        self.w('\n')

    def i_appendix(self, it):
        c = 'section' if self.plan['cls'] == 'article' else 'chapter'
        if self.app:
            return
        self.app = True
        self.ctr[c] = 0
        self.resets(c)
        self.w('\n\n\\appendix\n')
        self.i_sec(['sec', 1 if c == 'section' else 0, False, 0, 1, False])

    def i_toc(self, it):
        self.w('\n\n\\tableofcontents\n\n')

    def i_file(self, it):
        save, self.src = self.src, []
        self.depth += 1
        self.items(it[1])
        self.depth -= 1
        name = 'inc%d' % len(self.files)
        self.files[name + '.tex'] = self.src
        self.src = save
        self.w('\\input{%s}\n' % name)

    def i_par(self, it):
        if self.flowing():
            self.w('\n\n')
        for k in it[1]:
            self.inline(k)
        self.w(' ')

    def flowing(self):
        return self.src and not str(self.src[-1]).endswith(('{', '&', '\\item ', '\\item[x] '))

    def inline(self, k):
        w = self.w
        i = self.num()
        if k == 'q':
            w('%s text ' % self.q())
        elif k == 'em':
            w('\\emph{a \\textbf{%s} b} ' % self.q())
        elif k == 'brace':
            w('{\\itshape %s} ' % self.q())
        elif k == 'mb':
            w('\\mbox{%s} ' % self.q())
        elif k == 'acc':
            w('\\\'e\\"o\\ss{} %s \\& \\%% ' % self.q())
        elif k == 'br':
            w('%s\\\\ %s ' % (self.q(), self.q()))
        elif k == 'verb':
            w('\\verb|a<&%s| ' % self.q())
        elif k == 'url':
            if 'hyperref' in self.pk:
                w('\\href{http://ext.org/%d}{%s} \\url{http://ext.org/u} ' % (i, self.q()))
        elif k == 'dq':
            # the same text in several places
            self.dups.append(('ZqZ', self.unit))
            w('ZqZ ')
        elif k == 'df':
            self.dups.append(('ZfZ', self.unit))
            self.footmarks.append((None, self.unit))
            w('\\footnote{ZfZ} ')
        elif k == 'math':
            w('$a<%s$ ' % self.m())
        elif k in ('fn', 'fnb'):
            f = self.foot()
            self.footmarks.append((f, self.unit))
            mark = 'N%dN' % i
            w('%s\\footnote{%s%s} ' % (mark, f, ' with \\emph{x}' if k == 'fnb' else ''))
            self.reflist.append((mark, 'foot', f, self.unit))
        elif k[0] == 'w' and k[1:].isdigit():
            self.wrap(INLINE[int(k[1:])])
        elif k[0] == 'n' and k[1:].isdigit():
            f = self.foot()
            self.footmarks.append((f, self.unit))
            mark = 'N%dN' % i
            w(mark + NOTES[int(k[1:])].replace('§', f) + ' ')
            self.reflist.append((mark, 'foot', f, self.unit))
        elif k == 'fnm':
            self.pending.append(i)
            mark = 'N%dN' % i
            w('%s\\footnotemark ' % mark)
            self.at = len(self.seq)
            f = self.foot()
            w('\\footnotetext{%s} ' % f)
            self.reflist.append((mark, 'foot', f, self.unit))
        elif k == 'ref':
            mark = 'R%dR' % i
            self.fills[len(self.refs)] = (self.src, len(self.src), mark, self.unit)
            self.refs.append(mark)
            w('')
        elif k == 'cite':
            if self.plan['bib']:
                c = 'c%d' % (i % self.plan['bib'])
                mark = 'C%dC' % i
                cmd = 'cite'
                if self.plan.get('bibmode', 0) >= 2:
                    cmd = ['cite', 'citep', 'citet', 'citealp', 'citealt', 'citeyear', 'citeauthor', 'citeyearpar', 'citep[see][p. 2]', 'Citet', 'citet*'][i % 11]
                    if self.plan['bibmode'] in (2, 4) and cmd in ('citeyear', 'citeauthor', 'citeyearpar'):
                        cmd = 'citep'
                if i % 3 == 2 and self.plan['bib'] > 1:
                    # several entries
                    n = self.plan['bib']
                    c = ','.join('c%d' % ((i + j * [1, 1, 2, n - 1][i // 3 % 4]) % n) for j in range(2 + i // 12 % min(n - 1, 4)))
                w('%s\\%s{%s} ' % (mark, cmd, c))
                self.reflist.append((mark, 'cite', c, self.unit))
        elif k == 'idx':
            if self.plan['index']:
                t = 'X%dX' % i
                style = i % 5
                if self.index and i % 7 == 3:
                    # another place of the same entry
                    t, style = self.index[-1][0], 5
                elif i % 11 == 4:
                    w('\\index{Y%dY|%s{%s}}' % (i, ('see', 'seealso')[i % 2], t))
                entry = [t, 'main!' + t, '%s@%s' % (SORTKEYS[i // 5 % len(SORTKEYS)] or 'key%d' % i, t), t + '|textbf', 'a!b!' + t,
                         self.entries.get(t)][style]
                self.entries[t] = entry
                w('\\index{%s}' % entry)
                self.index.append((t, self.unit, self.seq[-1] if self.seq else None, len(self.seq)))

    def i_list(self, it):
        env, kids, lab = it[1], it[2], it[3]
        self.depth += 1
        self.w('\n\\begin{%s}\n' % env)
        for k, body in enumerate(kids):
            m = self.q()
            self.w('\\item%s %s ' % ('[x]' if env == 'description' else '', m))
            if lab and env == 'enumerate' and self.depth == 1:
                self.w(self.label('item', m, str(k + 1)))
            self.items(body)
        self.w('\n\\end{%s}\n' % env)
        self.depth -= 1

    def i_thm(self, it):
        env, lab, body = it[1], it[2], it[3]
        if env == 'proof' and 'amsthm' not in self.pk:
            env = 'thm'
        self.depth += 1
        self.w('\n\\begin{%s}' % env)
        if env != 'proof':
            self.step('thm')
        m = self.q()
        if lab and env != 'proof':
            self.w(self.label('thm', m, self.the('thm')))
        self.w(' %s ' % m)
        self.items(body)
        self.w('\\end{%s}\n' % env)
        self.depth -= 1

    def i_box(self, it):
        env, body = it[1], it[2]
        o, c = {'minipage': ('\\begin{minipage}{4cm} ', '\\end{minipage}'), 'brace': ('{', '}'), 'large': ('{\\large ', '}')}.get(
            env, ('\\begin{%s} ' % env, '\\end{%s}' % env))
        self.depth += 1
        self.w('\n' + o)
        self.w('%s ' % self.q())
        self.items(body)
        self.w(c + '\n')
        self.depth -= 1

    def i_verbatim(self, it):
        if it[1] == 0:
            self.w('\n\\begin{verbatim}\n%s <b> & \\x\n%s\n\\end{verbatim}\n' % (self.q(), self.q()))
        else:
            self.w('\n\\begin{quote}\\begin{verbatim}\n%s\n\\end{verbatim}\\end{quote}\n' % self.q())

    def wrap(self, wrap):
        pkg, text = wrap
        if pkg not in self.pk and pkg not in '-5':
            pkg, text = '-', '§'
        if '\\caption' in text:
            self.step('table' if '{table}' in text or 'longtable' in text else 'figure')
        if '\\begin{thm}' in text:
            self.step('thm')
        text = text.replace('hypertarget{ht}', 'hypertarget{hw%d}' % self.num())
        out = []
        for k, x in enumerate(text.split('§')):
            if k:
                out.append(self.m() if pkg == '5' else self.q())
            out.append(x)
        self.w(''.join(out) + ' ')

    def i_wrap(self, it):
        pkg, text = BLOCK[it[1]]
        if self.depth and '{figure}' in text or '{table}' in text or 'longtable' in text or 'wrapfig' in text:
            pkg = 'no'
        self.w('\n')
        self.wrap((pkg, text))
        self.w('\n')

    def i_eq(self, it):
        env, lab = it[1], it[2]
        if env in ('align', 'equation*') and 'amsmath' not in self.pk:
            env = 'eqnarray'
        if env == '\\[':
            self.w('\\[ %s < 1 \\]' % self.m())
        elif env == '$$':
            self.w('$$ %s $$' % self.m())
        elif env == 'equation*':
            self.w('\\begin{equation*}%s\\end{equation*}' % self.m())
        elif env == 'equation':
            self.step('equation')
            m = self.m()
            self.w('\\begin{equation}%s %s = 1\\end{equation}' % (self.label('equation', m, self.the('equation')) if lab else '', m))
        else:
            self.w('\\begin{%s}' % env)
            for r in range(2):
                self.step('equation')
                m = self.m()
                self.w('%s &= 1 %s%s' % (m, self.label('row', m, self.the('equation')) if lab and (r or lab) else '', '' if r else '\\\\ '))
            self.w('\\end{%s}' % env)
        self.w(' ')

    def i_float(self, it):
        env, lab, body, first = it[1], it[2], it[3], it[4]
        if self.depth:
            return
        if env not in ('figure', 'table', 'figure*'):
            return self.special(env, lab)
        self.depth += 1
        c = 'table' if env == 'table' else 'figure'
        self.w('\n\\begin{%s}' % env)
        self.step(c)
        if first:
            m = self.q()
            self.w('\\caption{%s a}' % m)
            if lab:
                self.w(self.label('caption', m, self.the(c)))
            self.items(body)
        else:
            self.items(body)
            m = self.q()
            self.w('\\caption{%s b}' % m)
            if lab:
                self.w(self.label('caption', m, self.the(c)))
        self.w('\\end{%s}\n' % env)
        self.depth -= 1

    def special(self, env, lab):
        def cap(c, cmd='\\caption'):
            self.step(c)
            m = self.q()
            self.w('%s{%s cap}%s' % (cmd, m, self.label('caption', m, self.the(c)) if lab else ''))
        if env == 'two':
            self.w('\n\\begin{figure}')
            for _ in range(2):
                self.w('\\begin{minipage}{3cm}%s' % self.q())
                cap('figure')
                self.w('\\end{minipage}')
            self.w('\\end{figure}\n')
        elif env == 'wrap' and 'wrapfig' in self.pk:
            self.w('\n\\begin{wrapfigure}{r}{3cm}%s' % self.q())
            cap('figure')
            self.w('\\end{wrapfigure}\n')
        elif env == 'long' and 'longtable' in self.pk:
            self.w('\n\\begin{longtable}{cc}')
            cap('table')
            self.w('\\\\ %s & %s \\\\ \\end{longtable}\n' % (self.q(), self.q()))
        elif env == 'sub' and 'subfig' in self.pk:
            self.w('\n\\begin{figure}')
            n = self.ctr.get('figure', 0)
            self.step('figure')
            subs = []
            for k in range(2):
                m = self.q()
                the = self.the('figure')
                self.w('\\subfloat[cap]{%s%s}' % (m, self.label('subfloat', m, the and the + 'ab'[k]) if lab else ''))
            self.ctr['figure'] = n
            cap('figure')
            self.w('\\end{figure}\n')
        elif env == 'target' and 'hyperref' in self.pk:
            m = self.q()
            i = self.num()
            self.labels['ht%d' % i] = ('target', m, None, self.unit)
            self.w('\\hypertarget{ht%d}{%s} ' % (i, m))

    def i_tab(self, it):
        env, rows, tall = it[1], it[2], it[3]
        math = env == 'array'
        self.depth += 1
        self.w('\n\n\\begin{center}' if tall else '\n\n')
        self.w('$\\begin{array}{cc}' if math else '\\begin{tabular}{|c|c|}\\hline ')
        for r in rows:
            for k, cell in enumerate(r):
                if k:
                    self.w(' & ')
                if math:
                    self.w('%s' % self.m())
                elif cell:
                    self.inline(cell)
            self.w(' \\\\ ')
        self.w('\\end{array}$' if math else '\\end{tabular}')
        self.w('\\end{center}\n\n' if tall else '\n\n')
        self.depth -= 1

    def fill(self):
        """Chooses the targets of the references, once all labels are known."""
        labs = sorted(self.labels)
        s = self.plan['seed']
        for k, (out, at, mark, unit) in self.fills.items():
            s = (s * 1103515245 + 12345) % (1 << 31)
            q = s >> 8
            if not labs or q % 13 == 0:
                lab = 'ghost%d' % (q % 3)
            else:
                lab = labs[q % len(labs)]
            how = '\\ref{%s}'
            if 'hyperref' in self.pk and q % 5 == 0:
                how = ['\\hyperref[%s]{here}', '\\autoref{%s}', '\\hyperref[%s]{here}', '\\hyperlink{%s}{here}'][q // 5 % 4]
            elif 'cleveref' in self.pk and q % 4 == 0:
                how = ['\\cref{%s}', '\\Cref{%s}'][q // 4 % 2]
            elif 'nameref' in self.pk and q % 4 == 1:
                how = '\\nameref{%s}'
            elif q % 7 == 0:
                how = '\\pageref{%s}'
            elif 'amsmath' in self.pk and q % 2 == 0 and lab in self.labels and self.labels[lab][0] in ('equation', 'row'):
                how = '\\eqref{%s}'
            out[at] = '%s%s ' % (mark, how % lab)
            self.reflist.append((mark, how, lab, unit))

    def write(self):
        p = self.plan
        pre = '\\documentclass{%s}\n' % p['cls'] + ''.join('\\usepackage{%s}\n' % x for x in ['amsmath', 'amsthm', 'hyperref', 'nameref', 'cleveref'] + PKGS if x in self.pk)
        pre += '\\newcommand{\\mycmd}[1]{(#1)}\\newcommand{\\myopt}[2][o]{#2#1}\\newenvironment{myenv}{\\begin{quote}a}{b\\end{quote}}\\def\\mydef#1#2{#2#1}\n'
        if p['bib'] and p.get('bibmode', 0) >= 2:
            pre += '\\usepackage[%s]{natbib}\n' % ({2: 'numbers', 3: 'authoryear', 4: 'numbers,sort&compress'}[p['bibmode']])
        if p['index']:
            pre += '\\usepackage{makeidx}\\makeindex\n'
        pre += '\\newtheorem{thm}{Theorem}\\newtheorem{lem}[thm]{Lemma}\n'
        if p['title']:
            pre += '\\title{The Title}\\author{Some One}\\date{May 1}\n'
        pre += '\\begin{document}\n'
        if p['title']:
            self.w('\\maketitle\n')
        if p['abstract'] and p['cls'] != 'book':
            self.w('\\begin{abstract}%s abs\\end{abstract}\n' % self.q())
        self.w('%s start. ' % self.q())
        self.items(p['items'])
        if p['bib']:
            mode = p.get('bibmode', 0)
            natbib = mode >= 2
            src = self.src
            if mode:
                level = 0 if p['cls'] != 'article' else 1
                self.units.append({'level': level, 'mark': None, 'parent': self.printed(level), 'kind': 'bibliography', 'title': 'Bibliography', 'labels': []})
                self.unit = len(self.units) - 1
                self.w('\n\n\\bibliography{lit}\n\n')
                if self.num() % 3 == 0:
                    lab = 'bi%d' % self.num()
                    self.labels[lab] = ('section', None, None, self.unit)
                    self.w('\\label{%s}' % lab)
                self.src = []
            self.w('\n\n\\begin{thebibliography}{9}\n')
            for i in range(p['bib']):
                m = self.q()
                self.bib['c%d' % i] = (m, str(i + 1) if natbib else 'B1' if i == 1 else str(i or 1))
                lab = ''
                if i != 1 and p['seed'] % 3 == i // 2:
                    lab = self.label('bibitem', m, str(i + 1 if natbib else i or 1))
                self.w('\\bibitem%s{c%d}%s %s book\n' % ('[A%d(%d)]' % (i, 2000 + i) if natbib else '[B%d]' % i if i == 1 else '', i, lab, m))
            self.w('\\end{thebibliography}\n')
            if mode:
                self.bbl = ''.join(self.src)
                self.src = src
            if natbib:
                self.aux = '\\relax\n' + ''.join('\\bibcite{c%d}{{%d}{%d}{{A%d}}{{A%d, B}}}\n' % (i, i + 1, 2000 + i, i, i) for i in range(p['bib']))
        if p['index']:
            level = 1 if p['cls'] == 'article' else 0
            self.units.append({'level': level, 'mark': None, 'parent': self.printed(level), 'kind': 'printindex', 'title': 'Index', 'labels': []})
            self.w('\n\n\\printindex\n')
        self.fill()
        return pre + ''.join(self.src) + '\n\\end{document}\n', {k: ''.join(v) for k, v in self.files.items()}

    def printed(self, level):
        u = self.unit
        while self.units[u]['level'] >= level:
            u = self.units[u]['parent']
        return u

    # --- expectations
    def owner(self, unit, split):
        """The unit whose file the text of `unit` is in."""
        while unit and self.units[unit]['level'] > split:
            unit = self.units[unit]['parent']
        return unit

    def owners(self, split):
        return [i for i, u in enumerate(self.units) if i == 0 or u['level'] <= split]


# ------------------------------------------------------------------ building
def build(texname, opts, scratch, faults=(), listdir_seed=None, timeout=60):
    """One plasTeX process; returns the finished session.  Its value is the list of files written."""
    def run(disk):
        logging.disable(logging.CRITICAL)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        pt.build(texname, opts)
        return [p for op, p in disk.ops if op == 'open_w' or op == 'close_w']
    s = seams.Session(scratch, run, faults=faults, listdir_seed=listdir_seed, cwd=scratch, timeout=timeout)
    s.wait()
    return s


VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr', 'use'}


class El:
    """An element with an identifier, or a link"""
    __slots__ = ('id', 'tag', 'start', 'end', 'href', 'rel', 'cls', 'up')

    def __init__(self, tag, a, at, up):
        self.tag, self.start, self.end = tag, at, at
        self.id, self.href, self.rel, self.cls = a.get('id'), a.get('href'), a.get('rel'), a.get('class')
        self.up = up
        if tag == 'a' and a.get('name') is not None and self.id is None:
            self.id = a['name']

    def __repr__(self):
        return '<%s%s%s>' % (self.tag, '' if self.id is None else ' id=%s' % self.id, '' if self.href is None else ' href=%s' % self.href)


class Page(html.parser.HTMLParser):
    """ids, links and text of one output file"""

    def __init__(self, text):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.els = []           # elements with an id (or name of an anchor) or a href, in order
        self.text = []
        self.size = 0
        self.stack = []
        self.skip = 0
        self.head = 0
        self.feed(text)
        self.close()
        for e in self.stack:
            e.end = self.size
        self.text = ''.join(self.text)
        self.ids = {}
        for e in self.els:
            if e.id is not None:
                self.ids.setdefault(e.id, []).append(e)
        self.links = [e for e in self.els if e.href is not None]

    def handle_starttag(self, tag, attrs, single=False):
        if tag in ('script', 'style') and not single:
            self.skip += 1
        if tag == 'head':
            self.head += 1
        e = El(tag, dict(attrs), self.size, self.stack[-1] if self.stack else None)
        if e.id is not None or e.href is not None:
            self.els.append(e)
        if tag not in VOID and not single:
            self.stack.append(e)

    def handle_startendtag(self, tag, attrs):
        # <a id="x"/> is an empty element in XHTML
        self.handle_starttag(tag, attrs, True)

    def handle_endtag(self, tag):
        if tag in ('script', 'style'):
            self.skip -= 1
        if tag == 'head':
            self.head -= 1
        if any(e.tag == tag for e in self.stack):
            while True:
                e = self.stack.pop()
                e.end = self.size
                if e.tag == tag:
                    break

    def handle_data(self, data):
        if self.skip or self.head:
            return
        self.text.append(data)
        self.size += len(data)

    def inside(self, e):
        return self.text[e.start:e.end]


def read_pages(outdir, files, encoding='utf-8'):
    pages = {}
    for f in files:
        with open(os.path.join(outdir, f), encoding=encoding, newline='') as fh:
            text = fh.read()
        pages[f] = Page('' if f.endswith('.txt') else text)
        if f.endswith('.txt'):
            pages[f].text = text
    return pages


MARK = re.compile(r'[QFM]\d+[QFM]')
