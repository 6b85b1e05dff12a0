"""C04: grouping restores local changes and the context stack stays balanced.

Two kinds of runs.  'api': a history of operations on the contexts of one or two documents
(frames pushed and popped, local and global definitions, aliases, category codes), with
requests that must be refused and macros that fail half way, checked after every
operation against a list of frames.  'prog': a generated balanced program, written into one
or several files, possibly processed alternately with a second document (a scheduler
switches between them at the probes) and after a document that broke off; probes in the
program report what is in force, and are compared with the same list of frames.
"""
import logging
import os
import random
import re
import threading

from sim import pt
from sim.kernel import Violation, shrink_lists, replace_at

import plasTeX
from plasTeX import Command, TeXDocument
from plasTeX.TeX import TeX
from plasTeX.Tokenizer import EscapeSequence, Letter, Other, Token

LEVEL = 'exercise'
BATCH = 40
TIMEOUT = 20
RUNS_QUICK = 3600
RUNS_THOROUGH = 120000
RULE = ('a run is non-trivial if at least three groups were closed after a local change within them was observed, '
        'and at least one fault was injected; distinct by trace digest')
STATE_MEASURE = 'distinct (frame kinds, names defined in each frame, category codes) digests at the observation points'
REAL = ['plasTeX.Context, Tokenizer, TeX, all macros that push and pop frames (groups, environments, math, tables, '
        'arguments, verbatim), definitions, conditionals, \\input']
STUB = ['rendering is left out; the probe is a macro of the harness; kpsewhich is not installed']
ASSUMPTIONS = ['arguments of macros without a group of their own (\\def, \\newcommand) get no definitions',
               'arguments and branches of conditionals are tokenized before they are processed',
               'font declarations at the outermost level of the text outside of a document environment are left out',
               '\\edef does not expand its body; registers are not observed',
               'names that are predefined commands are not redefined']
TIME_NOTE = 'no simulated clock: nothing here reads one'

NAMES = ['ma', 'mb', 'mc', 'md']
PLAIN = ['mx', 'my']
CHARS = ['@', '!', '|', '?', ':']
CODES = [11, 12, 13]
BUILTIN = ['LaTeX', 'quad', 'alpha', 'dag']

# ------------------------------------------------------------------ groups
TEXTGROUPS = ['brace', 'brace', 'begingroup', 'bgroup', 'macgrp', 'letgrp', 'center', 'quote', 'flushleft', 'itemize',
              'enumerate', 'description', 'minipage', 'figure', 'theorem', 'uenv', 'venv', 'wenv', 'denv', 'zork',
              'small', 'm$', 'm$', 'm$$', 'm(', 'm[', 'equation', 'displaymath', 'tabular', 'tabular', 'tabularx',
              'textbf', 'emph', 'mbox', 'fbox', 'footnote', 'parbox', 'makebox', 'hbox', 'underline', 'caption',
              'itemopt', 'section', 'sectiontoc', 'samedecl', 'multicol', 'starenv']
MATHGROUPS = ['brace', 'begingroup', 'bgroup', 'macgrp', 'letgrp', 'sup', 'sub', 'frac', 'sqrt', 'mbox', 'array',
              'matharray', 'hbox', 'mathrm']
TABLES = {'tabular': (r'\begin{tabular}{%s}', r'\end{tabular}'),
          'tabularx': (r'\begin{tabular*}{3cm}{|%s|}', r'\end{tabular*}'),
          'array': (r'\begin{array}{%s}', r'\end{array}'),
          'matharray': (r'\begin{eqnarray}', r'\end{eqnarray}'),
          'multicol': (r'\begin{tabular}{%s}', r'\end{tabular}')}
PAIRS = {'brace': ('{', '}'), 'begingroup': ('\\begingroup ', '\\endgroup '), 'bgroup': ('\\bgroup ', '\\egroup '),
         'macgrp': ('\\mopen ', '\\mclose '), 'letgrp': ('\\lb ', '\\rb '),
         'm$': ('$', '$'), 'm$$': ('$$', '$$'), 'm(': ('\\(', '\\)'), 'm[': ('\\[', '\\]'),
         'minipage': ('\\begin{minipage}{3cm}', '\\end{minipage}'), 'figure': ('\\begin{figure}[h]', '\\end{figure}'),
         'itemize': ('\\begin{itemize}\\item ', '\\end{itemize}'),
         'enumerate': ('\\begin{enumerate}\\item ', '\\end{enumerate}'),
         'description': ('\\begin{description}\\item[d] ', '\\end{description}'),
         'wenv': ('\\begin{wenv}{z}', '\\end{wenv}'),
         'samedecl': ('\\begin{center}\\center ', '\\end{center}'),
         'starenv': ('\\begin{figure*}', '\\end{figure*}')}
ARGS = {'textbf': '\\textbf{%s}', 'emph': '\\emph{%s}', 'mbox': '\\mbox{%s}', 'fbox': '\\fbox{%s}',
        'footnote': '\\footnote{%s}', 'parbox': '\\parbox{2cm}{%s}', 'makebox': '\\makebox[2cm]{%s}',
        'hbox': '\\hbox{%s}', 'underline': '\\underline{%s}', 'section': '\\section{%s}',
        'sectiontoc': '\\section[%s]{s}', 'caption': '\\begin{table}\\caption{%s}\\end{table}',
        'itemopt': '\\begin{itemize}\\item[%s] i\\end{itemize}',
        'sup': 'a^{%s}', 'sub': 'a_{%s}', 'frac': '\\frac{%s}{2}', 'sqrt': '\\sqrt{%s}', 'mathrm': '\\mathrm{%s}'}
ATTR = {'section', 'sectiontoc', 'caption', 'itemopt', 'frac', 'sqrt'}       # the content may end up in an attribute
MATHS = {'m$', 'm$$', 'm(', 'm[', 'equation', 'displaymath'}
BACKTOTEXT = {'mbox', 'hbox'}
TOPONLY = {'section', 'sectiontoc'}
DECLS = ['bf', 'it', 'small', 'em', 'centering', 'raggedright', 'Large', 'sffamily', 'tt', 'sloppy', 'normalsize']
DEFS = ['def', 'def', 'gdef', 'xdef', 'edef', 'gldef', 'newcommand', 'newcommand', 'renewcommand', 'csdef', 'setter',
        'gsetter', 'chardef', 'longdef', 'refdef', 'glnewcommand', 'newenv', 'argdef', 'declrobust', 'atdef']
LETS = ['let', 'letc', 'letb', 'gllet', 'glletc', 'cslet', 'letactive']

PREAMBLE = ('\\def\\ma{a0}\\newcommand{\\mb}{b0}\\def\\mx{x0}\\let\\md=d\n'
            '\\def\\m{M}\\makeatletter\\def\\m@a{MA}\\makeatother\n'
            '\\def\\mopen{\\begingroup\\def\\my{yo}}\\def\\mclose{\\endgroup}\\let\\lb={\\let\\rb=}\n'
            '\\newif\\ifflag \\newcounter{cc}\\newtheorem{theorem}{Theorem}\n'
            '\\newenvironment{uenv}{\\begin{quote}}{\\end{quote}}\n'
            '\\newenvironment{venv}{\\bgroup\\bf}{\\egroup}\n'
            '\\newenvironment{wenv}[1]{\\def\\my{#1}}{}\n'
            '\\def\\denv{\\def\\my{yd}}\\def\\enddenv{}\n'
            '\\def\\setx#1{\\def\\mx{#1}}\\def\\gsetx#1{\\gdef\\mx{#1}}\n')


def gen(rng, tier, index):
    if rng.random() < .4:
        return gen_api(rng, tier)
    n = rng.choice([8, 14, 24, 40] if tier == 'quick' else [8, 20, 40, 80, 120])
    docs = []
    for _ in range(2 if rng.random() < .25 else 1):
        budget = [n]
        docs.append({'env': rng.random() < .75, 'pre': gen_block(rng, [rng.choice([0, 3, 8])], 1, False),
                     'tree': gen_block(rng, budget, rng.choice([3, 5, 8]), True)})
    return {'kind': 'prog', 'docs': docs, 'sched': [rng.randrange(2) for _ in range(40)],
            'junk': rng.choice([0, 0, 0, rng.randrange(1, 1000)])}


def gen_block(rng, budget, depth, top):
    out = []
    k = rng.choice([2, 4, 6, 9])
    while k > 0 and budget[0] > 0:
        k -= 1
        budget[0] -= 1
        r = rng.random()
        if r < .33 and depth > 0:
            kind = rng.choice(TEXTGROUPS if rng.random() < .8 else MATHGROUPS)
            if kind in TABLES:
                rows = []
                for _ in range(rng.choice([1, 2, 2, 3])):
                    rows.append([gen_block(rng, budget, depth - 1, False) for _ in range(rng.choice([1, 2, 2, 3]))])
                out.append(['tab', kind, rows, rng.randrange(100)])
            else:
                out.append(['g', kind, gen_block(rng, budget, depth - 1, False), rng.choice([0, 0, 0, 0, 1, 2])])
        elif r < .52:
            out.append(['def', rng.choice(DEFS), rng.randrange(4), rng.randrange(1000)])
        elif r < .62:
            out.append(['let', rng.choice(LETS), rng.randrange(4), rng.randrange(1000)])
        elif r < .72:
            out.append(['cat', rng.randrange(len(CHARS)), rng.choice(CODES)] if rng.random() < .7 else
                       [rng.choice(['at', 'noat'])])
        elif r < .82:
            out.append(['use', rng.choice(['n', 'n', 'at', 'at', 'ch', 'ch', 'cs']), rng.randrange(100)])
        elif r < .86:
            out.append(['decl', rng.choice(DECLS)])
        elif r < .91:
            out.append(rng.choice([['step'], ['set', rng.randrange(9)], ['flag', 1], ['flag', 0], ['newif'], ['newctr'], ['t']]))
        elif r < .95 and depth > 0:
            which = rng.choice(['iftrue', 'iffalse', 'ifflag', 'ifnum', 'ifcase'])
            out.append(['if', which, gen_block(rng, budget, depth - 1, False), gen_block(rng, budget, depth - 1, False)])
        elif r < .965 and depth > 0:
            out.append(['file', gen_block(rng, budget, depth - 1, False)])
        elif r < .975:
            out.append(['macarg', rng.choice(['brace', 'begingroup', 'textbf', 'm$']), gen_block(rng, budget, 1, False)])
        else:
            out.append(rng.choice([['unknown', rng.randrange(4)], ['missing'], ['verb'], ['verbatim'], ['par'], ['t']]))
    return out


# ------------------------------------------------------------------ model
class Val:
    def __init__(self, kind, text=None, ref=None):
        self.kind = kind        # text, builtin
        self.text = text
        self.ref = ref
        self.fixed = kind == 'builtin'      # \\newcommand leaves it alone

    def __repr__(self):
        return '%s %s' % (self.kind, self.text if self.ref is None else '%s\\%s' % (self.text, self.ref))


UNDEF = Val('undef', '')


class Frames:
    """What TeX would have on its stack."""

    def __init__(self):
        self.f = [{'kind': 'bottom', 'defs': {}, 'cats': {}}]

    def push(self, kind):
        self.f.append({'kind': kind, 'defs': {}, 'cats': {}})

    def pop(self):
        return self.f.pop()

    def look(self, name):
        for f in reversed(self.f):
            if name in f['defs']:
                return f['defs'][name]
        return UNDEF

    def local(self, name, v):
        self.f[-1]['defs'][name] = v

    def glob(self, name, v):
        for f in self.f:
            f['defs'].pop(name, None)
        self.f[0]['defs'][name] = v

    def cat(self, ch):
        for f in reversed(self.f):
            if ch in f['cats']:
                return f['cats'][ch]
        return 12

    def setcat(self, ch, code):
        self.f[-1]['cats'][ch] = code

    def allcats(self):
        return {c: self.cat(c) for c in CHARS}

    def sketch(self):
        return [[f['kind'], sorted(f['defs']), sorted(f['cats'].items())] for f in self.f[1:]]


class Writer:
    """Turns a tree into a program, and says what has to be observed in it."""

    def __init__(self, prefix):
        self.fr = Frames()
        self.prefix = prefix
        self.files = {}
        self.n = 0
        self.probes = {}        # id: expectation
        self.pairs = []         # (probe before, probe after) a group
        self.uses = {}          # id: expected text
        self.closing = {}
        self.raws = {}          # id: character, expected text in front of the mark
        self.faults = {}
        self.kinds = {}
        self.states = []
        self.ctr = {'cc': 0}
        self.flags = {'ifflag': False}
        self.extra = 0
        self.closed = 0
        self.dirty = False
        g = self.fr
        g.local('ma', Val('text', 'a0'))
        g.local('mb', Val('text', 'b0'))
        g.local('mx', Val('text', 'x0'))
        g.local('md', Val('text', 'd'))
        g.local('m', Val('text', 'M'))
        g.local('m@a', Val('text', 'MA'))

    def next(self):
        self.n += 1
        return self.n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self):
        i = self.next()
        self.probes[i] = {'names': {n: self.fr.look(n) for n in NAMES + PLAIN + ['m', 'm@a', 'lenv'] + ['active::' + c for c in CHARS]},
                          'cats': self.fr.allcats(), 'ctr': dict(self.ctr), 'flags': dict(self.flags)}
        self.states.append(self.fr.sketch())
        return i, '\\probe{%d}' % i

    def text(self, v):
        if v.kind == 'undef':
            return ''
        if v.kind == 'builtin':
            return None
        out = v.text
        if v.ref is not None:
            t = self.text(self.fr.look(v.ref))
            if t is None:
                return None
            out += t
        return out

    # where: mode text/math, attr, frozen (category codes the tokens were made with, or None), skip (in a branch that
    # is not taken), arg (inside an argument), level
    def block(self, nodes, w):
        return ''.join(self.node(n, w) for n in nodes)

    def cats(self, w):
        """Category codes the next characters are read with; None if that is not determined."""
        live = self.fr.allcats()
        if w['frozen'] is None:
            return live
        if w['loose'] and w['frozen'] != live:
            return None
        return w['frozen']

    def ischar(self, ch, w):
        c = self.cats(w)
        return None if c is None else c[ch]

    def node(self, n, w):
        return getattr(self, 'n_' + n[0])(n, w)

    def n_t(self, n, w):
        return 'w%d;' % self.next()

    def n_par(self, n, w):
        if w['mode'] == 'math' or w['frozen'] is not None or w['cell']:
            return ''
        return '\n\n'

    def n_decl(self, n, w):
        if w['level'] == 0:
            return ''
        return '\\%s ' % n[1]

    def n_at(self, n, w):
        self.fr.setcat('@', 11)
        self.dirty = True
        return '\\makeatletter '

    def n_noat(self, n, w):
        self.fr.setcat('@', 12)
        self.dirty = True
        return '\\makeatother '

    def n_cat(self, n, w):
        ch, code = CHARS[n[1]], n[2]
        self.fr.setcat(ch, code)
        self.dirty = True
        if n[1] % 2:
            return '\\catcode`\\%s=%d ' % (ch, code)
        return '\\catcode %d=%d ' % (ord(ch), code)

    def n_step(self, n, w):
        self.ctr['cc'] += 1
        return '\\stepcounter{cc}'

    def n_set(self, n, w):
        self.ctr['cc'] = n[1]
        return '\\setcounter{cc}{%d}' % n[1]

    def n_flag(self, n, w):
        if w['mode'] == 'math' and n[1] > 1:
            return ''
        self.flags['ifflag'] = bool(n[1])
        return '\\flag%s ' % ('true' if n[1] else 'false')

    def n_newif(self, n, w):
        if w['loose']:
            return ''       # \newif in a branch of a conditional is a construct of its own
        self.extra += 1
        name = 'ifq' + 'abcdefghijklmnopqrstuvwxyz'[self.extra % 26] * (1 + self.extra // 26)
        self.flags[name] = False
        return '\\newif\\%s ' % name

    def n_newctr(self, n, w):
        self.extra += 1
        name = 'c%d' % self.extra
        self.ctr[name] = self.extra
        return '\\newcounter{%s}\\setcounter{%s}{%d}' % (name, name, self.extra)

    def n_unknown(self, n, w):
        self.fault('command that does not exist')
        return '\\undef%s ' % 'abcd'[n[1]]

    def n_missing(self, n, w):
        self.fault('file that does not exist')
        return '\\input{nofile%d}' % self.next()

    def n_verb(self, n, w):
        if w['frozen'] is not None or w['mode'] == 'math':
            return ''
        return '\\verb+}$\\ma {+'

    def n_verbatim(self, n, w):
        if w['frozen'] is not None or w['mode'] == 'math':
            return ''
        return '\\begin{verbatim}\n}\\begin{center}$ \\def\\ma{verb}\n\\end{verbatim}\n'

    def n_use(self, n, w):
        i = self.next()
        how = n[1]
        if how == 'n':
            name = (NAMES + PLAIN)[n[2] % 6]
            src, want = '\\%s ' % name, self.text(self.fr.look(name))
        elif how == 'cs':
            name = (NAMES + PLAIN)[n[2] % 6]
            src, want = '\\csname %s\\endcsname ' % name, self.text(self.fr.look(name))
            if want == '':
                return ''       # \csname makes an undefined name known
        elif how == 'ch':
            ch = CHARS[n[2] % len(CHARS)]
            src, want = ch, self.char(ch, w)
        else:
            at = self.ischar('@', w)
            src = '\\m@a '
            if at == 11:
                want = self.text(self.fr.look('m@a'))
            else:
                c = self.char('@', w)
                m = self.text(self.fr.look('m'))
                want = None if c is None or m is None else m + c + 'a'
        if want is None:
            return ''
        if not w['attr'] and not w['skip']:
            self.uses[i] = want
        return '(%d=%s)' % (i, src)

    def char(self, ch, w):
        code = self.ischar(ch, w)
        if code is None:
            return None
        if code != 13:
            return ch
        return self.text(self.fr.look('active::' + ch))

    def value(self, n):
        return Val('text', 'v%d' % self.next())

    def n_def(self, n, w):
        how, name = n[1], NAMES[n[2]]
        fr = self.fr
        self.dirty = True
        v = self.value(n)
        if how == 'def':
            if n[3] % 5 == 0:
                name = PLAIN[n[3] % 2]
            fr.local(name, v)
            return '\\def\\%s{%s}' % (name, v.text)
        if how == 'longdef':
            fr.local(name, v)
            return '\\long\\def\\%s{%s}' % (name, v.text)
        if how == 'edef':
            fr.local(name, v)
            return '\\edef\\%s{%s}' % (name, v.text)
        if how in ('gdef', 'xdef'):
            if n[3] % 5 == 0:
                name = PLAIN[n[3] % 2]
            fr.glob(name, v)
            return '\\%s\\%s{%s}' % (how, name, v.text)
        if how == 'gldef':
            fr.glob(name, v)
            return ('\\global\\def\\%s{%s}' if n[3] % 2 else '\\long\\global\\long\\def\\%s{%s}') % (name, v.text)
        if how in ('newcommand', 'renewcommand', 'glnewcommand', 'declrobust'):
            if fr.look(name).fixed:
                return ''
            cmd = {'glnewcommand': '\\global\\newcommand', 'declrobust': '\\DeclareRobustCommand'}.get(how, '\\' + how)
            (fr.glob if how == 'glnewcommand' else fr.local)(name, v)
            return '%s{\\%s}{%s}' % (cmd, name, v.text) if n[3] % 2 else '%s\\%s{%s}' % (cmd, name, v.text)
        if how == 'newenv':
            if n[3] % 2:
                fr.local('lenv', v)
                return '\\%snewenvironment{lenv}{%s}{}' % ('re' if n[3] % 4 == 1 and fr.look('lenv') is not UNDEF else '', v.text)
            fr.local('lenv', v)
            return '\\def\\lenv{%s}' % v.text
        if how == 'csdef':
            fr.local(name, v)
            return '\\expandafter\\def\\csname %s\\endcsname{%s}' % (name, v.text)
        if how == 'setter':
            fr.local('mx', v)
            return '\\setx{%s}' % v.text
        if how == 'gsetter':
            fr.glob('mx', v)
            return '\\gsetx{%s}' % v.text
        if how == 'chardef':
            v = Val('text', chr(65 + n[3] % 26))
            v.fixed = True
            fr.local(name, v)
            return '\\chardef\\%s=%d ' % (name, ord(v.text))
        if how == 'refdef':
            v.ref = PLAIN[n[3] % 2]
            fr.local(name, v)
            return '\\def\\%s{%s\\%s }' % (name, v.text, v.ref)
        if how == 'argdef':
            # defined and used with an argument at once
            v2 = Val('text', v.text)
            fr.local('my', v2)
            return '\\def\\my#1{%s}\\def\\my{%s}' % ('#1', v2.text)
        if how == 'atdef':
            if self.ischar('@', w) != 11:
                return ''
            fr.local('m@a', v)
            return '\\def\\m@a{%s}' % v.text
        raise AssertionError(how)

    def n_let(self, n, w):
        how, name = n[1], NAMES[n[2]]
        fr = self.fr
        self.dirty = True
        ch = 'xyzXYZ159+*'[n[3] % 11]
        if how in ('let', 'gllet', 'cslet'):
            src = (NAMES + PLAIN)[n[3] % 6]
            v = fr.look(src)
            if v is UNDEF:
                return ''
            if how == 'cslet':
                fr.local(name, v)
                return '\\expandafter\\let\\csname %s\\endcsname=\\%s ' % (name, src)
            (fr.glob if how == 'gllet' else fr.local)(name, v)
            return '%s\\let\\%s%s\\%s ' % ('\\global' if how == 'gllet' else '', name, '=' if n[3] % 2 else ' ', src)
        if how in ('letc', 'glletc'):
            (fr.glob if how == 'glletc' else fr.local)(name, Val('text', ch))
            return '%s\\let\\%s=%s' % ('\\global' if how == 'glletc' else '', name, ch)
        if how == 'letb':
            b = BUILTIN[n[3] % len(BUILTIN)]
            fr.local(name, Val('builtin', b))
            return '\\let\\%s=\\%s ' % (name, b)
        if how == 'letactive':
            c = CHARS[n[3] % len(CHARS)]
            if self.ischar(c, w) != 13:
                return ''
            if n[3] % 3:
                fr.local('active::' + c, Val('text', ch))
                return '\\let%s=%s' % (c, ch)
            v = self.value(n)
            if n[3] % 2:
                fr.local('active::' + c, v)
                return '\\def%s{%s}' % (c, v.text)
            fr.glob('active::' + c, v)
            return '\\gdef%s{%s}' % (c, v.text)
        raise AssertionError(how)

    # --- structure
    def group(self, kind, w, body):
        """body(w) writes what is inside; returns the source with probes around it."""
        b, bs = self.probe()
        before = self.dirty
        self.dirty = False
        src = body()
        self.closed += self.dirty
        self.dirty = before or self.dirty
        # the very next character: it must not have been read before the group is closed
        src += self.raw(w)
        a, as_ = self.probe()
        if not w['skip']:
            self.pairs.append((b, a))
        else:
            self.probes.pop(b)
            self.probes.pop(a)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return bs + src + as_

    def raw(self, w):
        i = self.next()
        # rather a character that was something else in the group or cell that was closed last
        other = [c for c in CHARS if self.closing.get(c, self.fr.cat(c)) != self.fr.cat(c)]
        ch = (other or CHARS)[i // 3 % len(other or CHARS)]
        want = self.char(ch, w)
        if i % 3 and not other or want is None:
            return ''
        self.closing = {}
        if not w['attr'] and not w['skip']:
            self.raws[i] = (ch, want)
        return '%s(%d.)' % (ch, i)

    def inside(self, nodes, w, kind, **kw):
        self.fr.push(kind)
        if kind == 'macgrp':
            self.fr.local('my', Val('text', 'yo'))
        elif kind == 'wenv':
            self.fr.local('my', Val('text', 'z'))
        elif kind == 'denv':
            self.fr.local('my', Val('text', 'yd'))
        w = dict(w, level=w['level'] + 1, **kw)
        src = self.raw(w) + self.block(nodes, w)
        i, p = self.probe()
        if w['skip']:
            self.probes.pop(i)
        src += p
        self.closing = self.fr.allcats()
        self.fr.pop()
        return src

    def n_g(self, n, w):
        kind, kids, split = n[1], n[2], n[3]
        if w['mode'] == 'math' and kind not in MATHGROUPS:
            return self.block(kids, w) if False else ''
        if w['mode'] == 'text' and kind in ('sup', 'sub', 'frac', 'sqrt', 'mathrm'):
            return ''
        if kind in TOPONLY and w['level'] > w['base']:
            return ''
        if w['attr'] and kind in ('figure', 'starenv', 'caption', 'itemize', 'enumerate', 'description', 'itemopt', 'theorem', 'footnote',
                                  'minipage', 'parbox'):
            return ''
        if kind in ('footnote', 'figure', 'starenv', 'caption', 'theorem') and (w['level'] > w['base'] + 3 or w['cell']):
            return ''
        if kind in ARGS:
            def body():
                kw = {'arg': True}
                if w['frozen'] is None or w['loose']:
                    c = self.cats(w)
                    kw['frozen'] = {} if c is None else c
                    kw['loose'] = c is None
                if kind in BACKTOTEXT:
                    kw['mode'] = 'text'
                if kind in ATTR:
                    kw['attr'] = True
                return ARGS[kind].replace('%s', self.inside(kids, w, kind, **kw))
            return self.group(kind, w, body)
        o, c = PAIRS.get(kind) or ('\\begin{%s}' % kind, '\\end{%s}' % kind)
        if kind == 'zork':
            self.fault('environment that does not exist')

        def body():
            kw = {}
            if kind in MATHS:
                kw['mode'] = 'math'
            inner = self.inside(kids, w, kind, **kw)
            if split and w['frozen'] is None and kind not in ('m$', 'm$$'):
                # the group starts or ends in a file of its own
                if split == 1:
                    return '\\input{%s}' % self.file(o) + inner + c
                return o + inner + '\\input{%s}' % self.file(c)
            return o + inner + c
        return self.group(kind, w, body)

    def file(self, content):
        name = '%sf%d' % (self.prefix, len(self.files))
        self.files[name + '.tex'] = content + '%\n'
        return name

    def n_file(self, n, w):
        if w['attr']:
            return ''
        src = self.block(n[1], dict(w, frozen=None, loose=False))
        self.kinds['file'] = self.kinds.get('file', 0) + 1
        return '\\input{%s}' % self.file(src)

    def n_tab(self, n, w):
        kind, rows, opt = n[1], n[2], n[3]
        if (w['mode'] == 'math') != (kind in ('array', 'matharray')):
            return ''
        if kind == 'matharray':
            return ''
        if w['attr']:
            return ''
        width = max(len(r) for r in rows)
        o, c = TABLES[kind]
        if '%s' in o:
            o = o % ('c' * width)
        seps = ['\\\\', '\\\\\n', '\\\\[2pt]', '\\\\*', '\\tabularnewline ', '\\\\\\hline ']

        def body():
            self.fr.push(kind)
            out = [o]
            for ri, row in enumerate(rows):
                if ri:
                    out.append(seps[(opt + ri) % len(seps)])
                for ci, cell in enumerate(row):
                    if ci:
                        out.append('&')
                    if kind == 'multicol' and (ci + opt) % 2 and len(row) < width + 2:
                        fw = dict(arg=True, cell=True)
                        if w['frozen'] is None or w['loose']:
                            cc = self.cats(w)
                            fw['frozen'] = {} if cc is None else cc
                            fw['loose'] = cc is None
                        out.append('\\multicolumn{1}{c}{' + self.inside(cell, w, 'multicolumn', **fw) + '}')
                    else:
                        out.append(self.inside(cell, w, 'cell', cell=True))
            if opt % 3 == 0:
                out.append('\\\\')
            self.fr.pop()
            return ''.join(out) + c
        return self.group(kind, w, body)

    def n_if(self, n, w):
        which, yes, no = n[1], n[2], n[3]
        first = {'iftrue': True, 'iffalse': False, 'ifflag': self.flags['ifflag'], 'ifnum': True, 'ifcase': True}[which]
        cond = {'ifnum': '\\ifnum 1<2 ', 'ifcase': '\\ifcase 0 '}.get(which, '\\%s ' % which)
        self.kinds['conditional'] = self.kinds.get('conditional', 0) + 1
        c = self.cats(w)
        kw = dict(w, frozen=w['frozen'] if w['frozen'] is not None else c, loose=True)
        if c is None:
            kw['frozen'] = w['frozen']

        def branch(nodes, taken):
            if taken:
                return self.block(nodes, kw)
            # not processed: leaves no trace
            saved = (self.fr, self.ctr, self.flags, self.closed, self.dirty, dict(self.kinds), dict(self.faults))
            fr = Frames()
            fr.f = [{'kind': f['kind'], 'defs': dict(f['defs']), 'cats': dict(f['cats'])} for f in self.fr.f]
            self.fr, self.ctr, self.flags = fr, dict(self.ctr), dict(self.flags)
            ns = len(self.states)
            src = self.block(nodes, dict(kw, skip=True))
            del self.states[ns:]
            self.fr, self.ctr, self.flags, self.closed, self.dirty, self.kinds, self.faults = saved
            return src
        a = branch(yes, first)
        b = branch(no, not first)
        # a file that is read in a branch is read when the branch is processed
        return cond + a + '\\else ' + b + '\\fi '

    def n_macarg(self, n, w):
        # an argument of a macro without a group: only groups inside
        c = self.cats(w)
        if c is None:
            return ''
        if w['mode'] == 'math' and n[1] not in ('brace', 'begingroup'):
            return ''
        inner = self.n_g(['g', n[1], n[2], 0], dict(w, frozen=w['frozen'] if w['frozen'] is not None else c, loose=w['loose']))
        return '\\mpass{%s}' % inner


def program(doc, prefix):
    wr = Writer(prefix)
    w = {'mode': 'text', 'attr': False, 'frozen': None, 'loose': False, 'skip': False, 'arg': False, 'cell': False,
         'level': 0, 'base': 0}
    src = PREAMBLE + '\\def\\mpass#1{#1}\n'
    if doc['env']:
        pre = [n for n in doc['pre'] if n[0] in ('def', 'let', 'cat', 'at', 'noat', 'step', 'set', 'flag', 'newif', 'newctr', 'decl', 'file')
               and (n[0] != 'file' or all(k[0] in ('def', 'let', 'cat', 'at') for k in n[1]))]
        b0, s0 = wr.probe()
        src = '\\documentclass{article}\n' + src + s0 + wr.block(pre, dict(w, level=1, base=1)) + '\n\\begin{document}\n'
        # definitions in the preamble belong to the bottom
        wr.fr.push('document')
        body = wr.block(doc['tree'], dict(w, level=1, base=1))
        i, p = wr.probe()
        src += body + p + '\n\\end{document}\n'
        wr.fr.pop()
    else:
        src += wr.block(doc['tree'], w)
        i, p = wr.probe()
        src += p
    wr.final = {'names': {n: wr.fr.look(n) for n in NAMES + PLAIN + ['m', 'm@a', 'lenv'] + ['active::' + c for c in CHARS]},
                'cats': wr.fr.allcats(), 'ctr': dict(wr.ctr), 'flags': dict(wr.flags)}
    return src, wr


# ------------------------------------------------------------------ observation
def meaning(cls):
    """A description of a class in the context, comparable with Val."""
    if cls is None or (isinstance(cls, type) and issubclass(cls, plasTeX.UnrecognizedMacro)):
        return 'undef '
    if isinstance(cls, type) and issubclass(cls, (plasTeX.Definition, plasTeX.NewCommand)):
        d = list(cls.definition or [])
        return 'text ' + ''.join('\\' + t.nodeName if t.catcode == Token.CC_ESCAPE else str(t) for t in d)
    if isinstance(cls, type) and cls.__name__ in BUILTIN:
        return 'builtin ' + cls.__name__
    s = getattr(cls, 'str', None)
    if s is not None:
        return 'text ' + s
    return 'other %s' % getattr(cls, '__name__', cls)


def want(v):
    if v.kind == 'text':
        return 'text ' + v.text + ('\\' + v.ref if v.ref is not None else '')
    return '%s %s' % (v.kind, v.text)


class Watch:
    """Collects what the probes of one document see."""

    def __init__(self, wr, name):
        self.wr = wr
        self.name = name
        self.seen = {}
        self.frames = []
        self.order = []
        self.switch = None

    def see(self, ctx, ident):
        self.frames.append(ctx.contexts[-1])        # keeps the frame alive, so that ids stay unique
        w = self.wr.probes.get(ident) or self.wr.final
        self.seen.setdefault(ident, []).append(observe(ctx, w))
        self.order.append(ident)
        if self.switch is not None:
            self.switch()


def observe(ctx, w):
    counters = {n: c.value for n, c in ctx.counters.items() if n in w['ctr']}
    flags = {}
    for n in w['flags']:
        cls = ctx.get(n)
        flags[n] = getattr(cls, 'state', None)
    return {'depth': len(ctx.contexts), 'frame': id(ctx.contexts[-1]), 'attr': ctx.depth, 'math': bool(ctx.isMathMode),
            'shifts': len(ctx.mathShifts), 'names': {n: meaning(ctx.get(n)) for n in w['names']},
            'in': {n: n in ctx for n in w['names']},
            'cats': {c: int(ctx.whichCode(c)) for c in w['cats']}, 'ctr': counters, 'flags': flags}


def compare(sim, tag, got, w):
    for n, v in w['names'].items():
        sim.check(got['names'][n] == want(v), 'meaning', lambda: '%s: \\%s means "%s", in force is "%s"' % (
            tag, n, got['names'][n], want(v)))
        if v is not UNDEF:
            sim.check(got['in'][n], 'lookup', lambda: '%s: %r is not in the context' % (tag, n))
    for c, code in w['cats'].items():
        sim.check(got['cats'][c] == code, 'catcode', lambda: '%s: category code of %r is %d, in force is %d' % (
            tag, c, got['cats'][c], code))
    sim.check(got['ctr'] == w['ctr'], 'counters', lambda: '%s: counters %r, expected %r' % (tag, got['ctr'], w['ctr']))
    sim.check(got['flags'] == w['flags'], 'switches', lambda: '%s: switches %r, expected %r' % (tag, got['flags'], w['flags']))
    sim.check(got['attr'] == got['depth'], 'depth', lambda: '%s: depth is %r with %d frames' % (tag, got['attr'], got['depth']))


def make_probe(watch):
    class probe(Command):
        args = 'id:str'

        def invoke(self, tex):
            ident = int(tex.readArgument(type=str))
            watch.see(self.ownerDocument.context, ident)
            return []
    return probe


def start(src, watch):
    doc = TeXDocument(config=pt.make_config({}))
    tex = TeX(doc)
    doc.userdata['jobname'] = watch.name if watch else 'junk'
    doc.userdata['working-dir'] = os.getcwd()
    depth = len(doc.context.contexts)
    if watch:
        doc.context.addGlobal('probe', make_probe(watch))
    else:
        doc.context.addGlobal('probe', type('probe', (Command,), {'args': 'id:str'}))
    tex.input(src)
    return doc, tex, depth


class Baton:
    """Lets exactly one of the threads run; the plan says who is next."""

    def __init__(self, sched, n):
        self.cond = threading.Condition()
        self.sched = list(sched)
        self.live = list(range(n))
        self.turn = 0
        self.switches = 0

    def pick(self):
        k = self.sched.pop(0) if self.sched else 0
        new = self.live[k % len(self.live)]
        if new != self.turn:
            self.switches += 1
        self.turn = new

    def wait(self, me):
        while self.turn != me:
            self.cond.wait()

    def switch(self, me):
        with self.cond:
            self.pick()
            self.cond.notify_all()
            self.wait(me)

    def done(self, me):
        with self.cond:
            self.live.remove(me)
            if self.live:
                self.pick()
                self.cond.notify_all()


def run_prog(plan, sim):
    jobs = []
    for k, d in enumerate(plan['docs']):
        src, wr = program(d, 'ab'[k])
        for name, content in wr.files.items():
            with open(name, 'w') as fh:
                fh.write(content)
        jobs.append((src, wr, Watch(wr, 'job%d' % k)))
    if plan['junk']:
        src = jobs[0][0]
        cut = len(PREAMBLE) + plan['junk'] * max(1, len(src) - len(PREAMBLE)) // 1000
        sim.fault('document that breaks off')
        try:
            doc, tex, _ = start(src[:cut], None)
            tex.parse()
        except Exception:
            sim.probe('document that breaks off: exception')
    results = [None] * len(jobs)

    def work(k):
        src, wr, watch = jobs[k]
        try:
            if baton is not None:
                with baton.cond:
                    baton.wait(k)
                watch.switch = lambda: baton.switch(k)
            doc, tex, depth = start(src, watch)
            tex.parse()
            watch.switch = None
            results[k] = (doc, depth)
        except BaseException as e:
            results[k] = e
        finally:
            if baton is not None:
                baton.done(k)
    baton = None
    if len(jobs) == 1:
        work(0)
    else:
        baton = Baton(plan['sched'], len(jobs))
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if baton.switches:
            sim.fault('switch to another document between two tokens', baton.switches)
    for k, (src, wr, watch) in enumerate(jobs):
        if isinstance(results[k], BaseException):
            def again():
                raise results[k]
            try:
                sim.code('exception', again)
            except Violation as v:
                v.msg += '\n' + listing(src, wr)
                raise
        try:
            judge(sim, k, src, wr, watch, *results[k])
        except Violation as v:
            v.msg += '\n' + listing(src, wr)
            raise


def listing(src, wr):
    return src[:2500] + ''.join('\n== %s\n%s' % kv for kv in list(wr.files.items())[:6])


def judge(sim, k, src, wr, watch, doc, depth):
    sim.ev('doc', k, len(src), watch.order)
    for i, w in wr.probes.items():
        tag = 'document %d, probe %d' % (k, i)
        sim.check(i in watch.seen, 'unreached', lambda: '%s was not processed' % tag)
        for got in watch.seen[i]:
            compare(sim, tag, got, w)
    for i in watch.seen:
        sim.check(i in wr.probes, 'reached', lambda: 'probe %d is in a branch that is not taken' % i)
    for b, a in wr.pairs:
        x, y = watch.seen[b][0], watch.seen[a][0]
        tag = 'document %d, group between probes %d and %d' % (k, b, a)
        sim.check(x['depth'] == y['depth'], 'balance', lambda: '%s: depth %d before, %d after' % (tag, x['depth'], y['depth']))
        sim.check(x['frame'] == y['frame'], 'balance', lambda: '%s: another frame is on top after it' % tag)
        sim.check(x['math'] == y['math'] and x['shifts'] == y['shifts'], 'math', lambda: '%s: math mode %r/%d before, %r/%d after' % (
            tag, x['math'], x['shifts'], y['math'], y['shifts']))
    tag = 'document %d, after the end' % k
    ctx = doc.context
    sim.check(len(ctx.contexts) == depth, 'balance', lambda: '%s: depth %d, at the start %d' % (tag, len(ctx.contexts), depth))
    compare(sim, tag, observe(ctx, wr.final), wr.final)
    text = sim.code('exception', lambda: doc.textContent)
    found = {}
    for m in re.finditer(r'\((\d+)=([^()]*)\)', text):
        found.setdefault(int(m.group(1)), []).append(re.sub(r'\s', '', m.group(2)))
    for i, v in wr.uses.items():
        sim.check(i in found, 'text', lambda: 'document %d: use %d is missing from the text' % (k, i))
        for t in found[i]:
            sim.check(t == v, 'expansion', lambda: 'document %d: use %d gives %r, in force is %r' % (k, i, t, v))
    ahead = {}
    for m in re.finditer(r'\((\d+)\.\)', text):
        ahead.setdefault(int(m.group(1)), []).append(text[max(0, m.start() - 12):m.start()])
    for i, (ch, v) in wr.raws.items():
        sim.check(i in ahead, 'text', lambda: 'document %d: mark %d is missing from the text' % (k, i))
        for t in ahead[i]:
            sim.check(t.endswith(v) if v else not t.endswith(ch), 'expansion', lambda: (
                'document %d: %r in front of mark %d gives %r, in force is %r' % (k, ch, i, t, v)))
    for kind, c in wr.faults.items():
        sim.fault(kind, c)
    for kind, c in wr.kinds.items():
        sim.probe('group ' + kind, c)
    for s in wr.states:
        sim.state(s)
    sim.ev('end', sorted(wr.uses.items()), sorted(wr.raws.items()), [sorted(watch.seen[i][0]['names'].items()) for i in sorted(watch.seen)])
    if wr.closed >= 3 and (sim.faults or wr.faults):
        sim.nontrivial = True


# ------------------------------------------------------------------ the context API
OBJS = ['center', 'quote', 'itemize', 'tabular', 'math', 'equation', 'mbox', 'uenv']
LOCALS = ['\\', 'hline', 'active::&', 'item']
APINAMES = ['qqa', 'qqb', 'qqc', 'qqd', 'qqe', 'qqf']


def gen_api(rng, tier):
    n = rng.choice([10, 20, 40, 70] if tier == 'quick' else [20, 60, 120, 250])
    ndocs = rng.choice([1, 1, 2])
    mix = rng.choice([[.25, .2, .35, .12], [.35, .3, .2, .1], [.15, .1, .5, .2]])
    ops = []
    for _ in range(n):
        r = rng.random()
        d = rng.randrange(ndocs)
        s = rng.randrange(1000)
        if r < mix[0]:
            op = ['push', rng.choice(['none', 'none', 'begin', 'begin', 'decl']), rng.randrange(len(OBJS))]
        elif r < mix[0] + mix[1]:
            op = ['pop', rng.choice(['none', 'same', 'end', 'end', 'deep', 'endname'])]
        elif r < mix[0] + mix[1] + mix[2]:
            op = ['def', rng.choice(['addLocal', 'addLocal', 'addGlobal', 'setitem', 'strLocal', 'strGlobal', 'newdef', 'gnewdef',
                                     'newcommand', 'lnewcommand', 'let', 'let', 'letc', 'letc', 'glet', 'chardef', 'lchardef',
                                     'unknown', 'newif', 'newcounter', 'toggle', 'step', 'newcount', 'newdimen', 'newenv',
                                     'newskip', 'import', 'letloc'])]
        elif r < mix[0] + mix[1] + mix[2] + mix[3]:
            op = ['cat', rng.choice(CHARS + ['a', '{', '$', ' ', '%']), rng.randrange(16)] if rng.random() < .85 else ['verbatim']
        else:
            op = ['fault', rng.choice(['addLocal', 'addGlobal', 'bottom', 'locals', 'setitem', 'bottomobj', 'counter'])]
        ops.append([d, s] + op)
    return {'kind': 'api', 'ndocs': ndocs, 'ops': ops}


class Model:
    def __init__(self, doc):
        self.doc = doc
        self.ctx = ctx = doc.context
        self.frames = [{'obj': None, 'kind': 'bottom', 'mode': None, 'defs': {}, 'cats': None, 'real': ctx.contexts[0]}]
        self.base = {n: ctx.get(n) for n in LOCALS}
        self.cats = {c: int(ctx.whichCode(c)) for c in CHARS + ['a', '{', '$', ' ', '%']}
        self.frames[0]['cats'] = self.cats
        self.counters = {}
        self.ifs = {}
        self.names = list(APINAMES)
        self.extra = 0

    def look(self, n):
        for f in reversed(self.frames):
            if n in f['defs']:
                return f['defs'][n]
        return self.base.get(n)

    def cat(self):
        for f in reversed(self.frames):
            if f['cats'] is not None:
                return f['cats']

    def glob(self, n, v):
        for f in self.frames:
            f['defs'].pop(n, None)
        self.frames[0]['defs'][n] = v


def api_objs(docs, d, kind, mode):
    obj = docs[d].createElement(kind)
    obj.macroMode = {'begin': Command.MODE_BEGIN, 'decl': Command.MODE_NONE, 'end': Command.MODE_END}[mode]
    return obj


_n = [0]


def run_api(plan, sim):
    docs = []
    models = []
    for _ in range(plan['ndocs']):
        doc = TeXDocument(config=pt.make_config({}))
        TeX(doc)
        docs.append(doc)
        models.append(Model(doc))
        sim.check(len(doc.context.contexts) == 1, 'depth', 'a new document has %d frames' % len(doc.context.contexts))
    _n[0] = 0
    closed = 0
    for op in plan['ops']:
        d, s = op[0], op[1]
        if d >= len(docs):
            continue
        m = models[d]
        done = api_op(sim, docs, d, m, s, op[2:])
        closed += done == 'closed'
        for mm in models:
            api_check(sim, mm, op)
        sim.ev(op[2], op[3] if len(op) > 3 else '', done, len(m.frames))
        sim.state([[f['kind'], sorted(f['defs'])] for f in m.frames[1:]])
    # close everything
    for d, m in enumerate(models):
        while len(m.frames) > 1:
            close(sim, m, len(m.frames) - 1)
            api_check(sim, m, 'closing')
        sim.check(len(m.ctx.contexts) == 1, 'depth', 'frames left: %d' % len(m.ctx.contexts))
    sim.ev('end', [sorted((k, str(v)) for k, v in m.cats.items()) for m in models])
    if closed >= 3 and sim.faults:
        sim.nontrivial = True


def close(sim, m, i):
    """Close frame i the way it was opened."""
    f = m.frames[i]
    if f['obj'] is None:
        while m.frames[-1] is not f and m.frames[-1]['obj'] is None:
            sim.code('exception', m.ctx.pop)
            m.frames.pop()
        if any(g['obj'] is None for g in m.frames[i + 1:]):
            return close(sim, m, len(m.frames) - 1)
        sim.code('exception', m.ctx.pop)
    else:
        sim.code('exception', m.ctx.pop, f['obj'])
    del m.frames[i:]


def api_op(sim, docs, d, m, s, op):
    ctx = m.ctx
    doc = docs[d]
    what = op[0]
    code = sim.code
    if what == 'push':
        if len(m.frames) > 12:
            return False
        if op[1] == 'none':
            code('exception', ctx.push if s % 2 else ctx.append)
            m.frames.append({'obj': None, 'kind': '{}', 'mode': None, 'defs': {}, 'cats': None})
        else:
            obj = api_objs(docs, d, OBJS[op[2]], op[1])
            code('exception', ctx.push, obj)
            m.frames.append({'obj': obj, 'kind': OBJS[op[2]], 'mode': op[1], 'defs': {
                n: c for n, c in obj.locals().items() if n in LOCALS}, 'cats': None})
        m.frames[-1]['real'] = ctx.contexts[-1]
        return 'opened'
    if what == 'pop':
        n = len(m.frames)
        if n == 1:
            return False
        how = op[1]
        if how == 'none':
            for i in range(n - 1, 0, -1):
                if m.frames[i]['obj'] is None:
                    code('exception', ctx.pop)
                    del m.frames[i:]
                    return 'closed'
            return False
        objs = [i for i in range(1, n) if m.frames[i]['obj'] is not None]
        if not objs:
            return False
        if how == 'same':
            i = objs[-1]
            code('exception', ctx.pop, m.frames[i]['obj'])
        elif how == 'deep':
            i = objs[s % len(objs)]
            if i < n - 1:
                sim.fault('frame closed with open frames inside')
            code('exception', ctx.pop, m.frames[i]['obj'])
        elif how == 'endname':
            i = objs[s % len(objs)]
            kind = m.frames[i]['kind']
            i = max(j for j in objs if m.frames[j]['kind'] == kind)
            obj = type('end' + kind, (Command,), {})()
            obj.ownerDocument = doc
            obj.parentNode = None
            if i < n - 1:
                sim.fault('frame closed with open frames inside')
            code('exception', ctx.pop, obj)
        else:
            i = objs[s % len(objs)] if s % 3 == 0 else objs[-1]
            kind = m.frames[i]['kind']
            same = [j for j in objs if m.frames[j]['kind'] == kind]
            begin = [j for j in same if m.frames[j]['mode'] == 'begin']
            i = begin[-1] if begin else same[-1]
            if i < n - 1:
                sim.fault('frame closed with open frames inside')
            code('exception', ctx.pop, api_objs(docs, d, kind, 'end'))
        del m.frames[i:]
        return 'closed'
    if what == 'cat':
        ch, c = op[1], op[2]
        code('exception', ctx.catcode, ch, c)
        cats = dict(m.cat())
        cats[ch] = c
        m.frames[-1]['cats'] = cats
        if len(m.frames) == 1:
            m.cats = cats
        return 'cat'
    if what == 'verbatim':
        code('exception', ctx.setVerbatimCatcodes)
        m.frames[-1]['cats'] = {c: 11 if c.isalpha() else 12 for c in m.cat()}
        return 'cat'
    if what == 'def':
        return api_def(sim, docs, d, m, s, op[1])
    if what == 'fault':
        how = op[1]
        if how in ('addLocal', 'addGlobal', 'setitem'):
            sim.fault('definition that is not a macro')
            fn = {'addLocal': ctx.addLocal, 'addGlobal': ctx.addGlobal, 'setitem': lambda k, v: ctx.__class__.__setitem__(ctx, k, v)}[how]
            try:
                fn(m.names[s % len(m.names)], [3, None, object(), ['x']][s % 4])
            except ValueError:
                return 'refused'
            except Exception as e:
                raise Violation('refusal', 'a definition that is not a macro raised %r' % e)
            raise Violation('refusal', 'a definition that is not a macro was accepted')
        if how in ('bottom', 'bottomobj'):
            if len(m.frames) > 1:
                return False
            sim.fault('pop at the bottom')
            if how == 'bottom':
                code('exception', ctx.pop)
            else:
                code('exception', ctx.pop, api_objs(docs, d, OBJS[s % len(OBJS)], 'end'))
            return 'ignored'
        if how == 'locals':
            class Broken(Exception):
                pass
            obj = doc.createElement('center')

            def fail():
                raise Broken
            obj.locals = fail
            sim.fault('macro that fails while its frame is opened')
            try:
                ctx.push(obj)
            except Broken:
                return 'failed'
            raise Violation('refusal', 'push of a failing macro went through')
        if how == 'counter':
            # an existing counter is kept
            if not m.counters:
                return False
            n = sorted(m.counters)[s % len(m.counters)]
            sim.fault('counter that exists already')
            code('exception', ctx.newcounter, n, initial=77)
            return 'kept'
    return False


def api_def(sim, docs, d, m, s, how):
    ctx = m.ctx
    code = sim.code
    name = m.names[s % len(APINAMES)]
    _n[0] += 1
    k = _n[0]
    cur = m.look(name)

    def fresh():
        return type(name, (Command,), {'serial': k})

    def text_of(v):
        return None if v is None else meaning(v)

    def settle(n, glob, desc=None):
        """Take over what the context made, after checking that it is the right thing."""
        v = code('exception', ctx.get, n)
        if desc is not None:
            sim.check(meaning(v) == desc, 'definition', lambda: '%s(%s) gives %r instead of %r' % (how, n, meaning(v), desc))
        if glob:
            m.glob(n, v)
        else:
            m.frames[-1]['defs'][n] = v
    if how in ('addLocal', 'addGlobal', 'setitem', 'import'):
        cls = fresh()
        if how == 'addLocal':
            code('exception', ctx.addLocal, name, cls)
            m.frames[-1]['defs'][name] = cls
        else:
            if how == 'addGlobal':
                code('exception', ctx.addGlobal, name, cls)
            elif how == 'import':
                code('exception', ctx.importMacros, {name: cls, 'x': 3})
            else:
                ctx[name] = cls
            m.glob(name, cls)
    elif how in ('strLocal', 'strGlobal'):
        code('exception', ctx.addLocal if how == 'strLocal' else ctx.addGlobal, name, 's%d' % k)
        settle(name, how == 'strGlobal', 'text s%d' % k)
    elif how in ('newdef', 'gnewdef'):
        if how == 'newdef' and s % 2:
            code('exception', ctx.newdef, name, '', 'd%d' % k)
        else:
            code('exception', ctx.newdef, name, '', 'd%d' % k, local=how == 'newdef')
        settle(name, how == 'gnewdef', 'text ' + lettered('d%d' % k, m))
    elif how in ('newcommand', 'lnewcommand', 'newenv'):
        if cur is not None and not issubclass(cur, (plasTeX.NewCommand, plasTeX.Definition) if how == 'newenv' else (
                plasTeX.NewCommand, plasTeX.Definition, plasTeX.UnrecognizedMacro)):
            return False
        if how == 'newenv':
            code('exception', ctx.newenvironment, name, 0, 'b%d' % k, 'e%d' % k)
            settle(name, True, 'text ' + lettered('b%d' % k, m))
            if 'end' + name not in m.names:
                m.names.append('end' + name)
            settle('end' + name, True, 'text ' + lettered('e%d' % k, m))
        elif how == 'newcommand':
            code('exception', ctx.newcommand, name, 0, 'c%d' % k)
            settle(name, True, 'text ' + lettered('c%d' % k, m))
        else:
            code('exception', ctx.newcommand, name, 0, 'c%d' % k, local=True)
            settle(name, False, 'text ' + lettered('c%d' % k, m))
    elif how in ('let', 'glet', 'letloc'):
        src = m.names[s // 7 % len(m.names)] if how != 'letloc' else LOCALS[s % len(LOCALS)]
        if m.look(src) is None:
            return False
        char = code('exception', ctx.get_let, EscapeSequence(src))
        was = m.look(src)
        if how == 'glet':
            code('exception', ctx.let, EscapeSequence(name), EscapeSequence(src), local=False)
        else:
            code('exception', ctx.let, EscapeSequence(name), EscapeSequence(src))
        got = code('exception', ctx.get_let, EscapeSequence(name))
        if char.catcode != Token.CC_ESCAPE:
            # an alias of a character may be a macro of its own
            sim.check(got == char and got.catcode == char.catcode, 'definition', lambda: 'let to %r gives %r' % (char, got))
            settle(name, how == 'glet')
        elif how == 'glet':
            m.glob(name, was)
        else:
            m.frames[-1]['defs'][name] = was
    elif how == 'letc':
        tok = [Letter('x'), Other('7'), Letter('é')][s % 3]
        code('exception', ctx.let, EscapeSequence(name), tok)
        got = code('exception', ctx.get_let, EscapeSequence(name))
        sim.check(got == tok and got.catcode == tok.catcode, 'definition', lambda: 'let to %r gives %r' % (tok, got))
        settle(name, False)
    elif how in ('chardef', 'lchardef'):
        if how == 'chardef':
            code('exception', ctx.chardef, name, 65 + k % 26)
        else:
            code('exception', ctx.chardef, name, 65 + k % 26, local=True)
        settle(name, how == 'chardef', 'text ' + chr(65 + k % 26))
    elif how == 'unknown':
        name = 'zz%d' % (s % 3)
        if name not in m.names:
            m.names.append(name)
        if m.look(name) is not None:
            return False
        sim.fault('name that is not defined')
        v = code('exception', ctx.__class__.__getitem__, ctx, name)
        sim.check(isinstance(v, type) and issubclass(v, plasTeX.UnrecognizedMacro), 'definition', lambda: '%s is %r' % (name, v))
        m.glob(name, v)
    elif how == 'newif':
        m.extra += 1
        n = 'ifz%d' % m.extra
        code('exception', ctx.newif, n, s % 2 == 1)
        for x in (n, n[2:] + 'true', n[2:] + 'false'):
            sim.check(x in ctx, 'definition', lambda: '%s is not defined after newif' % x)
            m.names.append(x)
            settle(x, True)
        m.ifs[n] = s % 2 == 1
    elif how == 'toggle':
        if not m.ifs:
            return False
        n = sorted(m.ifs)[s % len(m.ifs)]
        m.ifs[n] = bool(s // 3 % 2)
        obj = docs[d].createElement(n[2:] + ('true' if m.ifs[n] else 'false'))
        code('exception', obj.invoke, None)
    elif how == 'newcounter':
        m.extra += 1
        n = 'kk%d' % m.extra
        code('exception', ctx.newcounter, n, initial=s % 9)
        m.counters[n] = s % 9
        m.names.append('the' + n)
        settle('the' + n, True)
    elif how == 'step':
        if not m.counters:
            return False
        n = sorted(m.counters)[s % len(m.counters)]
        code('exception', ctx.counters[n].stepcounter)
        m.counters[n] += 1
    elif how in ('newcount', 'newdimen', 'newskip'):
        code('exception', getattr(ctx, how), name, 3)
        settle(name, True)
    return how


def lettered(text, m):
    return text


def api_check(sim, m, op):
    ctx = m.ctx
    sim.check(len(ctx.contexts) == len(m.frames) and ctx.depth == len(m.frames), 'depth',
              lambda: 'after %r: %d frames, depth %r, expected %d' % (op, len(ctx.contexts), ctx.depth, len(m.frames)))
    for a, b in zip(ctx.contexts, m.frames):
        sim.check(a is b['real'] and a.obj is b['obj'], 'frames', lambda: 'after %r: another frame (%s) in place of %s' % (
            op, a.name, b['kind']))
    keys = None
    for n in m.names + LOCALS:
        v = m.look(n)
        got = sim.code('exception', ctx.get, n)
        sim.check(got is v, 'meaning', lambda: 'after %r: %s is %r, expected %r' % (op, n, got, v))
        sim.check((n in ctx) == (v is not None), 'lookup', lambda: 'after %r: %s %s in the context' % (op, n, 'is not' if v is not None else 'is'))
        if v is not None:
            sim.check(ctx[n] is v, 'meaning', lambda: 'after %r: %s is found as %r' % (op, n, ctx[n]))
            sim.check(ctx.has_key(n), 'lookup', lambda: 'after %r: has_key(%s) is false' % (op, n))
            if keys is None:
                keys = set(ctx.keys())
            sim.check(n in keys, 'lookup', lambda: 'after %r: %s is not in keys()' % (op, n))
    for c, k in m.cat().items():
        sim.check(int(ctx.whichCode(c)) == k, 'catcode', lambda: 'after %r: category code of %r is %d, expected %d' % (
            op, c, int(ctx.whichCode(c)), k))
    for n, v in m.counters.items():
        sim.check(ctx.counters[n].value == v, 'counters', lambda: 'after %r: counter %s is %r, expected %r' % (op, n, ctx.counters[n].value, v))
    for n, v in m.ifs.items():
        sim.check(ctx[n].state == v, 'switches', lambda: 'after %r: %s is %r' % (op, n, ctx[n].state))


def execute(plan, sim):
    logging.disable(logging.CRITICAL)
    if plan['kind'] == 'api':
        run_api(plan, sim)
    else:
        run_prog(plan, sim)


# ------------------------------------------------------------------ minimisation
def shrink(plan):
    if plan['kind'] == 'api':
        yield from shrink_lists(plan, [('ops',)])
        if plan['ndocs'] > 1:
            yield replace_at(plan, ('ndocs',), 1)
        return
    if len(plan['docs']) > 1:
        yield replace_at(plan, ('docs',), plan['docs'][:1])
        yield replace_at(plan, ('docs',), plan['docs'][1:])
    if plan['junk']:
        yield replace_at(plan, ('junk',), 0)
    if plan['sched']:
        yield replace_at(plan, ('sched',), [])
    for k, d in enumerate(plan['docs']):
        yield from shrink_lists(plan, [('docs', k, 'pre'), ('docs', k, 'tree')])
        yield from shrink_block(plan, ('docs', k, 'tree'), d['tree'])
        if d['env']:
            yield replace_at(plan, ('docs', k, 'env'), False)


def shrink_block(plan, path, nodes):
    for i, n in enumerate(nodes):
        p = path + (i,)
        if n[0] in ('g', 'macarg'):
            yield replace_at(plan, path, nodes[:i] + n[2] + nodes[i + 1:])
            yield from shrink_lists(plan, [p + (2,)])
            yield from shrink_block(plan, p + (2,), n[2])
            if n[0] == 'g' and n[3]:
                yield replace_at(plan, p + (3,), 0)
        elif n[0] == 'file':
            yield replace_at(plan, path, nodes[:i] + n[1] + nodes[i + 1:])
            yield from shrink_lists(plan, [p + (1,)])
            yield from shrink_block(plan, p + (1,), n[1])
        elif n[0] == 'if':
            yield from shrink_lists(plan, [p + (2,), p + (3,)])
            for j in (2, 3):
                yield from shrink_block(plan, p + (j,), n[j])
        elif n[0] == 'tab':
            yield from shrink_lists(plan, [p + (2,)])
            for r, row in enumerate(n[2]):
                yield from shrink_lists(plan, [p + (2, r)])
                for c, cell in enumerate(row):
                    yield from shrink_lists(plan, [p + (2, r, c)])
                    yield from shrink_block(plan, p + (2, r, c), cell)
