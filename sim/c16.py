"""C16: configuration values come from defaults, files and command line in that order.

One run is one process life that builds configurations: files are written, replaced and
damaged on the disk, read in some order (alone, as a list, or by the real command line
front end), command lines are parsed, values are assigned, and after every step every
option of every configuration is read back and compared with a reference model.  Faults
are files that are missing, unreadable, directories, fail in the middle of reading,
malformed, or hold a value that cannot be converted.
"""
import argparse
import builtins
import contextlib
import io
import os
import random
import re
import shlex
import shutil
import tempfile

from sim import kernel
from sim.kernel import shrink_lists, replace_at

import plasTeX
import plasTeX.Compile
import plasTeX.client
from plasTeX.Config import defaultConfig
from plasTeX.ConfigManager import (ConfigManager, StringOption, IntegerOption, FloatOption,
                                   BooleanOption, MultiStringOption)

LEVEL = 'exercise'
BATCH = 100
TIMEOUT = 20
RUNS_QUICK = 16000
RUNS_THOROUGH = 400000
RULE = ('a run is non-trivial if at least two different kinds of sources (file, command line, assignment) changed '
        'options, and one option was set by two sources or a fault fired; distinct by trace digest')
STATE_MEASURE = 'distinct (set of options that differ from their defaults, source that set each) digests'
REAL = ['plasTeX.ConfigManager', 'plasTeX.Config.defaultConfig', 'plasTeX.Renderers.HTML5.Config.addConfig',
        'plasTeX.client.main and collect_renderer_config', 'configparser and argparse of the standard library']
STUB = ['the disk below configuration files: real files in a scratch directory behind a seam that fails opening or reading',
        'plasTeX.Compile.run behind the command line: records the configuration it is given',
        'order of directory listings: chosen by the plan']
ASSUMPTIONS = ['option names are written in lower case in files, values have no surrounding blanks',
               'values of dictionary options contain no % (whether they are interpolated is not stated)',
               'after an unusable file each option it mentions may or may not have been changed by it',
               'a reference to a name that two sections have means the option of the first section']
TIME_NOTE = 'no simulated clock: configuration reads none'

S, I, F, B, L, D = 'str', 'int', 'float', 'bool', 'list', 'dict'
DOCLEVEL = plasTeX.Command.DOCUMENT_LEVEL - 1
# section, option, type, documented default, flags (for booleans: [on], [off]; for dictionaries also the entry type)
OPTIONS = [
    ('general', 'renderer', S, 'HTML5', ['--renderer']),
    ('general', 'theme', S, 'default', ['--theme']),
    ('general', 'extra-templates', L, [], ['--extra-templates']),
    ('general', 'copy-theme-extras', B, True, ['--copy-theme-extras'], ['--no-theme-extras']),
    ('general', 'kpsewhich', S, 'kpsewhich', ['--kpsewhich']),
    ('general', 'xml', B, False, ['--xml'], []),
    ('general', 'debug', B, False, ['--debug'], []),
    ('general', 'paux-dirs', L, [], ['--paux-dirs']),
    ('general', 'plugins', L, [], ['--plugins']),
    ('general', 'load-tex-packages', B, True, ['--load-tex-packages'], ['--no-load-tex-packages']),
    ('general', 'tex-packages', L, [], ['--tex-packages']),
    ('general', 'packages-dirs', L, [], ['--packages-dirs']),
    ('links', 'links', D, {}, ['--link'], 'link'),
    ('counters', 'counters', D, {}, ['--counter'], I),
    ('files', 'input-encoding', S, 'utf-8', ['--input-encoding']),
    ('files', 'output-encoding', S, 'utf-8', ['--output-encoding']),
    ('files', 'escape-high-chars', B, False, ['--escape-high-chars'], []),
    ('files', 'split-level', I, 2, ['--split-level']),
    ('files', 'log', B, False, ['--log'], []),
    ('files', 'filename', S, 'index [$id, sect$num(4)]', ['--filename']),
    ('files', 'bad-chars', S, ': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', ['--bad-filename-chars']),
    ('files', 'bad-chars-sub', S, '-', ['--bad-filename-chars-sub']),
    ('files', 'directory', S, '$jobname', ['--dir', '-d']),
    ('images', 'scales', D, {}, ['--scales'], F),
    ('images', 'base-url', S, '', ['--image-base-url']),
    ('images', 'enabled', B, True, ['--enable-images'], ['--disable-images']),
    ('images', 'imager', S, 'gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics', ['--imager']),
    ('images', 'vector-imager', S, 'pdf2svg dvisvgm', ['--vector-imager']),
    ('images', 'filenames', S, 'images/img-$num(4)', ['--image-filenames']),
    ('images', 'baseline-padding', I, 0, ['--image-baseline-padding']),
    ('images', 'scale-factor', F, 1.0, ['--image-scale-factor']),
    ('images', 'vector-compiler', S, '', ['--vector-image-compiler']),
    ('images', 'compiler', S, '', ['--image-compiler']),
    ('images', 'cache', B, False, ['--enable-image-cache'], ['--disable-image-cache']),
    ('images', 'save-file', B, False, ['--save-image-file'], ['--delete-image-file']),
    ('images', 'transparent', B, False, ['--transparent-images'], ['--opaque-images']),
    ('images', 'resolution', I, 0, ['--image-resolution']),
    ('document', 'base-url', S, '', ['--base-url']),
    ('document', 'title', S, '', ['--title']),
    ('document', 'toc-depth', I, 3, ['--toc-depth']),
    ('document', 'toc-non-files', B, False, ['--toc-non-files'], []),
    ('document', 'sec-num-depth', I, 2, ['--sec-num-depth']),
    ('document', 'index-columns', I, 2, ['--index-columns']),
    ('document', 'lang-terms', L, [], ['--lang-terms']),
    ('document', 'disable-charsub', L, [], ['--disable-charsub']),
    ('logging', 'logging', D, {}, ['--logging'], S),
    ('html5', 'extra-css', L, [], ['--extra-css']),
    ('html5', 'extra-js', L, [], ['--extra-js']),
    ('html5', 'theme-css', S, 'white', ['--theme-css']),
    ('html5', 'use-theme-css', B, True, ['--use-theme-css'], ['--no-theme-css']),
    ('html5', 'use-theme-js', B, True, ['--use-theme-js'], ['--no-theme-js']),
    ('html5', 'display-toc', B, True, ['--display-toc'], ['--no-display-toc']),
    ('html5', 'localtoc-level', I, DOCLEVEL, ['--localtoc-level']),
    ('html5', 'breadcrumbs-level', I, 10, ['--breadcrumbs-level']),
    ('html5', 'use-mathjax', B, True, ['--use-mathjax'], ['--no-mathjax']),
    ('html5', 'mathjax-url', S, 'https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js', ['--mathjax-url']),
    ('html5', 'mathjax-dollars', B, False, ['--dollars'], ['--no-dollars']),
    ('html5', 'filters', L, [], ['--filters']),
    ('mathjax-macros', 'macros', D, {}, ['--mj-macros'], S),
]
# a section a user defines in a script, with option objects that are not defaults of plasTeX
CUSTOM = [
    ('custom', 'name', S, 'me', ['--my-name', '-n']),
    ('custom', 'level', I, 7, ['--my-level']),
    ('custom', 'ratio', F, 0.5, ['--my-ratio']),
    ('custom', 'verbose', B, False, ['--my-verbose', '-V'], ['--my-quiet', '-q']),
    ('custom', 'safe', B, True, [], ['--my-unsafe']),
    ('custom', 'dirs', L, ['x', 'y z'], ['--my-dirs']),
]
CUSTOM = [o for o in CUSTOM if not (o[2] == B and not o[4])]     # a boolean needs a positive flag to have a name
TABLE = {(o[0], o[1]): o for o in OPTIONS + CUSTOM}
BUILTIN = [(o[0], o[1]) for o in OPTIONS]
PLAIN = [k for k in BUILTIN if k[0] not in ('html5', 'mathjax-macros')]
FILES = ['a.ini', 'b.ini', 'c.cfg', 'sub/d.ini', 'ä e.ini']
WORDS = ['foo', 'bar', 'x', '1', 'a b', 'Über', 'no', 'c:d', 'e=f', '#g', ';h', "q'r", '"s t"', '$id', '[x]', '\\m', '-', 'a,b',
         'yes', 'http://h/p?q#r', '%', '100%', '{}']
BOOLS = {True: ['yes', 'true', 'on', 'Yes', 'True', 'ON'], False: ['no', 'false', 'off', 'No', 'False', 'OFF']}
BADVALUE = {I: ['abc', '', '1.5', '2x'], F: ['abc', '', '1,5'], B: ['maybe', '2', '']}


# ------------------------------------------------------------------ generation
def gen_raw(rng, refs=True, one_word=False):
    """Raw text of a string value: % doubled, references inserted."""
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if refs and r < .16:
            parts.append(gen_ref(rng))
        else:
            w = rng.choice(WORDS).replace('%', '%%')
            if one_word:
                w = w.replace(' ', '_')
            parts.append(w)
    return ('' if one_word else rng.choice(['', '', ' '])).join(parts)


REFKEYS = ['renderer', 'theme', 'title', 'kpsewhich', 'split-level', 'toc-depth', 'scale-factor', 'xml', 'enabled', 'cache',
           'plugins', 'lang-terms', 'directory', 'filename', 'bad-chars-sub', 'base-url', 'imager', 'compiler']


def gen_ref(rng):
    k = rng.choice(REFKEYS)
    if rng.random() < .02:
        k = 'nonexistent'
    conv = 's'
    if k in ('split-level', 'toc-depth'):
        conv = rng.choice(['s', 'd', '03d'])
    elif k == 'scale-factor':
        conv = rng.choice(['s', '.2f'])
    elif rng.random() < .15:
        conv = rng.choice(['10s', '-6s', '.2s'])
    return '%%(%s)%s' % (k, conv)


def gen_value(rng, key):
    """A raw value of the right type (what gets stored)."""
    typ = TABLE[key][2]
    if typ == S:
        return '' if rng.random() < .08 else gen_raw(rng).strip()
    if typ == I:
        return rng.choice([0, 1, -1, 2, 3, 5, -10, 12, 600, 99999999999])
    if typ == F:
        return rng.choice([0.0, 1.5, -0.25, 2.0, 1e-3, 1e9])
    if typ == B:
        return rng.random() < .5
    if typ == L:
        return [gen_raw(rng).strip() or 'e' for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    ent = TABLE[key][5]
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if ent == 'link':
            k = rng.choice(['next', 'prev', 'mylink', 'Other', 'up'])
            if rng.random() < .6:
                out[k + '-url'] = rng.choice(['https://example.com/2', 'x.html#a=b', 'u'])
            out[k + '-title'] = rng.choice(['The Next Document', 'T', 'ÄÖ', 'a=b'])
        elif ent == I:
            out[rng.choice(['chapter', 'section', 'Figure', 'part', 'myCounter'])] = rng.choice([0, 1, 4, -2, 10])
        elif ent == F:
            out[rng.choice(['math', 'tikzpicture', 'Picture', 'eqnarray*'])] = rng.choice([1.5, 2.0, 0.75])
        elif key[0] == 'logging':
            out[rng.choice(['parse.environments', 'test', 'root', 'Mixed.Case'])] = rng.choice(['DEBUG', 'INFO', 'ERROR'])
        else:
            out[rng.choice(['RR', 'rr', 'qedhere', 'NN', 'bold'])] = rng.choice(['\\mathbb{R}', '\\square', '{\\bf #1}', 'x=y'])
    return out


def gen_file(rng, keys):
    n = rng.choice([0, 1, 2, 3, 5, 9, 14])
    picks = rng.sample(keys, min(n, len(keys)))
    entries = [[list(k), gen_value(rng, k)] for k in picks]
    bad = None
    r = rng.random()
    if r < .04:
        bad = ['garbage', rng.choice(['no delimiter here', '[unclosed', '= value without key', '\x00'])]
    elif r < .08 and entries:
        cands = [i for i, e in enumerate(entries) if TABLE[tuple(e[0])][2] in BADVALUE]
        if cands:
            i = rng.choice(cands)
            bad = ['value', i, rng.choice(BADVALUE[TABLE[tuple(entries[i][0])][2]])]
    elif r < .11:
        bad = ['headless', 'x=1']
    noise = []
    if rng.random() < .2:
        noise.append(rng.choice([['files', 'no-such-option', 'x'], ['nosuchsection', 'a', 'b'], ['document', 'tilte', '%(oops']]))
    return {'entries': entries, 'bad': bad, 'noise': noise, 'style': rng.randrange(1 << 30)}


def gen_cli(rng, keys):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 7])):
        k = rng.choice(keys)
        v = gen_value(rng, k)
        if TABLE[k][2] == B and not TABLE[k][5] and v is False:
            v = True
        out.append([list(k), v])
        if rng.random() < .12:
            v = gen_value(rng, k)
            if not (TABLE[k][2] == B and not TABLE[k][5] and v is False):
                out.append([list(k), v])
    return {'args': out, 'style': rng.randrange(1 << 30)}


def gen_fault(rng, paths):
    if rng.random() < .25 and paths:
        kind = rng.choice(['eacces', 'eio', 'eio', 'missing', 'dir'])
        return {'kind': kind, 'file': rng.randrange(len(paths)), 'after': rng.choice([0, 1, 2, 3, 5, 8])}
    return None


def gen(rng, tier, index):
    # few keys, so that sources meet on the same options
    focus = rng.sample(BUILTIN, rng.choice([3, 5, 8, 20, len(BUILTIN)]))
    if rng.random() < .5:
        focus += [('custom', k) for k in rng.sample(['name', 'level', 'ratio', 'verbose', 'dirs'], 3)]
    steps = []
    ncfg = 1
    kinds = [['full']]
    for _ in range(rng.choice([2, 4, 6, 9, 14])):
        r = rng.random()
        c = rng.randrange(ncfg)
        if r < .22:
            steps.append(['file', rng.randrange(len(FILES)), gen_file(rng, focus)])
        elif r < .42:
            paths = [rng.randrange(len(FILES)) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .5:
                # the file is certainly there
                steps.append(['file', paths[0], gen_file(rng, focus)])
            steps.append(['read', c, paths, rng.random() < .5, gen_fault(rng, paths)])
        elif r < .57:
            steps.append(['cli', c, gen_cli(rng, focus)])
        elif r < .72:
            paths = [rng.randrange(len(FILES)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            for p in paths:
                if rng.random() < .5:
                    steps.append(['file', p, gen_file(rng, focus)])
            steps.append(['main', paths, gen_cli(rng, [k for k in focus if k[0] != 'custom'] or [('general', 'theme')]),
                          gen_fault(rng, paths), rng.randrange(1 << 16)])
        elif r < .87:
            k = rng.choice(focus)
            steps.append(['set', c, list(k), gen_value(rng, k)])
        elif r < .92:
            ks = [k for k in BUILTIN if TABLE[k][2] == L]
            k1, k2 = rng.sample(ks, 2)
            steps.append(['same', c, rng.randrange(ncfg), list(k1), list(k2), gen_value(rng, k1)])
        elif r < .95:
            steps.append(['help', c])
        elif ncfg < 3:
            rc = [gen_file(rng, focus) if rng.random() < .6 else None for _ in range(3)]
            kind = ['plain'] if rng.random() < .4 else ['rc', rc]
            steps.append(['new', kind])
            ncfg += 1
    return {'steps': steps}


def shrink(plan):
    yield from shrink_lists(plan, [('steps',)])
    for i, st in enumerate(plan['steps']):
        if st[0] == 'file':
            yield from shrink_lists(plan, [('steps', i, 2, 'entries'), ('steps', i, 2, 'noise')])
            if st[2]['bad']:
                yield replace_at(plan, ('steps', i, 2, 'bad'), None)
            if st[2]['style']:
                yield replace_at(plan, ('steps', i, 2, 'style'), 0)
            base, ents = ('steps', i, 2, 'entries'), st[2]['entries']
        elif st[0] in ('cli', 'main'):
            yield from shrink_lists(plan, [('steps', i, 2, 'args')])
            if st[2]['style']:
                yield replace_at(plan, ('steps', i, 2, 'style'), 0)
            base, ents = ('steps', i, 2, 'args'), st[2]['args']
            if st[0] == 'main':
                yield from shrink_lists(plan, [('steps', i, 1)])
                if st[3]:
                    yield replace_at(plan, ('steps', i, 3), None)
        elif st[0] == 'read':
            yield from shrink_lists(plan, [('steps', i, 2)])
            if st[4]:
                yield replace_at(plan, ('steps', i, 4), None)
            continue
        elif st[0] == 'set':
            base, ents = ('steps', i, 3), None
            for v in simpler(TABLE[tuple(st[2])], st[3]):
                yield replace_at(plan, base, v)
            continue
        else:
            continue
        for j, (k, v) in enumerate(ents):
            for w in simpler(TABLE[tuple(k)], v):
                yield replace_at(plan, base + (j,), [k, w])


def simpler(opt, v):
    if opt[2] == S and len(v) > 1:
        yield 'v'
        yield v[:len(v) // 2].rstrip('%')
    if opt[2] == L:
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
    if opt[2] == D and len(v) > 1:
        for k in v:
            yield {a: b for a, b in v.items() if a != k}


# ------------------------------------------------------------------ texts
def spell_value(key, v, rng):
    typ = TABLE[key][2]
    if typ == S:
        return v
    if typ == B:
        return rng.choice(BOOLS[v])
    if typ == L:
        q = [shlex.quote(x) for x in v]
        return rng.choice([' ', '  ', '\n  '] if len(q) > 1 else [' ']).join(q)
    return repr(v) if typ == F else str(v)


def file_text(f):
    """Text of a configuration file and the assignments it stands for, in order."""
    rng = random.Random(f['style'])
    sections = {}
    for i, (k, v) in enumerate(f['entries']):
        sections.setdefault(k[0], []).append((i, tuple(k), v))
    for s, k, v in f['noise']:
        sections.setdefault(s, []).append((None, (s, k), v))
    names = sorted(sections)
    rng.shuffle(names)
    out = []
    if f['bad'] and f['bad'][0] == 'headless':
        out.append(f['bad'][1])
    effects = []
    for s in names:
        out.append('[%s]' % s)
        items = list(sections[s])
        rng.shuffle(items)
        for i, key, v in items:
            d = rng.choice(['=', ' = ', ': ', '= '])
            if rng.random() < .1:
                out.append(rng.choice(['', '# comment', '; renderer=comment']))
            if i is None:
                out.append(key[1] + d + v)
                continue
            if f['bad'] and f['bad'][0] == 'value' and f['bad'][1] == i:
                out.append(key[1] + d + f['bad'][2])
                effects.append((key, None))
                continue
            if TABLE[key][2] == D:
                # entries as lines of the section, or all in one value
                if rng.random() < .25 and not any(',' in str(x) or '=' in a for a, x in v.items()):
                    out.append(key[1] + d + rng.choice([',', ', ']).join('%s=%s' % (a, spell_entry(x)) for a, x in v.items()))
                else:
                    for a, x in v.items():
                        out.append(a + d + spell_entry(x))
            else:
                out.append(key[1] + d + spell_value(key, v, rng))
            effects.append((key, v))
    if f['bad'] and f['bad'][0] == 'garbage':
        # not after a line it could continue
        out.append('[general]' if rng.random() < .5 and 'general' not in names else '')
        out.insert(rng.randrange(len(out) + 1) if not any('\n' in x for x in out) else len(out), f['bad'][1])
    return '\n'.join(out) + rng.choice(['\n', '', '\n\n']), effects


def spell_entry(x):
    return repr(x) if isinstance(x, float) else str(x)


def cli_args(c, ok):
    """argv and the assignments it stands for."""
    rng = random.Random(c['style'])
    argv = []
    effects = []
    for k, v in c['args']:
        key = tuple(k)
        if not ok(key):
            continue
        o = TABLE[key]
        flag = rng.choice(o[4]) if o[4] else None
        if o[2] == B:
            if v is False and not o[5]:
                continue
            argv.append(rng.choice(o[4] if v else o[5]))
        elif o[2] == L:
            vals = [x for x in v if not x.startswith('-') and x]
            if vals != v:
                continue
            argv.append(flag)
            argv += v
        elif o[2] == D:
            if o[5] == 'link':
                names = []
                for a in v:
                    b = a.rsplit('-', 1)[0]
                    if b not in names:
                        names.append(b)
                for b in names:
                    argv += [flag, b] + ([v[b + '-url']] if b + '-url' in v else []) + [v[b + '-title']]
            else:
                for a, x in v.items():
                    argv += [flag, a, spell_entry(x)]
        else:
            t = spell_value(key, v, rng)
            if flag.startswith('--'):
                if rng.random() < .5 or t.startswith('-'):
                    argv.append(flag + '=' + t)
                else:
                    argv += [flag, t]
            elif t.startswith('-') or not t:
                argv.append(o[4][0] + '=' + t)
            else:
                argv += rng.choice([[flag, t], [flag + t]]) if not t.startswith('=') else [flag, t]
        effects.append((key, v))
    return argv, effects


# ------------------------------------------------------------------ reference model
class Unresolvable(Exception):
    pass


class Model:
    def __init__(self, keys):
        self.v = {k: (list(TABLE[k][3]) if TABLE[k][2] == L else dict(TABLE[k][3]) if TABLE[k][2] == D else TABLE[k][3])
                  for k in keys}
        self.src = {}

    def layer(self, effects, src, sim=None):
        for k, v in effects:
            if k not in self.v:
                continue
            t = TABLE[k][2]
            if t == L:
                self.v[k] = self.v[k] + v
            elif t == D:
                self.v[k] = dict(self.v[k], **v)
            else:
                self.v[k] = v
            if sim is not None and k in self.src and self.src[k] != src:
                sim.probe('option set by two kinds of sources')
            self.src[k] = src

    def value(self, k, stack=()):
        v = self.v[k]
        if isinstance(v, str):
            return self.expand(v, stack + (k,))
        if isinstance(v, list):
            return [self.expand(x, stack + (k,)) for x in v]
        return v

    def expand(self, s, stack):
        out = ''
        i = 0
        while i < len(s):
            if s[i] != '%':
                out += s[i]
                i += 1
                continue
            if s.startswith('%%', i):
                out += '%'
                i += 2
                continue
            m = re.compile(r'%\(([^)]*)\)([-0-9.]*)([sdf])').match(s, i)
            if not m:
                raise Unresolvable
            for k in self.v:
                if k[1] == m.group(1):
                    break
            else:
                raise Unresolvable
            if k in stack:
                raise Unresolvable
            out += ('%' + m.group(2) + m.group(3)) % (str(self.value(k, stack)) if m.group(3) == 's' else self.value(k, stack),)
            i = m.end()
        return out


# ------------------------------------------------------------------ the disk
class FailingFile:
    """A text file whose reading fails after a number of lines."""
    def __init__(self, fh, after):
        self.fh = fh
        self.left = after

    def __getattr__(self, name):
        return getattr(self.fh, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.fh.close()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readline(self, *a):
        if self.left <= 0:
            raise OSError(5, os.strerror(5))
        self.left -= 1
        return self.fh.readline(*a)

    def read(self, *a):
        raise OSError(5, os.strerror(5))

    def readlines(self, *a):
        raise OSError(5, os.strerror(5))


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.fault = None          # (path, kind, after)
        self.fired = False
        self.redirect = {}

    @contextlib.contextmanager
    def installed(self):
        real_open, real_stat, real_walk = io.open, os.stat, os.walk

        def target(p):
            try:
                q = os.fspath(p)
            except TypeError:
                return p
            return self.redirect.get(q, p)

        def sim_open(file, *a, **kw):
            if not isinstance(file, (str, os.PathLike)):
                return real_open(file, *a, **kw)
            file = target(file)
            p = os.path.realpath(os.fspath(file))
            if self.fault and p == self.fault[0]:
                if self.fault[1] == 'eacces':
                    self.fired = True
                    raise PermissionError(13, os.strerror(13), p)
                if self.fault[1] == 'eio':
                    self.fired = True
                    return FailingFile(real_open(file, *a, **kw), self.fault[2])
            return real_open(file, *a, **kw)

        def sim_stat(p, *a, **kw):
            return real_stat(p if isinstance(p, int) else target(p), *a, **kw)

        builtins.open = io.open = sim_open
        os.stat = sim_stat
        try:
            yield
        finally:
            builtins.open = io.open = real_open
            os.stat = real_stat


# ------------------------------------------------------------------ execution
def add_custom(config):
    s = config.addSection('custom')
    s['name'] = StringOption('name', '--my-name -n', 'me')
    s['level'] = IntegerOption('level', '--my-level', 7)
    s['ratio'] = FloatOption('ratio', '--my-ratio', 0.5)
    s['verbose'] = BooleanOption('talk', '--my-verbose -V !--my-quiet !-q', False)
    s['dirs'] = MultiStringOption('dirs', '--my-dirs', ['x', 'y z'])


def copy(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


class World:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = root
        self.disk = Disk(root)
        self.cfgs = []
        self.models = []
        self.files = {}            # index -> file spec
        self.sources = set()
        self.step = None

    def path(self, i):
        return os.path.join(self.root, FILES[i])

    def write(self, path, f):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with io.open(path, 'w', encoding='utf-8') as fh:
            fh.write(file_text(f)[0])

    # every option of every configuration, read back
    def compare(self):
        for cfg, m in zip(self.cfgs, self.models):
            self.compare_one(cfg, m)

    def compare_one(self, cfg, m):
        sim = self.sim
        for k in m.v:
            try:
                want = m.value(k)
            except Unresolvable:
                continue
            except ValueError:
                continue
            got = sim.code('exception', self.get, cfg, k)
            sim.check(type(got) is type(want) or (isinstance(want, list) and isinstance(got, (list, tuple))),
                      'type', lambda: '[%s] %s is %r after %r, expected %r' % (k + (got, self.step, want)), '%s.%s' % k)
            sim.check((list(got) if isinstance(want, list) else got) == want, 'value',
                      lambda: '[%s] %s is %r after %r, expected %r' % (k + (got, self.step, want)), '%s.%s' % k)
            got = sim.code('exception', cfg[k[0]].get, k[1])
            sim.check((list(got) if isinstance(want, list) and isinstance(got, tuple) else got) == want, 'value',
                      lambda: '[%s] get(%s) is %r after %r, expected %r' % (k + (got, self.step, want)), '%s.%s' % k)
        for sec in sorted(set(k[0] for k in m.v)):
            names = set(sim.code('exception', cfg[sec].keys))
            missing = sorted(k[1] for k in m.v if k[0] == sec and k[1] not in names)
            sim.check(not missing, 'value', lambda: 'options %s of [%s] are not listed' % (missing, sec), sec)

    @staticmethod
    def get(cfg, k):
        return cfg[k[0]][k[1]]

    def raw(self, cfg, k):
        """The stored value of an option, by reading it back (only used after a damaged file)."""
        section = cfg[k[0]]
        for d in [section] + list(vars(section).values()):
            if isinstance(d, dict) and hasattr(d.get(k[1]), 'value'):
                return d[k[1]].value
        return self.get(cfg, k)

    # effects of a list of files; returns False when the state is uncertain from some file on
    def layer_files(self, cfg, m, specs, raised):
        """specs: [(effects or None if unusable or absent, mode)] in order; mode: ok|absent|broken"""
        sim = self.sim
        uncertain = False
        for effects, mode in specs:
            if mode == 'absent':
                sim.fault('configuration file missing or unreadable')
                continue
            if mode == 'ok' and not uncertain:
                m.layer(effects, 'file', sim)
                continue
            if mode == 'broken':
                sim.fault('malformed configuration file')
            uncertain = True
            # this file and the following ones: each option may or may not have been set
            self.settle(cfg, m, effects)
        return uncertain

    def settle(self, cfg, m, effects):
        for k, v in effects:
            if k not in m.v:
                continue
            m.pending.setdefault(k, [copy(m.v[k])])
            if v is None:
                continue
            opts = m.pending[k]
            for old in list(opts):
                t = TABLE[k][2]
                if t == D:
                    # some prefix of the entries may have been added
                    cur = dict(old)
                    for a, x in v.items():
                        cur = dict(cur, **{a: x})
                        opts.append(cur)
                else:
                    opts.append(old + v if t == L else v)

    def resolve(self, cfg, m):
        for k, opts in m.pending.items():
            got = copy(self.raw(cfg, k))
            self.sim.check(any(got == o and type(got) is type(o) for o in opts), 'value',
                           lambda: '[%s] %s is %r after %r, expected one of %r' % (k + (got, self.step, opts)), '%s.%s' % k)
            m.v[k] = got
            m.src[k] = 'file'
        m.pending = {}

    def specs(self, indices, fault):
        out = []
        for n, i in enumerate(indices):
            f = self.files.get(i)
            hit = fault and indices[fault['file'] % len(indices)] == i
            if f is None or (hit and not (f['bad'] and fault['kind'] == 'eio')):
                out.append(([], 'absent'))
                continue
            effects = file_text(f)[1]
            out.append((effects, 'broken' if f['bad'] else 'ok'))
        return out

    def with_fault(self, indices, fault, fn):
        """Runs fn while reading the file of the fault fails."""
        if not fault:
            return fn()
        p = self.path(indices[fault['file'] % len(indices)])
        saved = p + '.saved'
        self.disk.fired = False
        if fault['kind'] in ('missing', 'dir') and os.path.exists(p):
            os.rename(p, saved)
        if fault['kind'] == 'dir':
            os.makedirs(p)
        if fault['kind'] in ('eacces', 'eio'):
            after = 0
            if os.path.isfile(p):
                with io.open(p, encoding='utf-8') as fh:
                    after = fault['after'] % (len(fh.readlines()) + 1)
            self.disk.fault = (os.path.realpath(p), fault['kind'], after)
        try:
            return fn()
        finally:
            self.disk.fault = None
            if fault['kind'] == 'dir':
                os.rmdir(p)
            if os.path.exists(saved):
                os.rename(saved, p)
            self.sim.fault('configuration file: ' + fault['kind'])

    def run(self, plan):
        sim = self.sim
        self.new(['full'])
        for st in plan['steps']:
            self.step = st if len(repr(st)) < 300 else repr(st)[:300] + '...'
            getattr(self, 'op_' + st[0])(*st[1:])
            self.compare()
        # a configuration made now has the documented defaults again
        self.step = 'creating a further configuration at the end'
        self.new(['full'])
        self.compare_one(self.cfgs[-1], self.models[-1])

    def new(self, kind):
        sim = self.sim
        if kind[0] == 'rc':
            home = os.path.join(self.root, 'home')
            os.makedirs(home, exist_ok=True)
            names = [os.path.join(home, '.plasTeXrc'), os.path.join(self.root, 'rc1'), os.path.join(self.root, 'rc2')]
            for n, f in zip(names, kind[1]):
                if f is None:
                    with contextlib.suppress(FileNotFoundError):
                        os.unlink(n)
                else:
                    self.write(n, f)
            self.disk.redirect = {'/usr/local/etc/plasTeXrc': names[1],
                                  os.path.join(os.path.dirname(plasTeX.Config.__file__), 'plasTeXrc'): names[2]}
            files = [f for f in kind[1] if f is not None]
            if any(f['bad'] for f in files):
                # which of the three comes first is not stated: leave damaged ones out
                kind = ['plain']
        else:
            files = []
        rc = kind[0] == 'rc'
        cfg = sim.code('exception', defaultConfig, **({'loadConfigFiles': True} if rc else {}))
        m = Model(PLAIN)
        m.pending = {}
        if rc:
            # the three files can come in any order, so only options that one of them sets are certain
            count = {}
            for f in files:
                for k, v in file_text(f)[1]:
                    count.setdefault(k, []).append(v)
            for k, vs in count.items():
                if len(vs) == 1:
                    m.layer([(k, vs[0])], 'file')
                elif k in m.v:
                    m.v[k] = copy(self.raw(cfg, k))
            self.sources.add('file')
        self.disk.redirect = {}
        if kind[0] == 'full':
            sim.code('exception', plasTeX.client.collect_renderer_config, cfg)
            add_custom(cfg)
            m = Model(list(TABLE))
            m.pending = {}
        self.cfgs.append(cfg)
        self.models.append(m)

    def op_new(self, kind):
        self.new(kind)
        self.sim.ev('new', kind[0])

    def op_file(self, i, f):
        self.write(self.path(i), f)
        self.files[i] = f
        self.sim.ev('file', i, kernel.digest(f)[:12])

    def op_read(self, c, indices, single, fault):
        sim = self.sim
        if not indices or c >= len(self.cfgs):
            return
        cfg, m = self.cfgs[c], self.models[c]
        specs = self.specs(indices, fault)
        paths = [self.path(i) for i in indices]
        broken = any(mode == 'broken' for _, mode in specs)

        def go():
            if single:
                for p in paths:
                    cfg.read(p)
            else:
                cfg.read(paths)

        with contextlib.redirect_stdout(io.StringIO()):
            try:
                self.with_fault(indices, fault, lambda: sim.code('exception', go, allow=(Exception,) if broken else (OSError,)))
                raised = None
            except Exception as e:
                if isinstance(e, kernel.Violation):
                    raise
                raised = type(e).__name__
        if isinstance(raised, str) and not broken:
            # an unreadable file may be reported, but must not change anything
            if not fault:
                sim.check(False, 'exception', '%s while reading %r' % (raised, indices))
            specs = [(e, 'broken') for e, _ in specs]
        self.layer_files(cfg, m, specs, raised)
        self.resolve(cfg, m)
        self.sources.add('file')
        sim.ev('read', c, indices, raised)

    def op_cli(self, c, cli):
        sim = self.sim
        if c >= len(self.cfgs):
            return
        cfg, m = self.cfgs[c], self.models[c]
        argv, effects = cli_args(cli, lambda k: k in m.v)
        parser = argparse.ArgumentParser('plasTeX')
        err = io.StringIO()

        def go():
            cfg.registerArgparse(parser)
            data = vars(parser.parse_args(argv))
            cfg.updateFromDict(data)
        with contextlib.redirect_stderr(err):
            try:
                sim.code('exception', go, allow=(SystemExit,))
            except SystemExit:
                sim.check(False, 'cli', 'command line %r refused: %s' % (argv, err.getvalue()[-200:]))
        m.layer(effects, 'cli', sim)
        if effects:
            self.sources.add('cli')
        sim.ev('cli', c, [a.replace(self.root, '') for a in argv])

    def op_main(self, indices, cli, fault, order):
        sim = self.sim
        m = Model([k for k in BUILTIN])
        m.pending = {}
        argv, effects = cli_args(cli, lambda k: k in m.v)
        specs = self.specs(indices, fault)
        broken = any(mode == 'broken' for _, mode in specs)
        copts = []
        for n, i in enumerate(indices):
            copts += [['-c', self.path(i)], ['--config', self.path(i)], ['--config=' + self.path(i)]][(order >> n) % 3]
        # the position of the configuration files on the command line makes no difference
        full = copts + argv if order & 8 else argv + copts
        full = full + ['--', 'document.tex']
        seen = []
        real = plasTeX.Compile.run, plasTeX.client.run, os.walk

        def run(filename, config):
            seen.append((filename, config))

        def walk(*a, **kw):
            for base, dirs, names in real[2](*a, **kw):
                dirs.sort()
                random.Random(order).shuffle(dirs)
                yield base, dirs, names
        err = io.StringIO()
        plasTeX.Compile.run = plasTeX.client.run = run
        os.walk = walk
        raised = None
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
                try:
                    self.with_fault(indices, fault, lambda: sim.code(
                        'exception', plasTeX.client.main, full, allow=(Exception, SystemExit) if broken else (OSError, SystemExit)))
                except SystemExit:
                    sim.check(False, 'cli', 'command line %r refused: %s' % (full, err.getvalue()[-200:]))
                except Exception as e:
                    if isinstance(e, kernel.Violation):
                        raise
                    raised = type(e).__name__
        finally:
            plasTeX.Compile.run, plasTeX.client.run, os.walk = real
        sim.ev('main', [a.replace(self.root, '') for a in full[-12:]], raised)
        if raised:
            sim.check(broken or fault is not None, 'exception', '%s for command line %r' % (raised, full))
            return
        sim.check(len(seen) == 1 and seen[0][0] == 'document.tex', 'cli', lambda: 'command line %r ran %r' % (full, [x[0] for x in seen]))
        cfg = seen[0][1]
        m.v = {k: m.v[k] for k in m.v if k[0] in cfg}
        for k in BUILTIN:
            sim.check(k[0] in cfg, 'section', lambda: 'section %s is missing' % k[0])
        self.layer_files(cfg, m, specs, None)
        if m.pending:
            # an unusable file was accepted: what it set is uncertain, the command line still wins
            for k, v in effects:
                if k in m.pending:
                    t = TABLE[k][2]
                    m.pending[k] = [o + v if t == L else dict(o, **v) if t == D else v for o in m.pending[k]]
        m.layer([e for e in effects if e[0] not in m.pending], 'cli', sim)
        self.resolve(cfg, m)
        self.compare_one(cfg, m)
        if specs:
            self.sources.add('file')
        if effects:
            self.sources.add('cli')

    def op_set(self, c, key, v):
        key = tuple(key)
        if c >= len(self.cfgs) or key not in self.models[c].v:
            return
        self.cfgs[c][key[0]][key[1]] = copy(v)
        self.models[c].v[key] = copy(v)
        self.models[c].src[key] = 'set'
        self.sources.add('set')
        self.sim.ev('set', c, key, v)

    def op_same(self, c1, c2, k1, k2, v):
        """One list object is the value of two options."""
        k1, k2 = tuple(k1), tuple(k2)
        if max(c1, c2) >= len(self.cfgs):
            return
        obj = list(v)
        for c, k in ((c1, k1), (c2, k2)):
            if k in self.models[c].v:
                self.cfgs[c][k[0]][k[1]] = obj
                self.models[c].v[k] = list(v)
                self.models[c].src[k] = 'set'
        self.sources.add('set')
        self.sim.ev('same', c1, c2, k1, k2, v)

    def op_help(self, c):
        if c >= len(self.cfgs):
            return
        parser = argparse.ArgumentParser('plasTeX')

        def go():
            self.cfgs[c].registerArgparse(parser)
            return parser.format_help()
        text = self.sim.code('exception', go)
        for k in self.models[c].v:
            for flags in TABLE[k][4:]:
                for f in flags if isinstance(flags, list) else []:
                    self.sim.check(re.search(r'(?<![\w-])' + re.escape(f) + r'(?![\w-])', text), 'help',
                                   lambda: 'the help does not know %s' % f)
        self.sim.ev('help', c)


def execute(plan, sim):
    root = tempfile.mkdtemp(prefix='c16-', dir=kernel.scratch_root())
    home, cwd = os.environ.get('HOME'), os.getcwd()
    os.environ['HOME'] = os.path.join(root, 'home')
    w = World(sim, root)
    try:
        os.makedirs(os.path.join(root, 'home'))
        os.chdir(root)
        with w.disk.installed():
            w.run(plan)
    finally:
        os.chdir(cwd)
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home
        shutil.rmtree(root, ignore_errors=True)
    for m in w.models:
        sim.state(sorted((k[0], k[1], s) for k, s in m.src.items()))
    if len(w.sources) >= 2 and (sim.faults or sim.probes.get('option set by two kinds of sources')):
        sim.nontrivial = True
