r"""C01: tokenization follows TeX's lexical rules for every input and catcode table.

A run is a history of a reader and of everything that interferes with it while it reads: category codes are changed
(by the context, by the \catcode primitive, for verbatim material, by groups that end), tokens are put back, new inputs
are opened on top of unfinished ones and closed again, inputs break off, a device fails.  One or two documents are
read alternately.  After every request the token is compared with that of a lexer written after chapters 7 and 8 of
the TeXbook, which looks at a character only when TeX would.
"""
import io
import logging
import os

from sim.kernel import Violation, shrink_lists, replace_at

from plasTeX.TeX import TeX
from plasTeX.Tokenizer import (Alignment, BeginGroup, EndGroup, EscapeSequence, Letter, MathShift, Other, Parameter,
                               Space, Subscript, Superscript)

LEVEL = 'exercise'
BATCH = 60
TIMEOUT = 20
RUNS_QUICK = 24000
RUNS_THOROUGH = 900000
RULE = ('a run is non-trivial if at least 12 tokens were compared, a category code changed between two of them, and an input broke off, '
        'a device failed or tokens were put back; distinct by trace digest')
STATE_MEASURE = 'distinct (state of the lexer, categories of the next three characters, kind of the last token) digests at a request'
REAL = ['plasTeX.Tokenizer, TeX.itertokens, input, endInput, pushToken, pushTokens, Context.catcode, whichCode, setVerbatimCatcodes, push, pop, '
        'the \\catcode primitive']
STUB = ['some inputs are read from a device of the harness that fails at a chosen character']
ASSUMPTIONS = ['the input is a sequence of characters, a line ends with a newline character, and no end of line is added at the end of the input',
               'a run of blank lines makes one paragraph token (the repository has a test that demands it)',
               'an active character is the control sequence active::<character>',
               '^^ directly before the end of a line is left out: the character at the end of a line is 13 in TeX and 10 here']
TIME_NOTE = 'no simulated clock: nothing here reads one'

# ------------------------------------------------------------------ generation
CHARS = ['\\', '{', '}', '$', '&', '#', '^', '_', '~', '%', ' ', '\t', '\n', '\r', '\0', 'a', 'b', 'A', 'z', '5', 'e', 'M', '@', '.', '/', '-', ':',
         'é', 'λ', '\U0001f600', '\x01', '\x7f', '\x0c', '\x80', '\xff', '\u2028', '`', '?', '0', 'F', '\x0b', '\x1c', '\x85']
CHUNKS = ['\\a', '\\ab', '\\foo', '\\par', '\\par\n\n', '\\ ', '\\\n', '\\%', '\\\\', '^^M', '^^5e', '^^5c', '^^I', '^^@', '^^é', '^^', '^^^', '^^^^', '^^7', '^^7g', '^^7f',
          '^^4E', '^^0a', '^^J', '^^ff', '^^a', '^^,', '\n\n', '\n \n', '\n\n\n', '  ', ' \n', '%c\n', '%', '% x\n\n', '\n  ', '\\a \n', '\\a\n\n', '\\ \n', '\\@', '\\a@ b',
          '\\a5 ', '\\5 x', '\\é x', '\\^^M', '\\^^62 ', '\\a^^62c d', '^^5cpar', '~', '~ ', '\\~ ', '#1', '{a}', '$x^2$', '\\a\0b', '\\\0', 'a\0', ' \0 ', '\\a%\n b', '\\%%\n',
          '\\end{a}', '\\begin{a}', 'word', 'a b', '\\a{b} c', '^^A', '^^?', '\\a^b', '\\a^^', '\\^', '\r\n', '\r', 'x\r\n\r\ny', '^^5e^5e', '^^5e^A', '\\a^^5e^5e', 'é ', '\\aé ']
# letters, digits and others that a code may be set to as well
CODES = list(range(16))
TOKENS = [('BeginGroup', '{'), ('EndGroup', '}'), ('MathShift', '$'), ('Alignment', '&'), ('Parameter', '#'), ('Superscript', '^'), ('Subscript', '_'),
          ('Space', ' '), ('Letter', 'q'), ('Other', '7'), ('EscapeSequence', 'foo'), ('EscapeSequence', 'par'), ('EscapeSequence', ' '), ('EscapeSequence', 'active::~'),
          ('Letter', '@'), ('Other', '\\'), ('Other', '^'), ('Letter', '5')]
CLASSES = {c.__name__: c for c in (Alignment, BeginGroup, EndGroup, EscapeSequence, Letter, MathShift, Other, Parameter, Space, Subscript, Superscript)}
CATEGORY = {'EscapeSequence': 0, 'BeginGroup': 1, 'EndGroup': 2, 'MathShift': 3, 'Alignment': 4, 'Parameter': 6, 'Superscript': 7, 'Subscript': 8, 'Space': 10,
            'Letter': 11, 'Other': 12}
BYCODE = {v: k for k, v in CATEGORY.items()}


def gen_text(rng, tier):
    n = rng.choice([0, 1, 2, 4, 8, 14, 24] if tier == 'quick' else [0, 1, 3, 8, 20, 50, 120])
    few = rng.sample(CHARS, 5) + ['\\', '\n', ' ']
    style = rng.random()
    out = []
    for _ in range(n):
        if style < .5:
            r = rng.random()
            out.append(rng.choice(CHUNKS) if r < .55 else rng.choice(CHARS) if r < .93 else '^^' + rng.choice(CHARS) + rng.choice('0aAfF9g^ '))
        elif style < .75:
            out.append(rng.choice(few))
        else:
            out.append(rng.choice(CHARS))
    return ''.join(out)


def gen_cat(rng, text):
    pool = [c for c in text] + ['^', '\\', ' ', '\n', '%', '@', 'a'] if rng.random() < .7 else CHARS
    c = rng.choice(pool)
    return c, rng.choice(CODES if rng.random() < .6 else [0, 5, 7, 9, 10, 11, 12, 13, 14, 15])


def gen_src(rng, tier):
    text = gen_text(rng, tier)
    kind = rng.choice(['str', 'str', 'str', 'bytes', 'dev', 'dev', 'file', 'tokens'])
    src = {'kind': kind, 'text': text}
    if kind == 'tokens':
        src = {'kind': kind, 'tokens': [rng.randrange(len(TOKENS)) for _ in range(rng.randrange(6))]}
    elif text and rng.random() < .35:
        if kind == 'dev' and rng.random() < .5:
            src['eio'] = rng.randrange(len(text))
        else:
            src['cut'] = rng.randrange(len(text))
    return src


def gen(rng, tier, index):
    ndocs = rng.choice([1, 1, 2])
    plan = {'docs': [], 'ops': []}
    calm = rng.random() < .25
    for _ in range(ndocs):
        src = gen_src(rng, tier)
        cats = []
        mode = rng.random()
        if mode < .3:
            cats = [('@', 11)] if rng.random() < .5 else []
        elif mode < .75:
            cats = [gen_cat(rng, src.get('text', '')) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        else:
            # a random table
            cats = [(c, rng.choice(CODES)) for c in rng.sample(CHARS, rng.randrange(len(CHARS)))]
        plan['docs'].append({'src': src, 'cats': cats, 'verb': rng.random() < .05, 'fresh': rng.random() < .5})
    text = ''.join(d['src'].get('text', '') for d in plan['docs'])
    for _ in range(rng.choice([1, 4, 10, 24] if tier == 'quick' else [4, 20, 60, 150])):
        d = rng.randrange(ndocs)
        r = rng.random()
        if r < .5 or calm and r < .9:
            plan['ops'].append(['next', d, rng.choice([1, 1, 1, 2, 3, 6])])
        elif r < .68:
            plan['ops'].append([rng.choice(['cat', 'cat', 'prim']), d] + list(gen_cat(rng, text)))
        elif r < .76:
            plan['ops'].append(['back', d, rng.choice([1, 1, 2, 4]), rng.random() < .5])
        elif r < .8:
            plan['ops'].append(['give', d, [rng.randrange(len(TOKENS)) for _ in range(rng.choice([1, 1, 2, 3]))]])
        elif r < .86:
            plan['ops'].append(['group', d])
        elif r < .92:
            plan['ops'].append(['ungroup', d])
        elif r < .93:
            plan['ops'].append(['verb', d])
        elif r < .98:
            src = gen_src(rng, 'quick')
            text += src.get('text', '')
            plan['ops'].append(['src', d, src])
        else:
            plan['ops'].append(['end', d])
    return plan


def shrink(plan):
    yield from shrink_lists(plan, [('ops',), ('docs',)])
    for i, d in enumerate(plan['docs']):
        yield from shrink_lists(plan, [('docs', i, 'cats')])
        if d['verb']:
            yield replace_at(plan, ('docs', i, 'verb'), False)
        yield from shrink_src(plan, ('docs', i, 'src'), d['src'])
    for i, op in enumerate(plan['ops']):
        if op[0] == 'src':
            yield from shrink_src(plan, ('ops', i, 2), op[2])
        elif op[0] in ('next', 'back') and op[2] > 1:
            yield replace_at(plan, ('ops', i, 2), op[2] - 1)
        elif op[0] == 'prim':
            yield replace_at(plan, ('ops', i, 0), 'cat')
        if op[1]:
            yield replace_at(plan, ('ops', i, 1), 0)


def shrink_src(plan, path, src):
    if src['kind'] != 'tokens':
        t = src['text']
        for k in ('cut', 'eio'):
            if k in src:
                s = dict(src)
                s.pop(k)
                if k == 'cut':
                    s['text'] = t[:src[k]]
                yield replace_at(plan, path, s)
        if src['kind'] != 'str' and 'eio' not in src:
            yield replace_at(plan, path, dict(src, kind='str'))
        n = len(t)
        size = n // 2
        while size:
            for a in range(0, n, size):
                s = dict(src, text=t[:a] + t[a + size:])
                for k in ('cut', 'eio'):
                    if k in s:
                        s[k] = min(s[k], max(0, len(s['text']) - 1))
                yield replace_at(plan, path, s)
            size //= 2
    elif src['tokens']:
        yield replace_at(plan, path, dict(src, tokens=src['tokens'][1:]))


# ------------------------------------------------------------------ reference
class Broken(Exception):
    """ The device failed """


class Unspecified(Exception):
    """ Nothing is said about this """


DEFAULT = {'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, '\0': 9, ' ': 10, '\t': 10, '\r': 10, '\f': 10, '~': 13, '%': 14}
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
for _c in LETTERS + LETTERS.upper():
    DEFAULT[_c] = 11
VERBATIM = {c: 11 for c in LETTERS + LETTERS.upper()}
HEX = '0123456789abcdef'
N, M, S = 'NMS'


class Source:
    """ One input.  Characters are pairs of character and whether they end a line """
    def __init__(self, table, text=None, tokens=(), eio=None):
        self.table = table
        self.chars = [(c, c == '\n') for c in text or '']
        self.pos = 0
        self.eio = eio
        self.state = N
        self.prev = None
        self.pending = list(tokens)

    def at(self, i):
        """ Character i, None after the last """
        if self.eio is not None and i >= self.eio:
            raise Broken()
        return self.chars[i] if i < len(self.chars) else None

    def cat(self, c):
        return self.table().get(c, 12)

    def expanded(self, i):
        """ Replaces ^^X at position i by its character, as TeX does within its buffer """
        c, eol = self.at(i)
        if self.cat(c) != 7 or eol:
            return False
        second = self.at(i + 1)
        if second is None or second[0] != c or second[1]:
            return False
        third = self.at(i + 2)
        if third is None or ord(third[0]) >= 128:
            return False
        if third[1]:
            raise Unspecified()
        n = 3
        code = ord(third[0]) ^ 64
        if third[0] in HEX:
            fourth = self.at(i + 3)
            if fourth is not None and fourth[0] in HEX:
                n = 4
                code = int(third[0] + fourth[0], 16)
        if self.eio is not None:
            self.eio -= n - 1
        self.chars[i:i + n] = [(chr(code), False)]
        return True

    def line(self):
        """ Skips the rest of the line """
        while True:
            c = self.at(self.pos)
            if c is None:
                return
            self.pos += 1
            if c[1]:
                return

    def token(self):
        """ The next token, None at the end """
        if self.pending:
            return self.pending.pop(0)
        t = self.lex()
        self.prev = t
        return t

    def lex(self):
        while True:
            if self.at(self.pos) is None:
                return None
            while self.expanded(self.pos):
                pass
            c, eol = self.chars[self.pos]
            self.pos += 1
            k = self.cat(c)
            state = self.state
            if k == 0:
                return self.sequence(eol)
            if k == 5:
                if not eol:
                    self.line()
                self.state = N
                if state == M:
                    return ('Space', ' ')
                if state == N and self.prev != ('EscapeSequence', 'par'):
                    return ('EscapeSequence', 'par')
                continue
            if k == 14:
                if not eol:
                    self.line()
                self.state = N
                continue
            if k in (9, 15):
                if eol:
                    self.state = N
                continue
            if k == 10:
                self.state = N if eol else state if state == N else S
                if state == M:
                    return ('Space', ' ')
                continue
            self.state = N if eol else M
            if k == 13:
                return ('EscapeSequence', 'active::' + c)
            return (BYCODE[k], c)

    def sequence(self, eol):
        """ A control sequence, behind its first character """
        if eol or self.at(self.pos) is None:
            self.state = N if eol else M
            return ('EscapeSequence', '')
        while self.expanded(self.pos):
            pass
        c, eol = self.chars[self.pos]
        self.pos += 1
        k = self.cat(c)
        if k != 11:
            self.state = N if eol else S if k == 10 else M
            # the end of the line is a character of its own kind
            return ('EscapeSequence', c if not eol else EOLNAMES)
        name = c
        while not eol and self.at(self.pos) is not None:
            while self.expanded(self.pos):
                pass
            c, eol = self.chars[self.pos]
            if self.cat(c) != 11:
                eol = False
                break
            name += c
            self.pos += 1
        self.state = N if eol else S
        return ('EscapeSequence', name)


EOLNAMES = (' ', '\n', '\r')


class Model:
    """ Inputs and category codes of one document """
    def __init__(self):
        self.tables = [dict(DEFAULT)]
        self.stack = []

    def table(self):
        return self.tables[-1]

    def source(self, src):
        if src['kind'] == 'tokens':
            return Source(self.table, tokens=[TOKENS[i] for i in src['tokens']])
        return Source(self.table, read_text(src), eio=src.get('eio'))

    def token(self):
        while self.stack:
            t = self.stack[-1].token()
            if t is not None:
                return t
            self.stack.pop()
        return None


def read_text(src):
    t = src['text'][:src['cut']] if 'cut' in src else src['text']
    if src['kind'] in ('bytes', 'file'):
        # universal newlines
        t = t.replace('\r\n', '\n').replace('\r', '\n')
    return t


# ------------------------------------------------------------------ execution
class Device:
    """ An input that fails at one of its characters """
    name = 'device.tex'

    def __init__(self, text, eio, sim):
        self.text, self.eio, self.pos, self.sim = text, eio, 0, sim

    def read(self, n=-1):
        out = ''
        while (n < 0 or len(out) < n) and self.pos < len(self.text):
            if self.eio is not None and self.pos >= self.eio:
                self.sim.fault('eio')
                raise OSError(5, 'injected', self.name)
            out += self.text[self.pos]
            self.pos += 1
        if len(out) != n and self.eio is not None and self.eio >= len(self.text):
            self.sim.fault('eio')
            raise OSError(5, 'injected', self.name)
        return out

    def readline(self):
        out = ''
        while not out.endswith('\n'):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos

    def close(self):
        self.pos = len(self.text)


class Reader:
    """ The real thing """
    def __init__(self, sim, fresh):
        logging.disable(logging.CRITICAL)
        self.sim = sim
        self.tex = TeX()
        self.context = self.tex.ownerDocument.context
        self.fresh = fresh
        self.iter = None

    def open(self, src):
        if src['kind'] == 'tokens':
            return [CLASSES[k](t) for k, t in (TOKENS[i] for i in src['tokens'])]
        t = src['text'][:src['cut']] if 'cut' in src else src['text']
        if 'cut' in src:
            self.sim.fault('input breaks off')
        if src['kind'] == 'bytes':
            return t.encode('utf-8')
        if src['kind'] == 'dev':
            return Device(t, src.get('eio'), self.sim)
        if src['kind'] == 'file':
            name = os.path.join(self.sim.scratch, 'in%d.tex' % len(os.listdir(self.sim.scratch)))
            with io.open(name, 'w', encoding='utf-8', newline='') as fh:
                fh.write(t)
            return io.open(name, encoding='utf-8')
        return t

    def input(self, src):
        self.tex.input(self.open(src))

    def next(self):
        if self.iter is None or self.fresh:
            self.iter = self.tex.itertokens()
        try:
            return next(self.iter)
        except StopIteration:
            self.iter = None
            return None
        except BaseException:
            self.iter = None
            raise

    def prim(self, char, code):
        """ The primitive, as tokens """
        t = [EscapeSequence('catcode')] + [Other(c) for c in str(ord(char))] + [Other('=')] + [Other(c) for c in str(code)] + [EscapeSequence('relax')]
        self.tex.input(t)
        for x in self.tex:
            if x.nodeName == 'relax':
                break
        else:
            raise Violation('catcode', 'no \\relax after \\catcode')
        # nothing may be left of it
        if self.tex.inputs and self.tex.inputs[-1][0].filename == '<tokens>' and not self.tex.inputs[-1][0]._tokBuffer:
            self.tex.endInput()


def show(t):
    return '%s%r' % t if t else 'the end'


def matches(real, want):
    if real is None or want is None:
        return real is want
    kind, text = want
    return (type(real).__name__ == kind and real.catcode == CATEGORY[kind]
            and (str(real) in text if isinstance(text, tuple) else str(real) == text))


def execute(plan, sim):
    readers, models, last, limit = [], [], [], []
    for d in plan['docs']:
        r, m = Reader(sim, d['fresh']), Model()
        readers.append(r)
        models.append(m)
        last.append([])
        for c, k in d['cats']:
            sim.code('catcode', r.context.catcode, c, k)
            m.table()[c] = k
        if d['verb']:
            sim.code('catcode', r.context.setVerbatimCatcodes)
            m.tables[-1] = dict(VERBATIM)
        sim.code('input', r.input, d['src'])
        m.stack.append(m.source(d['src']))
    stats = {'tokens': 0, 'changed': 0, 'moved': 0, 'back': 0}
    pending = [False] * len(readers)

    def request(d):
        r, m = readers[d], models[d]
        top = m.stack[-1] if m.stack else None
        if top is not None:
            sim.state([top.state, [top.cat(c[0]) for c in top.chars[top.pos:top.pos + 3]], top.prev and top.prev[0], bool(top.pending)])
        where = lambda: 'document %d, input %d, before %r' % (d, len(m.stack), ''.join(c for c, _ in (top.chars[max(0, before - 12):before + 12] if top else [])))
        before = top.pos if top else 0
        want = real = failed = unspecified = None
        try:
            want = m.token()
        except Broken:
            want = 'broken'
        except Unspecified:
            unspecified = True
        try:
            real = r.next()
        except OSError as e:
            if 'injected' not in str(e):
                raise
            failed = True
        except Violation:
            raise
        except Exception as e:
            raise Violation('exception', '%s: %s: %s' % (where(), type(e).__name__, e))
        if unspecified:
            sim.probe('^^ before an end of line')
            m.stack.pop()
            while len(r.tex.inputs) > len(m.stack):
                r.tex.endInput()
            r.iter = None
            return False
        if failed:
            src = m.stack[-1] if m.stack else None
            if want != 'broken':
                # one that looks a little ahead of TeX
                if src is None or src.eio is None or src.eio - src.pos > 3 and not src.pending:
                    raise Violation('device', '%s: error of the device instead of %s' % (where(), show(want)))
            m.stack.pop()
            while len(r.tex.inputs) > len(m.stack):
                r.tex.endInput()
            r.iter = None
            sim.ev('broken', d)
            return True
        if want == 'broken':
            raise Violation('device', '%s: the device failed, but the token %r came' % (where(), real))
        if not matches(real, want):
            raise Violation('token', '%s: %s instead of %s' % (where(), '%s%r with category %r' % (type(real).__name__, str(real), real.catcode) if real is not None else 'the end', show(want)))
        sim.ev(d, want)
        if want is None:
            last[d] = []
            return False
        stats['tokens'] += 1
        if pending[d]:
            pending[d] = False
            stats['changed'] += 1
        last[d].append((real, (want[0], str(real))))
        return True

    def codes(d):
        for c in CHARS:
            real, want = readers[d].context.whichCode(c), models[d].table().get(c, 12)
            if real != want:
                raise Violation('category', 'document %d: %r has category %s instead of %s' % (d, c, real, want))

    for op in plan['ops']:
        if op[1] >= len(readers):
            continue
        k, d = op[:2]
        r, m = readers[d], models[d]
        if k == 'next':
            for _ in range(op[2]):
                if not request(d):
                    break
        elif k in ('cat', 'prim'):
            # the primitive takes characters by their number
            sim.code('catcode', r.prim if k == 'prim' else r.context.catcode, op[2], op[3])
            r.iter = None
            m.table()[op[2]] = op[3]
            pending[d] = stats['tokens'] > 0
            sim.ev(k, d, op[2], op[3])
        elif k == 'verb':
            sim.code('catcode', r.context.setVerbatimCatcodes)
            m.tables[-1] = dict(VERBATIM)
            pending[d] = stats['tokens'] > 0
        elif k == 'group':
            sim.code('group', r.context.push)
            m.tables.append(dict(m.tables[-1]))
        elif k == 'ungroup':
            if len(m.tables) > 1:
                sim.code('group', r.context.pop)
                if m.tables.pop() != m.tables[-1]:
                    pending[d] = stats['tokens'] > 0
                codes(d)
        elif k == 'back':
            n = min(op[2], len(last[d]))
            if n:
                back = last[d][-n:]
                last[d] = last[d][:-n]
                if op[3]:
                    sim.code('push', r.tex.pushTokens, [x for x, _ in back])
                else:
                    for x, _ in reversed(back):
                        sim.code('push', r.tex.pushToken, x)
                if not m.stack:
                    m.stack.append(Source(m.table))
                m.stack[-1].pending[:0] = [w for _, w in back]
                stats['back'] += 1
                sim.ev('back', d, n)
        elif k == 'give':
            toks = [TOKENS[i] for i in op[2]]
            sim.code('push', r.tex.pushTokens, [CLASSES[c](t) for c, t in toks])
            if not m.stack:
                m.stack.append(Source(m.table))
            m.stack[-1].pending[:0] = toks
            sim.ev('give', d, op[2])
        elif k == 'src':
            sim.code('input', r.input, op[2])
            m.stack.append(m.source(op[2]))
            # tokens of the other input would come too early
            last[d] = []
            sim.ev('src', d, op[2])
        elif k == 'end':
            if m.stack:
                sim.code('input', r.tex.endInput)
                m.stack.pop()
                last[d] = []
                sim.fault('input closed')
    # everything comes to an end
    for d, m in enumerate(models):
        codes(d)
        steps = sum(len(s.chars) + len(s.pending) + 4 for s in m.stack) + 8
        while m.stack:
            steps -= 1
            if steps < 0:
                raise Violation('termination', 'more tokens than characters in document %d' % d)
            request(d)
        if readers[d].next() is not None:
            raise Violation('termination', 'document %d has a token after its end' % d)
    sim.probe('tokens compared', stats['tokens'])
    sim.probe('codes changed between tokens', stats['changed'])
    if stats['tokens'] >= 12 and stats['changed'] and (sim.faults or stats['back']):
        sim.nontrivial = True
