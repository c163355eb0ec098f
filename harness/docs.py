"""Write document skeletons (Docs.tla) as Markdown, and record the events
that the parser gives for a document."""
import itertools
import re

EXTENSIONS = ['collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
              'latex_math_spans', 'wikilinks']

# kinds of inline contents
INLINE = ('em em_ st st_ emst stem emcode code code2 code3 codel a at aq aem '
          'acode auto self img imgt imglink imgref ref refs refc reft del '
          'math wiki wikil amp and esc esct soft hard bs html under uni long '
          'punct emlink stlink delem imgtq imglinkt imgalt acode2 adel emimg '
          'refem imgrefl codesp emauto stmath ast2 codeem twice start asp imgsp '
          'tag imgsame asame').split()

REFS = [('r1', 'http://ref.x', ''), ('r2', '/path', 'A title'),
        ('long target', '/other', 'w7 title'), ('R-3', '/three', ''),
        ('q4', '/four', 'it\'s "so" \\'), ('q5', '/five', "d'e (f)"),
        # the same link with other names
        ('s2', '/path', 'A title'), ('s1', 'http://ref.x', '')]

CODES = {'w': '`{a}`', 'two': '`{a} {b}`', 'nl': '`{a}\n{b}`',
         'first': '`` `{a} ``', 'last': '`` {a}` ``', 'both': '`` `{a}` ``',
         'one': '``{a} ` {b}``', 'double': '`{a} `` {b}`',
         'runs': '```` {a} ` b `` c ``` d ````', 'gap': '`` {a} ``` b ` c ``',
         'pad': '`  {a}  `', 'only': '`` ` ``',
         'markup': '`*{a}* [{b}](c) &amp;`', 'bs': '`{a}\\ {b}`'}
TEXTS = {'w': '{a}', 'star': '\\*', 'tick': '\\`', 'amp': '{a}&lt;b',
         'under': '{a}_b_c', 'html': '<b>{a}</b>', 'uni': 'ñandú日本{a}é',
         'and': '{a} & b', 'math': '${a}$', 'auto': '<http://{a}.x>',
         'wiki:same': '[[{a}]]', 'wiki:case': '[[{A}|{a}]]',
         'wiki:text': '[[{a}|{b}]]', 'wiki:sp': '[[{a} x|{b} y]]',
         'wiki:pre': '[[{a}|{a} {b}]]'}
HREFS = {'plain': 'u{a}', 'space': '<u{a} x y>', 'amp': '/?a&amp;b={a}',
         'empty': '', 'paren': 'u({a})', 'open': '<)u({a}>', 'text': 'http://{a}.x',
         'mailto': 'mailto:{a}@b.c'}
TITLES = {'no': '', 'plain': '"t{a} x"', 'quote': '\'t "{a}"\'',
          'bs': '"t{a} \\\\ x"', 'nl': '"t{a}\nx"', 'amp': '"t{a} &amp; x"'}
MARKS = {'+em': '*', '+em_': '_', '+st': '**', '+st_': '__', '+del': '~~',
         '+u': '__'}

# block markup which is text inside a paragraph
STARTS = ['1. x', '2) x', '+ x', '- x', '# x', '## x', '> x', '>x', '=', '---',
          '== x', '7.', '- - -', '>> x', '1.', '+']

WORDS = ('lorem ipsum dolor sit amet consectetur adipiscing elit sed do '
         'eiusmod tempor').split()


class Writer:
    """Random inline contents with different words in every place."""

    def __init__(self, rng, kinds=INLINE, density=.5, long=.12, strict=False):
        self.strict = strict  # only structures supported by po2md
        self.rng, self.kinds, self.n = rng, list(kinds), 0
        self.density, self.long = density, long
        self.refs = set()
        self.contents = []  # given ones (Inline.tla)
        self.mark = 0
        self.texts, self.repeat = [], rng.choice([0, 0, .1, .3])

    def w(self):
        self.n += 1
        return f'w{self.n}'

    def piece(self):
        r, w = self.rng, self.w
        if not self.kinds or r.random() > self.density:
            return w()
        k = r.choice(self.kinds)
        a = w()
        if k in ('ref', 'refs', 'refc', 'reft', 'imgref', 'refem', 'imgrefl'):
            i = r.randrange(len(REFS))
            t = REFS[i][0]
            self.refs.add(i)
            return {'ref': f'[{a}][{t}]', 'refs': f'[{t}]', 'refc': f'[{t}][]',
                    'reft': f'[*{a}* b][{t}]', 'imgref': f'![{a}][{t}]',
                    'refem': f'*[{a}][{t}]* **[{t}]**',
                    'imgrefl': f'[![{a}][{t}]](u{a})'}[k]
        if k in ('imgsame', 'asame'):
            # the target of a reference, with a title or without it
            i = r.randrange(len(REFS))
            if r.random() < .7:
                self.refs.add(i)
            ti = r.choice(['', f' "{a}"', ' "w7 title"', ' "A title"'])
            return '!' * (k == 'imgsame') + f'[{a}]({REFS[i][1]}{ti})'
        return {
            'em': f'*{a}*', 'em_': f'_{a}_', 'st': f'**{a}**',
            'st_': f'__{a}__', 'emst': f'*{a} **{w()}***',
            'stem': f'**{a} *{w()}* {w()}**', 'emcode': f'*{a} `{w()}`*',
            'code': f'`{a}`', 'code2': f'``{a} ` {w()}``',
            'code3': f'```{a} `` {w()}```', 'codel': f'`` `{a} ``',
            'asp': f'[{a}](<u{a} {w()} x>)',
            'imgsp': f'![{a}](<s {a}> "t{a} x")',
            'tag': r.choice(['{} <div>', '{} </p>', '{} <td class="x">',
                             '{} <h1 >', '{} <Table/>', '{} <details>'
                             ]).format(a) + f'{w()} {w()}',
            'a': f'[{a}](u{a})', 'at': f'[{a}](u{a} "t{a} {w()}")',
            'aq': f'[{a}](/u \'q "{w()}"\')',
            'aem': f'[{a} *{w()}* **{w()}**](u{a})',
            'acode': f'[{a} `{w()}`](u{a})',
            'auto': f'<http://{a}.x>', 'self': f'[http://{a}.x](http://{a}.x)',
            'img': f'![{a}](s{a})', 'imgt': f'![{a} {w()}](s{a} "t {a}")',
            'imglink': f'[![{a}](s{a})](u{a})',
            'del': f'~~{a}~~', 'math': f'${a}$', 'wiki': f'[[{a}]]',
            'wikil': f'[[{a}|{w()}]]', 'amp': f'{a}&amp;b', 'and': f'{a} & b',
            'esc': f'{a} \\* b', 'esct': f'{a} \\` b',
            'soft': f'{a}\nb{w()}', 'hard': f'{a}  \nb{w()}',
            'bs': f'{a}\\\nb{w()}', 'html': f'<b>{a}</b>',
            'under': f'{a}_b_c', 'uni': f'ñandú日本{a}é',
            'long': 'x' * r.randint(20, 90) + a,
            'punct': f'{a}, (b); c: "d" - e!',
            'emlink': f'*[{a}](u{a}) {w()}*', 'stlink': f'**{w()} [{a}](u{a})**',
            'delem': f'~~{a} *{w()}*~~', 'imgtq': f'![{a}](s{a} \'t "{w()}"\')',
            'imglinkt': f'[![{a}](s{a} \'t "{w()}"\')](u{a} "{w()} t")',
            'imgalt': f'![{a} *{w()}* `{w()}`](s{a})',
            'acode2': f'[{a} ``{w()} ` c``](u{a})', 'adel': f'[~~{a}~~](u{a})',
            'emimg': f'*![{a}](s{a}) {w()}*', 'codesp': f'`` {a} {w()} ``',
            'emauto': f'*{a} <http://{a}.x>*', 'stmath': f'**${a}$**',
            'ast2': f'{a} * {w()}', 'codeem': f'`*{a}* _{w()}_`',
            'start': f'{a} ' + r.choice(STARTS),
            'twice': f'{a} {a} *{a}* *{a}*',
        }[k]

    def content(self, tokens, top=True):
        """Write a content of Inline.tla; tokens is a list used up."""
        out = ''
        while tokens:
            t = tokens.pop(0)
            if t == '-':
                break
            f = {'a': self.w(), 'b': f'v{self.n}', 'A': f'W{self.n}'}
            if t[0] == '+':
                inner = self.content(tokens, False)
                k, *args = t[1:].split(':')
                if t in MARKS:
                    x = MARKS[t] + inner + MARKS[t]
                elif k in ('ref', 'imgref'):
                    self.refs.add(int(args[0]))
                    x = '!' * (k == 'imgref') + \
                        f'[{inner}][{REFS[int(args[0])][0]}]'
                else:
                    href, title = HREFS[args[0]], TITLES[args[1]]
                    if args[0] in ('text', 'mailto'):
                        inner = href.replace('mailto:', '').format(**f)
                    elif self.rng.random() < .1:
                        inner = f' {inner} '
                    if title and not href:
                        href = '<>'
                    x = '!' * (k == 'img') + f'[{inner}](' + (
                        f'{href} {title}'.strip()).format(**f) + ')'
            elif t.startswith('ref'):
                i = int(t.split(':')[1])
                self.refs.add(i)
                x = f'[{REFS[i][0]}]' + '[]' * t.startswith('refc')
            elif t == 'soft':
                x = '\n'
            elif t == 'glued':
                out, x = out, ','
            else:
                x = {**TEXTS, **{'code:' + c: y for c, y in CODES.items()}
                     }[t].format(**f)
            if out and x != '\n' and x != ',' and out[-1] != '\n':
                out += ' '
            out += x
        return out

    def inline(self, oneline=False, n=None):
        r = self.rng
        if self.contents:
            t = self.content(list(self.contents.pop()))
            if r.random() < .5 or t[0] in '\\~':
                t = f'{self.w()} {t}'
            return t.replace('\n', ' ') if oneline else t
        if self.texts and r.random() < self.repeat:
            # a message which is more than once in the document
            t = r.choice(self.texts)
        else:
            t = self.new_inline(n)
            if '\n' not in t:
                self.texts.append(t)
        if oneline:
            t = t.replace('  \n', ' ').replace('\\\n', ' ').replace('\n', ' ')
        return t

    def new_inline(self, n=None):
        r = self.rng
        if n is None:
            n = r.randint(1, 3)
        out = [self.piece() for _ in range(n)]
        if r.random() < self.long:
            for _ in range(r.randint(8, 24)):
                out.insert(r.randrange(len(out) + 1), r.choice(WORDS))
        return ' '.join(out)

    def code(self):
        r = self.rng
        n = r.choice([1, 1, 2, 3])
        ls = [r.choice(['{}', '  {}', '{} = `x`', '# {}', '* {}', '> {}',
                        '```{}', '````{}', '~~~{}', '<b>{}</b>', '{}: "é"', '[{}]: /c "t"',
                        '[r1]: http://ref.x']).format(self.w())
              for _ in range(n)]
        if n == 3 and r.random() < .5:
            ls[1] = ''
        return ls


def tree(tokens):
    root = ['doc', []]
    stack = [root]
    for t in tokens:
        if t[0] == '+':
            node = [t[1:], []]
            stack[-1][1].append(node)
            stack.append(node)
        elif t[0] == '-':
            stack.pop()
        else:
            stack[-1][1].append([t, []])
    return root


def indent(lines, first, rest):
    return [((first if i == 0 else rest) + x).rstrip() if x or i == 0
            else rest.rstrip() for i, x in enumerate(lines)]


def leaf(k, wr, cmd, nested):
    r = wr.rng
    if k in ('p', 't'):
        return wr.inline().split('\n')
    if k == 'h':
        return ['#' * r.randint(1, 6) + ' ' + wr.inline(True)]
    if k == 's':
        t = wr.inline(n=1).replace('\\\n', ' ').replace('  \n', '\n')
        return t.split('\n') + [r.choice(['---', '==='])]
    if k == 'cf':
        ls = wr.code()
        f = r.choice('`~') * 3
        if any(f in x for x in ls):
            f = f[0] * 5
        if nested:
            ls = [x for x in ls if x] or ['c']
            ls = [x.replace('```', '') for x in ls]
        elif r.random() < .15:
            ls = r.choice([[''], [], ['  ']]) + ls + [''] * r.randint(0, 2)
        return [f + r.choice(['', 'python', 'js {1,2}'])] + ls + [f]
    if k == 'ci':
        ls = wr.code()
        if r.random() < .7:
            ls = [ls[0].lstrip()] + ls[1:]
        return [('    ' + x) if x else '' for x in ls]
    if k == 'hr':
        return ['***' if nested else r.choice(['---', '***', '_ _ _'])]
    if k == 'html':
        return r.choice([['<div>', wr.w(), '</div>'],
                         [f'<p align="center">{wr.w()}</p>'],
                         ['<script>', f'var {wr.w()};', '</script>']])
    if k == 'tbl':
        n = r.randint(1, 3)
        c = [r.choice(['---', ':--', '--:', ':-:']) for _ in range(n)]

        def row():
            return '| ' + ' | '.join(
                wr.inline(True, n=1).replace('|', '') for _ in range(n)) + ' |'
        head = row()
        return [head, '| ' + ' | '.join(c) + ' |'] + [
            row() for _ in range(r.randint(0, 2))]
    if k == 'cmd':
        return [cmd()]
    raise AssertionError(k)


def render(node, wr, cmd=None, nested=False, quoted=False):
    """Lines of the children of a node."""
    r = wr.rng
    k, kids = node
    out = []
    for i, (ck, sub) in enumerate(kids):
        if ck in ('ul', 'ol'):
            wr.mark += 1
            m = '-*+'[wr.mark % 3] if ck == 'ul' else '.)'[wr.mark % 2]
            loose = r.random() < .25
            lines = []
            # (the parser misses task marks after quotes and tables)
            task = r.random() < .15 and not any(
                x in str(sub) for x in ("'tbl'", "'q'"))
            for j, li in enumerate(sub):
                if j and loose:
                    lines.append('')
                pre = f'{m} ' if ck == 'ul' else f'{j + 1}{m} '
                ls = render(li, wr, cmd, True, quoted)
                if task:
                    ls[0] = r.choice(['[ ] ', '[x] ', '[X] ']) + ls[0]
                lines += indent(ls, pre, ' ' * len(pre))
        elif ck == 'q':
            lines = indent(render([ck, sub], wr, cmd, True, wr.strict),
                           '> ', '> ')
        else:
            lines = leaf(ck, wr, cmd, nested)
        if k == 'li':
            prev = kids[i - 1][0] if i else ''
            tight = prev in ('h', 'hr', 'cf') and r.random() < .3
            if i and (ck == 'p' and not tight or prev in ('p', 'tbl')
                      or ck == 'ci' and prev not in ('h', 'hr', 'cf')
                      or r.random() < .2):
                out.append('')
        elif i:
            out.append('')
        out += lines
    return out


def definitions(wr):
    out = []
    for i in sorted(wr.refs):
        t, h, ti = REFS[i]
        if ti:
            a, b = wr.rng.choice(['""', "''", '()'])
            for x in '\\' + a + b * (a != b):
                ti = ti.replace(x, f'\\{x}')
            ti = f' {a}{ti}{b}'
        out.append(f'[{t}]: {h}{ti}')
    return out


def write(tokens, rng, kinds=INLINE, cmd=None, density=.5, long=.12,
          strict=False, contents=None):
    """contents: inline contents to use, while there are any."""
    wr = Writer(rng, kinds, density, long, strict)
    wr.contents = contents if contents is not None else []
    lines = render(tree(tokens), wr, cmd)
    defs = definitions(wr)
    if defs:
        rng.shuffle(defs)
        if rng.random() < .1:
            defs.append(rng.choice(defs))  # twice
        if rng.random() < .15:
            lines = defs + [''] + lines
        else:
            lines += [''] + defs
    return '\n'.join(lines) + '\n'


def attr(x):
    return ''.join(t for _, t in x).replace('\n', ' ') if x else ''


def events(content, extensions=EXTENSIONS):
    """Events of the parser for a document (see Sax.tla)."""
    import md4c
    out = []

    def ev(k, t='', a='', b='', x=''):
        out.append({'k': k, 't': t, 'a': a, 'b': b, 'x': x})

    def eb(b, d):
        n = b.name
        if n == 'H':
            a = str(d['level'])
        elif n == 'CODE':
            a = 'indented' if d['fence_char'] is None \
                else 'fenced ' + attr(d['info'])
        elif n == 'LI':
            a = 'task ' + d['task_mark'] if d['is_task'] else ''
        elif n in ('TH', 'TD'):
            a = str(d['align'].name)
        else:
            a = ''
        ev('eb', n, a)

    def es(s, d):
        n = s.name
        if n == 'A':
            ev('es', n, attr(d['href']), attr(d['title']))
        elif n == 'IMG':
            ev('es', n, attr(d['src']), attr(d['title']))
        elif n == 'WIKILINK':
            ev('es', n, attr(d['target']))
        else:
            ev('es', n)
    md4c.GenericParser(0, **dict.fromkeys(extensions, True)).parse(
        content, eb, lambda b, d: ev('lb', b.name), es,
        lambda s, d: ev('ls', s.name), lambda b, x: ev('tx', x=x))
    return out


def stable(content, extensions=EXTENSIONS):
    """The parser reads uninitialised-like data in some documents with code
    blocks in lists (it takes the position of a line for the type of a block,
    so the contents of a list item may be left out of it depending on what
    comes before); those documents are out of the domain."""
    want = events(content, extensions)
    for pad in ('xxxxx', 'xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx' * 3):
        got = events(f'# {pad}\n\n' + content, extensions)
        if got[:1] + got[4:] != want:
            return False
    return True


def reflines(content, extensions=EXTENSIONS):
    """Lines of a document which are link reference definitions if they look
    like one: those whose target is not text of other blocks."""
    lines = content.splitlines(keepends=True)
    cands = [i for i, x in enumerate(lines)
             if x.strip().startswith('[') and ']:' in x
             and x.split(']:', 1)[1].strip(' \t\n<>')]
    word = 'qzq'
    while word in content:
        word += 'z'
    for n, i in enumerate(cands):
        head, tail = lines[i].split(']:', 1)
        at = len(tail) - len(tail.lstrip(' \t<'))
        lines[i] = f'{head}]:{tail[:at]}{word}{n}r{tail[at:]}'
    text = ''
    if cands:
        text = ''.join(e['x'] for e in events(''.join(lines), extensions)
                       if e['k'] == 'tx')
    real = content.splitlines()
    return [real[i] for n, i in enumerate(cands) if f'{word}{n}r' not in text]


def wellformed(evs):
    """The parser sometimes gives spans which are not well nested, or links
    inside links; those documents are out of the domain."""
    st = []
    for e in evs:
        if e['k'] in ('eb', 'es'):
            if e['t'] == 'A' and 'A' in st:
                return False
            st.append(e['t'])
        elif e['k'] in ('lb', 'ls'):
            if not st or st.pop() != e['t']:
                return False
    return not st


MARK = re.compile('```|</?[a-z]+>')


def blocks(evs):
    """Blocks of a document: [type, children, details]; texts are strings."""
    st = [['', [], {}]]
    for e in evs:
        if e['k'] == 'eb':
            n = [e['t'], [], e]
            st[-1][1].append(n)
            st.append(n)
        elif e['k'] == 'lb':
            st.pop()
        elif e['k'] != 'tx' or e['x'] or st[-1][0] != 'CODE':
            st[-1][1].append(e['x'] if e['k'] == 'tx' else '')
    return st[0]


ONCE = re.compile(
    'mdpo-(context|translator|include |disable-next|enable-next)')


def joined(a, b):
    """Indented code after a block that it would be part of."""
    return b[0] == 'CODE' and b[2]['a'] == 'indented' and (
        a[0] in ('UL', 'OL', 'CODE'))


def apart(node):
    ch = [c for c in node[1] if not isinstance(c, str)]
    return not any(joined(a, b) for a, b in zip(ch, ch[1:])) and all(
        apart(c) for c in ch)


def writable(node, doc=''):
    """Structures that po2md can write (see the domains in DESIGN.md): no
    empty items or quotes, items start with texts, texts don't start with
    marks of blocks, and nothing which was only separated by commands, link
    reference definitions or the indentation of lists; nothing attached
    where there is code."""
    t, ch, _ = node
    if t == 'CODE' and ONCE.search(doc):
        return False
    ch = [c for c in ch if isinstance(c, str) or c[0] != 'HTML' or not all(
        'mdpo-' in x or not x.strip() for x in c[1])]
    if t == 'QUOTE' and ch[-1:] != node[1][-1:]:
        return False
    if t in ('QUOTE', 'LI', 'H') and not ch:
        return False
    if t == 'LI' and not isinstance(ch[0], str) and ch[0][0] != 'P':
        return False
    if t in ('P', 'LI'):
        if any(isinstance(c, str) and 'mdpo-' in c for c in ch):
            return False
        prev = None
        for c in ch:
            if isinstance(c, str) and not isinstance(prev, str) and \
                    MARK.match(c):
                return False
            prev = c
    if t == 'HTML':
        # the end of the block must not depend on a command or the end of
        # the document
        h = ''.join(ch)
        return '<!--' not in (x.strip() for x in ch) and (
            '</pre>' in h.rpartition('<pre')[2] or '<pre' not in h)
    for a, b in zip(ch, ch[1:]):
        if isinstance(a, str) or isinstance(b, str):
            continue
        if joined(a, b):
            return False
        if b[0] == 'HTML' and re.match('[ \t]', ''.join(
                x for x in b[1] if 'mdpo-' not in x).lstrip('\n')) and a[0] in ('UL', 'OL'):
            return False
        if a[0] == b[0] and a[0] in ('UL', 'OL', 'QUOTE'):
            return False
    return all(writable(c, doc) for c in ch if not isinstance(c, str))


def number(lines):
    """A document from lines whose words are @."""
    n = itertools.count(1)
    doc = '\n'.join(lines).replace('%', 'ñ')
    return re.sub('@', lambda _: f'w{next(n)}', doc) + '\n'
