"""C08-C10: replay the documents of Commands.tla on md2po, po2md and
mdpo2html."""
import html.parser
import random

from harness import tlc
from harness.core import clean_cwd, run_real

TEXTS = [
    {'x': 'Text x', 'y': 'Text y', 'z': 'Comment z'},
    {'x': 'x', 'y': 'xy', 'z': 'xyz'},
    {'x': 'ñandú año más', 'y': 'ñandú año', 'z': 'ñandú'},
    {'x': 'long text ' * 12 + 'x', 'y': 'long text ' * 12 + 'y',
     'z': 'long text ' * 9 + 'z'},
]
CODES = [
    {'c': 'a = 1\n', 'd': 'b = 2\n'},
    {'c': 'def f():\n    return `x`\n\nf()\n', 'd': '<!-- mdpo-disable -->\n'},
    {'c': '# not a header\n', 'd': '* not\n* a list\n'},
]
ARGS = {'k': ['k', 'some context', 'ctx1', '0'], 'l': ['l', 'other context', 'k2'],
        'note': ['note', 'a long note for translators', 'ñ']}
NAMES = {
    'dis': ['disable'], 'ena': ['enable'],
    'dnb': ['disable-next-block', 'disable-next-line'],
    'enb': ['enable-next-block', 'enable-next-line'],
    'ctx': ['context'], 'tr': ['translator'], 'inc': ['include'],
    'icb': ['include-codeblock'], 'dcb': ['disable-codeblock'],
    'icbs': ['include-codeblocks'], 'dcbs': ['disable-codeblocks'],
}

HANDLED = ['mdpo-' + n for k in NAMES for n in NAMES[k]]


class Names:
    """Concrete texts for the names of the model."""

    def __init__(self, rng):
        self.t = rng.choice(TEXTS)
        self.c = rng.choice(CODES)
        i = rng.randrange(3)
        self.a = {k: v[i] for k, v in ARGS.items()}
        self.nohtml = False
        self.a[''] = ''
        self.a.update(self.t)

    def id(self, m):
        return self.c[m['id']] if m['k'] in ('code', 'nocode') \
            else self.t[m['id']]


NOISE = ['***', '<div>noise</div>', '<!-- an ordinary comment: noise -->']


def container(doc, i, rng):
    """End of a run of tokens from ``i`` to put inside other block."""
    j = min(len(doc), i + rng.randint(2, 6))
    while j > i and doc[j - 1]['k'] not in ('text', 'code'):
        j -= 1
    return j if j > i + 1 else i


def render(doc, nm, rng, kinds, comments, deep=0, mark=0):
    """Markdown document with the blocks and commands of ``doc``."""
    out = []
    i, prev = 0, None
    while i < len(doc):
        t = doc[i]
        if not deep and out and rng.random() < .06:
            out.append(rng.choice(NOISE))
        if deep < 2 and (t['k'] == 'text' or not deep) and \
                rng.random() < .12:
            j = container(doc, i, rng)
            # (the parser is not reliable with code blocks in lists)
            k = rng.choice('QLT' if t['k'] == 'text' and not any(
                x['k'] == 'code' for x in doc[i:j]) else 'Q')
            if j > i and k != prev:
                if k == 'Q':
                    inner = render(doc[i:j], nm, rng, kinds.replace('q', ''),
                                   comments, deep + 2, mark)
                    pre = rest = '> '
                elif k == 'T':
                    # commands after the texts of items of a tight list,
                    # which mdpo2html does not process
                    mark += 1
                    nm.nohtml = True
                    inner = ''.join(
                        f'{"-*+"[mark % 3]} {nm.t[x["a"]]}\n'
                        if x['k'] == 'text' else
                        '  ' + render([x], nm, rng, kinds, comments, 2)
                        for x in doc[i:j])
                    pre = rest = ''
                else:
                    mark += 1
                    inner = nm.t[t['a']] + '\n'
                    if j > i + 1:
                        inner += '\n' + render(
                            doc[i + 1:j], nm, rng, 'p', comments, deep + 1,
                            mark)
                    pre = rng.choice([f'{"-*+"[mark % 3]} ',
                                      f'{mark}{".)"[mark % 2]} '])
                    rest = ' ' * len(pre)
                lines = inner[:-1].split('\n')
                out.append('\n'.join(
                    (((rest if n else pre) + x).rstrip() if x or n == 0
                     else rest.rstrip()) for n, x in enumerate(lines)))
                i, prev = j, k
                continue
        if t['k'] == 'text':
            j = i
            while j < len(doc) and doc[j]['k'] == 'text':
                j += 1
            n = rng.randint(1, j - i)
            group = [nm.t[x['a']] for x in doc[i:i + n]]
            ks = [k for k in kinds if k != prev or k in 'ph']
            k = rng.choice(ks)
            if k == 'p':
                n, b = 1, group[0]
            elif k == 'h':
                n = 1
                b = rng.choice(['# {}', '### {}', '{}\n---', '{}\n===',
                                '## {} ##']).format(group[0])
            elif k == 'u':
                mark += 1
                b = '\n'.join(f'{"-*+"[mark % 3]} {x}' for x in group)
            elif k == 'o':
                mark += 1
                b = '\n'.join(f'{m + 1}{".)"[mark % 2]} {x}'
                              for m, x in enumerate(group))
            elif k == 'q':
                b = '\n>\n'.join(f'> {x}' for x in group)
            else:
                b = '\n'.join(
                    [f'| {group[0]} |', '| --- |']
                    + [f'| {x} |' for x in group[1:]])
            out.append(b)
            prev = k
            i += n
            continue
        if t['k'] == 'code':
            code = nm.c[t['a']]
            if rng.random() < .3 and prev not in ('u', 'o', 'ic', 'L', 'T') \
                    and not deep:
                out.append('\n'.join(
                    ('    ' + x) if x else '' for x in
                    code.rstrip('\n').split('\n')))
                prev = 'ic'
            else:
                out.append(f'```{rng.choice(["", "python"])}\n{code}```')
                prev = 'c'
        else:
            name = rng.choice(NAMES[t['k']])
            arg = nm.a[t['a']]
            a, b = rng.choice(comments)
            out.append(f'<!--{a}mdpo-{name}{" " + arg if arg else ""}{b}-->')
            # po2md removes commands, so they do not separate blocks
        i += 1
    return '\n\n'.join(out) + '\n'


def md_texts(content):
    """Texts of the blocks of a document, according to md4c."""
    import md4c
    out, cur = [], [None]
    skip = [False]
    comments = []

    def flush():
        if cur[0] is not None and cur[0].strip():
            out.append(cur[0])
        cur[0] = ''

    def eb(b, d):
        flush()
        skip[0] = b is md4c.BlockType.HTML

    def lb(b, d):
        if b is md4c.BlockType.HTML:
            cur[0] = ''
            skip[0] = False
        flush()

    def tx(b, t):
        if skip[0]:
            comments.append(t)
            return
        cur[0] = (cur[0] or '') + (
            t if b is md4c.TextType.CODE else t.replace('\n', ' '))
    md4c.GenericParser(0, tables=True).parse(
        content, eb, lb, lambda *a: None, lambda *a: None, tx)
    return out, ''.join(comments)


class TextParser(html.parser.HTMLParser):
    LEAF = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'li', 'th', 'td', 'pre'}

    def __init__(self):
        super().__init__()
        self.out, self.cur, self.comments = [], None, []

    def flush(self):
        if self.cur is not None and self.cur.strip():
            self.out.append(self.cur.strip())
        self.cur = None

    def handle_starttag(self, tag, attrs):
        if tag in self.LEAF:
            self.flush()
            self.cur = ''

    def handle_endtag(self, tag):
        if tag in self.LEAF:
            self.flush()

    def handle_data(self, data):
        if self.cur is not None:
            self.cur += data.replace('\n', ' ')

    def handle_comment(self, data):
        self.comments.append(data.strip())


SPACES = [(' ', ' '), ('', ' '), (' ', ''), ('   ', '   '), ('\t', ' ')]


def tr(ctx, id_):
    """Translation of a message: different for every (context, message)."""
    if id_.endswith('\n'):
        return f'tr({ctx}) {id_}'
    return f'tr{len(ctx)}{ctx}- {id_}'


def replay(job):
    seed, case = job
    clean_cwd()
    rng = random.Random(seed)
    nm = Names(rng)
    doc = render(case['doc'], nm, rng, 'phuoqt', SPACES)
    r = {'doc': doc, 'include_codeblocks': case['all'], 'seed': seed}
    return verify(doc, case, nm, rng, r, {})


def handled(comment, aliases):
    name = (comment.split() or [''])[0]
    full = aliases.get(name, name)
    return (full if full.startswith('mdpo-') or name not in aliases
            else f'mdpo-{full}') in HANDLED


def verify(doc, case, nm, rng, r, aliases):
    """The tools extract and translate what the specification says."""
    import md4c
    import polib
    from mdpo.md2po import Md2Po
    from mdpo.mdpo2html import MdPo2HTML
    from mdpo.po2md import Po2Md
    with open('doc.md', 'w', encoding='utf-8') as f:
        f.write(doc)
    al = {'command_aliases': aliases} if aliases else {}

    def entry(m):
        return (nm.a[m['ctx']], nm.id(m), nm.a[m['tc']])
    want_cat = [entry(m) for m in case['cat']]
    want_dis = [entry(m) for m in case['found']
                if not m['on'] and m['k'] != 'nocode']
    md2po = Md2Po(['doc.md'], include_codeblocks=case.get('all', False),
                  **al)
    pofile = md2po.extract()
    got_cat = [(e.msgctxt or '', e.msgid, e.comment or '') for e in pofile]
    got_dis = [(e.msgctxt or '', e.msgid, e.tcomment or '')
               for e in md2po.disabled_entries]
    got_dis = [g[:2] for g in got_dis]
    want_dis = [w[:2] for w in want_dis]
    if got_cat != want_cat:
        return {**r, 'clause': 'md2po extracts other messages',
                'expected': want_cat, 'observed': got_cat}
    if got_dis != want_dis:
        return {**r, 'clause': 'md2po has other disabled messages',
                'expected': want_dis, 'observed': got_dis}
    # translation
    keys = {(c, i) for c, i, _ in want_cat}
    if rng.random() < .6:
        for c in ('', nm.a['k'], nm.a['l']):
            for i in nm.t.values():
                keys.add((c, i))
    po = polib.POFile()
    ks = sorted(keys)
    rng.shuffle(ks)
    for c, i in ks:
        po.append(polib.POEntry(msgid=i, msgctxt=c or None, msgstr=tr(c, i)))
    po.save('t.po')
    codekeys = {(c, i) for c, i in keys if i.endswith('\n')}
    want = []
    for m in case['found']:
        if m['k'] == 'inc':
            continue
        c, i = nm.a[m['ctx']], nm.id(m)
        if m['on'] and (not i.endswith('\n') or (c, i) in codekeys):
            i = tr(c, i)
        want.append(i)
    out = Po2Md(['t.po'], **al).translate('doc.md')
    got, comments = md_texts(out)
    if got != want:
        return {**r, 'clause': 'po2md translates other messages',
                'expected': want, 'observed': got, 'output': out}
    if 'mdpo-' in comments and not case.get('text'):
        return {**r, 'clause': 'po2md writes commands', 'output': out}
    if nm.nohtml or any(m['k'] == 'code' for m in case['found']):
        return None   # mdpo2html does not translate code blocks
    want = [' '.join(x.split('\n')).strip() for x in want]
    src = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES).parse(doc)
    out = MdPo2HTML(['t.po'], **al).translate(src)
    p = TextParser()
    p.feed(out)
    if p.out != want:
        return {**r, 'clause': 'mdpo2html translates other messages',
                'expected': want, 'observed': p.out, 'html': src,
                'output': out}
    plain = case['text'] if case.get('text') and not case['k'] else ''
    if any(handled(x, aliases) and x not in plain for x in p.comments):
        return {**r, 'clause': 'mdpo2html writes commands', 'html': src,
                'output': out}
    return None


def documents(chk, alphabet, n, starts, limit=None, simulate=None):
    r = tlc.run('Commands',
                dict(Alphabet=f'"{alphabet}"', N=n, AllStart=starts),
                invariants=['ScopeOK', 'AttachOK', 'CodeOK', 'Emit'],
                workers=1, simulate=simulate,
                seed=chk.seed if simulate else None)
    chk.tlc(r)
    seen, docs = set(), []
    for d in r.records:
        k = repr((d['doc'], d['all']))
        if k not in seen:
            seen.add(k)
            docs.append(d)
    if limit and len(docs) > limit:
        docs = chk.rng.sample(docs, limit)
    return docs


def check(chk, docs):
    js = [(chk.rng.random(), d) for d in docs]
    for job, (status, val) in zip(js, run_real(replay, js)):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'tokens': job[1]['doc'],
                                               'seed': job[0]})
        elif val:
            chk.violation(val['clause'], {'tokens': job[1]['doc'], **val})
    chk.traces += len(js)
    for j in js[:: max(1, len(js) // 3)]:
        chk.sample(j[1])
    chk.extra['distinct_documents'] = chk.extra.get('distinct_documents', 0) \
        + len(js)
    if len(js) < 100:
        raise RuntimeError('vacuous run')


def c08(chk):
    docs = documents(chk, 'scope', chk.pick(5, 7), '{FALSE}',
                     chk.pick(None, 120000))
    docs += documents(chk, 'full', 14, '{TRUE,FALSE}',
                      simulate=(chk.pick(1500, 30000), 16))
    check(chk, docs)
    from harness import html
    html.tools(chk)


def c09(chk):
    docs = documents(chk, 'attach', chk.pick(4, 6), '{FALSE}',
                     chk.pick(None, 120000))
    docs += documents(chk, 'full', 12, '{TRUE,FALSE}',
                      simulate=(chk.pick(1500, 30000), 14))
    check(chk, docs)
    from harness import extraction
    extraction.attached(chk)


def c10(chk):
    docs = documents(chk, 'code', chk.pick(4, 6), '{TRUE,FALSE}',
                     chk.pick(None, 120000))
    docs += documents(chk, 'full', 12, '{TRUE,FALSE}',
                      simulate=(chk.pick(1500, 30000), 14))
    check(chk, docs)


class Plain:
    """The names of the model are the texts."""
    nohtml = False

    class Same(dict):
        def __missing__(self, key):
            return key

    def __init__(self, rng):
        self.t = self.Same(rng.choice(TEXTS))
        self.c = rng.choice(CODES)
        self.a = self.Same()

    def id(self, m):
        return self.c[m['id']] if m['k'] in ('code', 'nocode') \
            else self.t[m['id']]


def comment_doc(case, nm, rng):
    """Document of Syntax.tla."""
    def block(a, code=False):
        if code:
            return f'```\n{nm.c[a]}```'
        return rng.choice(['{}', '# {}', '{}\n==']).format(nm.t[a])
    pre = [f'<!-- mdpo-{NAMES[t["k"]][0]} {t["a"]} -->' for t in case['pre']]
    return '\n\n'.join([
        block('x'), *pre, case['text'], block('y'), block('c', True),
        block('z'), block('d', True), block('y')]) + '\n'


def syntax(job):
    seed, case = job
    clean_cwd()
    rng = random.Random(seed)
    nm = Plain(rng)
    doc = comment_doc(case, nm, rng)
    aliases = {p['n']: p['c'] for p in case['al']}
    r = {'doc': doc, 'aliases': aliases, 'seed': seed}
    if case['err']:
        with open('doc.md', 'w', encoding='utf-8') as f:
            f.write(doc)
        from mdpo.md2po import Md2Po
        try:
            Md2Po(['doc.md'], command_aliases=aliases).extract()
        except ValueError:
            return None
        return {**r, 'clause': 'command without argument is accepted'}
    v = verify(doc, case, nm, rng, r, aliases)
    if v:
        return v
    if case['k']:
        return None
    # what is not a command is left alone
    import md4c
    from mdpo.mdpo2html import MdPo2HTML
    src = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES).parse(doc)
    if case['text'] not in MdPo2HTML([], command_aliases=aliases
                                     ).translate(src):
        return {**r, 'clause': 'comment which is not a command removed'}
    return None


def alias_target(case):
    from mdpo.md2po import Md2Po
    from mdpo.mdpo2html import MdPo2HTML
    from mdpo.po2md import Po2Md
    for cls in (Md2Po, Po2Md, MdPo2HTML):
        try:
            cls([], command_aliases={'x': case['target']})
            ok = True
        except ValueError:
            ok = False
        if ok != case['valid']:
            return {'clause': 'target of an alias wrongly '
                    + ('accepted' if ok else 'rejected'),
                    'tool': cls.__name__, 'target': case['target']}
    return None


def c20(chk):
    cases = []
    for i, rich in enumerate(chk.pick(['TRUE'], ['TRUE', 'FALSE'] * 4)):
        r = tlc.run('Syntax', dict(Rich=rich, Size=chk.pick(300, 900)),
                    invariants=['ArgOK', 'Known', 'Emit'],
                    seed=chk.seed + 1000 * i)
        chk.tlc(r)
        cases += r.records
    js = [(chk.rng.random(), c) for c in cases]
    for job, (status, val) in zip(js, run_real(syntax, js)):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'case': job[1]})
        elif val:
            chk.violation(val['clause'], {'case': job[1], **val})
    chk.traces += len(js)
    for j in js[:: len(js) // 3]:
        chk.sample(j[1])
    r = tlc.run('Aliases', {}, invariants=['Exactly', 'Emit'])
    chk.tlc(r)
    for case, (status, val) in zip(r.records,
                                   run_real(alias_target, r.records)):
        if status != 'ok' or val:
            chk.violation(val['clause'] if status == 'ok'
                          else f'{status}: {val}', {'case': case})
    chk.traces += len(r.records)
    chk.extra['comments_which_are_commands'] = sum(
        bool(c['k']) for c in cases)
