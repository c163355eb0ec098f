"""C01-C03 (and part of C26): replay the histories of Lifecycle.tla on md2po.

Every transition of the model (catalog, source, mode) -> catalog is
materialised as a PO file and a Markdown file, md2po extracts over them and
the resulting PO file is compared with the catalog of the model.  Random walks
over the transition graph do the same keeping one PO file for the whole
history.
"""
import contextlib
import io
import os
import random

from harness import tlc
from harness.core import run_real, clean_cwd

LONG = ('Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do '
        'eiusmod tempor incididunt ut labore et dolore magna aliqua number ')
# texts of the messages of the model: id -> text, by variant
TEXTS = [
    {'m1': 'One', 'm2': 'Two', 'm3': 'Three', 'm4': 'Four'},
    {'m1': LONG + 'one', 'm2': LONG + 'two', 'm3': LONG + 'three',
     'm4': LONG + 'four'},
    {'m1': 'Some *em* and **strong**', 'm2': 'Some *em* and **strong** text',
     'm3': 'A [link](/u "title") and `code`', 'm4': '`code`'},
    {'m1': 'año "quoted" ñandú', 'm2': 'año "quoted" ñandú 中文 ✓',
     'm3': "it's 100%s {x}", 'm4': '0'},
    {'m1': 'message', 'm2': 'Message', 'm3': 'message.', 'm4': 'a message'},
    # those with line breaks are code blocks
    {'m1': 'One', 'm2': 'One\n', 'm3': ' One\n', 'm4': 'One\nTwo\n'},
]
TRANS = ['T({}) {}', 'Ü "{}" {} ' + 'x' * 90, '{} **t** {}', 'tr\\{}\\{}',
         '{}{}', 'T {} {}']
BLOCKS = len(TEXTS) - 1
# widths of the lines of the PO file (polib fails with 1 and 2)
WIDTHS = [None, None, None, 0, 8, 20, 40, 79, 300, 'inf']
REF = '[r]: /r'
CTXS = {'k': ['k', '0', 'some context', 'Ñ', 'm1', 'k'],
        'l': ['K', '1', 'some', 'ñ', 'm2', 'kk']}


def ctx_of(ctx, v):
    return CTXS[ctx][v] if ctx else ''


def text_of(id_, v):
    return id_ if id_ == REF else TEXTS[v][id_]


def conv(entry, v, default=''):
    """Entry of the model -> entry with real texts."""
    s = entry['str']
    if s.startswith('T '):
        c, i = s[2:].split('.', 1)
        c = ctx_of(c, v)
        s = TRANS[v].format(c, text_of(i, v))
    return (ctx_of(entry['ctx'], v), text_of(entry['id'], v), s, entry['fuzzy'],
            entry['obs'])


def layout(text, rng):
    """The same catalog, with another layout of its file."""
    k = rng.random()
    if k < .5:
        return text
    blocks = text.strip('\n').split('\n\n')
    if k < .6:
        return text.rstrip('\n') + rng.choice(['', '\n\n', '\n\n\n'])
    if k < .7:
        return '\n\n\n'.join(blocks) + '\n'
    if k < .8:  # obsolete entries among the others
        obs = [b for b in blocks[1:] if '#~' in b]
        rest = [b for b in blocks[1:] if '#~' not in b]
        for n, b in enumerate(obs):
            rest.insert(min(len(rest), 2 * n), b)
        return '\n\n'.join(blocks[:1] + rest) + '\n'
    if k < .9:  # broken lines
        return text.replace('\nmsgid "', '\nmsgid ""\n"').replace(
            '\nmsgstr "', '\nmsgstr ""\n"').replace('\n""\n', '\n')
    return text.replace('\nmsgid', '\nmsgid ').replace('#, ', '#,  ')


def write_po(path, entries, rng=None):
    import polib
    po = polib.POFile()
    for ctx, id_, s, fz, obs in entries:
        po.append(polib.POEntry(
            msgid=id_, msgstr=s, msgctxt=ctx or None, obsolete=obs,
            flags=['fuzzy'] if fz else []))
        if rng and rng.random() < .5:  # what translators and other tools add
            e = po[-1]
            e.tcomment = rng.choice(['', 'note', 'a b\nnote'])
            e.flags += rng.choice([[], ['no-wrap'], ['x-format', 'no-wrap']])
    po.save(path)
    if rng:
        with open(path, encoding='utf-8') as f:
            text = layout(f.read(), rng)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        if read_po(path) != sorted(entries, key=lambda e: e[4]):
            po.save(path)


def read_po(path):
    import polib
    return [(e.msgctxt or '', e.msgid, e.msgstr, e.fuzzy, bool(e.obsolete))
            for e in polib.pofile(path)]


def additions(path):
    """The rest of the entries, of which md2po knows nothing."""
    import polib
    if not os.path.exists(path):
        return {}
    return {(e.msgctxt or '', e.msgid, bool(e.obsolete)): [
        e.tcomment.split(), sorted({*e.flags} - {'fuzzy'})]
        for e in polib.pofile(path)}


def write_md(path, src, v, rng, hidden=(), ignored=()):
    """The document whose messages are ``src``.

    Those hidden (disabled) and those ignored (which have not context) are in
    the document too, but they are not extracted."""
    out = []
    msgs = [(ctx_of(m['ctx'], v), text_of(m['id'], v)) for m in src if m['id'] != REF]
    blocks = []
    for m in msgs:
        blocks.append(m)
        if rng.random() < .25:  # repetitions change nothing
            i = msgs.index(m)
            blocks.append(rng.choice(msgs[:i + 1]))
    blocks = [(*b, False) for b in blocks]
    for m in hidden:
        blocks.insert(rng.randint(0, len(blocks)), (*m, True))
    for t in ignored:
        blocks.insert(rng.randint(0, len(blocks)), ('', t, False))
    for ctx, t, hide in blocks:
        if hide:
            out.append('<!-- mdpo-disable-codeblock -->\n' if '\n' in t
                       else '<!-- mdpo-disable-next-block -->\n')
        if ctx and not (hide and '\n' in t):
            out.append(f'<!-- mdpo-context {ctx} -->\n')
        k = rng.random()
        if '\n' in t:
            out.append(f'```\n{t}```\n' if k < .5 else '~~~ x\n%s~~~\n' % t)
        elif k < .15:
            out.append(f'# {t}\n')
        elif k < .3:
            out.append(f'- {t}\n')
            out.append('<!-- separator -->\n')
        elif k < .4:
            out.append(f'> {t}\n')
        else:
            out.append(f'{t}\n')
    if any(m['id'] == REF for m in src):
        out.append('<!-- mdpo-disable-next-block -->\n')
        out.append('[text](/other)\n')
        out.append(REF + '\n')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(out) if out else '')


def mode_kwargs(mode):
    return {
        'default': {},
        'merge': {'mark_not_found_as_obsolete': False},
        'remove': {'preserve_not_found': False},
    }[mode]


def mode_args(mode):
    return {'default': [], 'merge': ['-m'], 'remove': ['-r']}[mode]


def extract(mode, cli, location, v, ignored=(), width=None):
    """One extraction of doc.md into doc.po; returns the exit code."""
    if cli:
        from mdpo.md2po.__main__ import run
        args = ['doc.md', '-q', '-s', '-p', 'doc.po', '--check']
        args += mode_args(mode)
        if not location:
            args.append('--no-location')
        if v == BLOCKS:
            args.append('--include-codeblocks')
        if width is not None:
            args += ['--wrapwidth', str(width)]
        if ignored:
            with open('ignored.txt', 'w', encoding='utf-8') as f:
                f.write('\n'.join(ignored) + '\n')
            args += ['--ignore-msgids', 'ignored.txt']
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            return run(args)[1]
    from mdpo.md2po import markdown_to_pofile
    markdown_to_pofile(['doc.md'], po_filepath='doc.po', save=True,
                       location=location, ignore_msgids=list(ignored),
                       include_codeblocks=v == BLOCKS, **mode_kwargs(mode),
                       **({} if width is None else {'wrapwidth': width}))
    return None


def read_bytes(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def replay(job):
    """Steps are (op, before, src, mode, after); the PO file persists."""
    v, seed, steps, cli, location = job
    clean_cwd()
    rng = random.Random(seed)
    out = []
    first = [conv(e, v) for e in steps[0]['before']]
    if first or rng.random() < .5:
        write_po('doc.po', first, rng)
    universe = sorted({(m['ctx'], m['id']) for st in steps
                       for m in st['before'] + st['src'] + st['after']
                       if m['id'] != REF} | {('', 'm1'), ('', 'm2')})
    width = rng.choice(WIDTHS)
    for st in steps:
        if st['op'] == 'write':
            import polib
            po = polib.pofile('doc.po')
            want = {(ctx_of(e['ctx'], v), text_of(e['id'], v)): conv(e, v)
                    for e in st['after']}
            for e in po:
                k = (e.msgctxt or '', e.msgid)
                if k in want and not e.obsolete:
                    e.msgstr = want[k][2]
                    if want[k][3] != e.fuzzy:
                        if e.fuzzy:
                            e.flags.remove('fuzzy')
                        else:
                            e.flags.append('fuzzy')
            po.save('doc.po')
            out.append(None)
            continue
        found = {(m['ctx'], m['id']) for m in st['src']}
        hidden, ignored = [], []
        if rng.random() < .4:
            rest = [m for m in universe if m not in found]
            hidden = [(ctx_of(c, v), text_of(i, v)) for c, i in rest
                      if rng.random() < .4]
            ids = {i for _, i in found}
            ignored = sorted({text_of(i, v) for _, i in rest
                              if i not in ids and rng.random() < .3})
            hidden = [h for h in hidden if h[1] not in ignored]
            if cli and any('\n' in t for t in ignored):
                ignored = []
        write_md('doc.md', st['src'], v, rng, hidden, ignored)
        b0, add0 = read_bytes('doc.po'), additions('doc.po')
        code1 = extract(st['mode'], cli, location, v, ignored, width)
        b1 = read_bytes('doc.po')
        got, add1 = read_po('doc.po'), additions('doc.po')
        code2 = extract(st['mode'], cli, location, v, ignored, width)
        b2 = read_bytes('doc.po')
        with open('doc.md', encoding='utf-8') as f:
            doc = f.read()
        out.append({'got': got, 'changed': b0 != b1, 'same': b1 == b2,
                    'adds': [
            (k[:2], add0[k], add1[j]) for k in add0
            for j in ((*k[:2], False), (*k[:2], True))
            # (entries which come back are other ones)
            if j in add1 and (j == k or not k[2]) and add1[j] != add0[k]],
                    'code1': code1, 'code2': code2, 'doc': doc,
                    'po0': (b0 or b'').decode(), 'po1': b1.decode(),
                    'po2': b2.decode() if b1 != b2 else None})
    return out


def model(chk, ids, ctx, ref, mx, default='""'):
    r = tlc.run(
        'Lifecycle', dict(NIds=ids, CtxOn=ctx, RefOn=ref, Default=default,
                          MaxSrc=mx, DefaultOnly='FALSE', Emitting='TRUE'),
        invariants=['TranslationsSurvive', 'NotAttachedToOthers', 'Unique'],
        properties=['MirrorsProp', 'IdempotentProp'],
        action_constraints=['Emit'], view='view', workers=1)
    chk.tlc(r)
    seen, trans = set(), []
    for t in r.records:
        k = repr((t['before'], t['op'], t['src'], t['mode'], t['after']))
        if k not in seen:
            seen.add(k)
            trans.append(t)
    return trans


def walks(trans, rng, n, length):
    graph = {}
    for t in trans:
        graph.setdefault(repr(t['before']), []).append(t)
    for _ in range(n):
        cur, steps = '[]', []
        for _ in range(length):
            opts = graph[cur]
            w = [t for t in opts if t['op'] == 'write']
            x = [t for t in opts if t['op'] == 'extract']
            # remove mode empties the catalog, so it is made rarer
            x2 = [t for t in x if t['mode'] != 'remove'] or x
            t = rng.choice(w) if w and rng.random() < .4 else rng.choice(
                x2 if rng.random() < .85 else x)
            steps.append(t)
            cur = repr(t['after'])
        if steps[0]['op'] == 'extract':
            yield steps


def jobs(chk, max_single, n_walks, walk_len, configs):
    rng = chk.rng
    allt = []
    for c in configs:
        trans = model(chk, *c)
        allt.append((c, trans))
    out = []
    for c, trans in allt:
        ext = [t for t in trans if t['op'] == 'extract']
        if len(ext) > max_single:
            ext = rng.sample(ext, max_single)
        for t in ext:
            out.append((rng.randrange(len(TEXTS)), rng.random(), [t],
                        rng.random() < .25, rng.random() < .5))
        for w in walks(trans, rng, n_walks, walk_len):
            out.append((rng.randrange(len(TEXTS)), rng.random(), w,
                        rng.random() < .3, rng.random() < .5))
    return out


def configs(chk):
    if chk.thorough:
        return 60000, 3000, 25, [(2, 1, 'FALSE', 3), (3, 0, 'FALSE', 3),
                                 (2, 0, 'TRUE', 2), (2, 1, 'TRUE', 2),
                                 (1, 2, 'FALSE', 3)]
    return 3000, 250, 12, [(2, 1, 'FALSE', 3), (2, 0, 'TRUE', 2),
                           (1, 2, 'FALSE', 2)]


def run_jobs(chk, js, judge):
    res = run_real(replay, js, limit=60)
    steps_done = 0
    for job, (status, val) in zip(js, res):
        v, seed, steps = job[:3]
        base = {'variant': v, 'cli': job[3], 'location': job[4]}
        if status != 'ok':
            chk.violation(f'extraction failed: {status} {val}',
                          {**base, 'steps': steps})
            continue
        for i, (st, o) in enumerate(zip(steps, val)):
            if o is None:
                continue
            steps_done += 1
            want = [conv(e, v) for e in st['after']]
            bad = judge(st, want, o, v)
            if bad:
                chk.violation(bad, {**base, 'step': i, 'history': steps[:i + 1],
                                    'expected': want, 'observed': o})
                break
            if i and steps_done % 50 == 0:
                chk.sample({'history': [(s['op'], s['mode'], s['src'])
                                        for s in steps[:i + 1]],
                            'catalog': want})
    chk.traces += len(js)
    chk.extra['extractions_compared'] = \
        chk.extra.get('extractions_compared', 0) + steps_done
    if not steps_done and not chk.violations:
        raise RuntimeError('vacuous run')


def judge_c01(st, want, o, v):
    got = o['got']
    before = {(ctx_of(e['ctx'], v), text_of(e['id'], v)) for e in st['before']}
    for ctx, id_, s, fz, obs in want:
        if (ctx, id_) not in before:
            continue
        same = [g for g in got if g[:2] == (ctx, id_)]
        if len(same) != 1:
            return f'message {(ctx, id_)} is {len(same)} times in the catalog'
        if same[0][2] != s:
            return (f'translation of {(ctx, id_)} is {same[0][2]!r} instead'
                    f' of {s!r}')
        if s and same[0][3] != fz:
            return f'fuzzy state of {(ctx, id_)} is {same[0][3]}'
        if same[0][4] != obs:
            return f'obsolete state of {(ctx, id_)} is {same[0][4]}'
    if o['adds']:
        return f'comments or flags of entries altered: {o["adds"]}'
    return None


def judge_c02(st, want, o, v):
    got = [(g[0], g[1], g[4]) for g in o['got']]
    w = [(g[0], g[1], g[4]) for g in want]
    if got != w:
        return f'catalog has {got} instead of {w} ({st["mode"]} mode)'
    if o['got'] != want and st['mode'] == 'merge':
        return f'merge mode altered entries: {o["got"]} instead of {want}'
    new = {(m['ctx'], m['id']) for m in st['src']} - {
        (e['ctx'], e['id']) for e in st['before']}
    for g, w_, m in zip(o['got'], want, st['after']):
        if (m['ctx'], m['id']) in new and g != w_:
            return f'new entry {g} instead of {w_}'
    return None


def judge_c03(st, want, o, v):
    if not o['same']:
        return 'second extraction changed the PO file'
    if o['code1'] is not None:
        if o['code1'] != (2 if o['changed'] else 0):
            return (f'first run exited {o["code1"]} and the file was'
                    f' {"" if o["changed"] else "not "}changed')
        if o['code2'] != 0:
            return f'second run exited {o["code2"]}'
    return None


def c01(chk):
    run_jobs(chk, jobs(chk, *configs(chk)), judge_c01)


def c02(chk):
    run_jobs(chk, jobs(chk, *configs(chk)), judge_c02)


def c03(chk):
    run_jobs(chk, jobs(chk, *configs(chk)), judge_c03)
