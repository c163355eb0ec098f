"""C18 (and more inputs for C06, C08): documents of Html.tla on mdpo2html,
md2po and po2md."""
import concurrent.futures
import random
import re

from harness import docs, tlc
from harness.core import clean_cwd, run_real
from harness.values import cli

KINDS = ['t', 'x', 'e', 's', 'es', 'n', 'c', 'ec', 'a', 'at', 'ae', 'ac', 'i',
         'it', 'ai', 'u', 'r', 'rt', 'rs', 'aq', 'br', 'sp', 'cm', 'en']
REFS = ('r', 'rt', 'rs')
CMDS = '{"dis","ena","dnb","enb","ctx","tr","inc","dcbs"}'


def tla(xs):
    return '{' + ', '.join(f'"{x}"' for x in xs) + '}'


def simulations(chk, traces, n, cmds=CMDS):
    """Records of several simulations with different kinds of spans."""
    def one(i):
        rng = random.Random(f'{chk.seed}-{i}')
        ks = KINDS[:]
        rng.shuffle(ks)
        return tlc.run('Html', dict(
            N=n + i % 3, Spans=1 + i % 3, Kinds=tla(sorted(ks[:4 + i % 3])),
            Leaves='{"hr","cf","htm","tbl"}',
            Conts='{"q","ul","UL","OL","ol"}' if i % 4 else '{"q","ul"}',
            Cmds=cmds if i % 5 else '{}',
        ), invariants=['NothingOK', 'DisabledOK', 'TranslatedOK', 'Emit'],
            simulate=(traces, 120), seed=chk.seed * 100 + i)

    runs = chk.pick(8, 24)
    seen, out = set(), []
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for r in pool.map(one, range(runs)):
            chk.tlc(r)
            for c in r.records:
                k = str((c['html'], c['cat'], c['defs']))
                if k not in seen:
                    seen.add(k)
                    out.append(c)
    return out


def exhaustive(chk):
    """Every structure of a few blocks."""
    out = []
    confs = [
        dict(N=3, Spans=1, Kinds='{"e"}', Leaves='{"hr"}',
             Conts='{"q","ul","UL"}', Cmds='{"dnb"}'),
        dict(N=3, Spans=1, Kinds='{"t"}', Leaves='{}', Conts='{}',
             Cmds='{"dis","ena","dnb","enb","ctx","tr","inc"}'),
        dict(N=1, Spans=chk.pick(2, 3), Kinds=tla(KINDS if chk.thorough
                                                  else KINDS[::2]),
             Leaves='{}', Conts='{}', Cmds='{}'),
    ]
    if chk.thorough:
        confs[0]['N'] = confs[1]['N'] = 4
        confs[2]['Kinds'] = tla(KINDS[::2])
        confs.append({**confs[2], 'Spans': 2, 'Kinds': tla(KINDS)})

    def one(c):
        return tlc.run('Html', c, invariants=[
            'NothingOK', 'DisabledOK', 'TranslatedOK', 'Emit'], workers=2)
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for r in pool.map(one, confs):
            chk.tlc(r)
            rs = r.records
            limit = chk.pick(4000, 60000)
            out += rs if len(rs) <= limit else chk.rng.sample(rs, limit)
    return out


def write(case, rng):
    """The document and its catalog: one or two PO files."""
    import md4c
    import polib
    doc = '\n'.join(case['md']) + '\n'
    if case['defs']:
        doc += '\n' + '\n'.join(d['id'] for d in case['defs']) + '\n'
    src = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES).parse(doc)
    if src != case['html']:
        return doc, None, []   # the model is not md4c here
    es = [(e['c'] or None, e['i'], e['s']) for e in case['cat']]
    es += [(None, d['id'], d['str']) for d in case['defs']]
    rng.shuffle(es)
    k = rng.choice([0, 0, len(es) // 2])
    pos = []
    for i, part in enumerate([es[:k], es[k:]]):
        if not part and i == 0:
            continue
        po = polib.POFile()
        for c, m, s in part:
            # fuzzy and obsolete translations are used too
            po.append(polib.POEntry(
                msgid=m, msgctxt=c, msgstr=s, obsolete=rng.random() < .1,
                flags=['fuzzy'] if rng.random() < .2 else []))
        po.save(f't{i}.po')
        pos.append(f't{i}.po')
    return doc, src, pos


def read(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()




def c18_case(job):
    seed, case = job
    clean_cwd()
    rng = random.Random(seed)
    doc, src, pos = write(case, rng)
    if src is None:
        return {'invalid': doc}
    from mdpo.mdpo2html import MdPo2HTML, markdown_pofile_to_html
    mode = rng.choice(['text', 'file', 'save', 'cli', 'clisave', 'merge',
                       'twice'])
    with open('in.html', 'w', encoding='utf-8', newline='') as f:
        f.write(src)
    want = case['want']
    if mode == 'text':
        out = MdPo2HTML(pos).translate(src)
    elif mode == 'twice':
        tool = MdPo2HTML(pos)
        lines = src.splitlines(True)
        tool.translate(''.join(lines[:rng.randint(0, len(lines))]))
        out = tool.translate(src)
    elif mode == 'file':
        out = markdown_pofile_to_html('in.html', 't*.po')
    elif mode == 'save':
        out = MdPo2HTML(pos).translate('in.html', save='out.html')
        saved = read('out.html')
        if saved != out:
            return {'clause': 'other content is saved', 'mode': mode,
                    'html': src, 'expected': out, 'observed': saved}
    elif mode == 'merge':
        out = MdPo2HTML(pos, merge_adjacent_markups=True).translate(src)
        if case['want'] == case['plain']:
            return None   # texts without translation are not specified
        want = case['wantm']
    else:
        args = ['in.html'] + [x for p in pos for x in ('-p', p)]
        if mode == 'clisave':
            args += ['-s', 'out.html']
        code, out, err = cli('mdpo2html', args)
        if code:
            return {'clause': 'mdpo2html fails', 'mode': mode, 'html': src,
                    'error': err}
        out = read('out.html') if mode == 'clisave' else out[:-1]
    if read('in.html') != src:
        return {'clause': 'the source changes', 'mode': mode, 'html': src}
    if out.lstrip('\n') != want.lstrip('\n'):
        return {'clause': 'other HTML', 'mode': mode, 'doc': doc, 'html': src,
                'expected': want, 'observed': out}
    return None


def norm(h):
    """What po2md keeps of a document: loose and tight lists, line breaks and
    starts of lists are not distinguished."""
    h = re.sub(r'</?p>', '', h)
    h = re.sub(r'<br>', '', h)
    h = re.sub(r' start="\d+"', '', h)
    h = re.sub(r' ?<!-- (\w+|a comment.*?) --> ?', '', h)
    h = re.sub(r'\s+', ' ', h)
    h = re.sub(r' ?(</?(ul|ol|li|table|tr|thead|tbody|th|td|blockquote|h\d|hr|'
               r'pre|code|img|div)\b[^>]*>|<\?.*?>) ?', r'\1', h)
    while '<blockquote></blockquote>' in h:
        h = h.replace('<blockquote></blockquote>', '')
    return re.sub(r'\s+', ' ', h).strip()


def tools_case(job):
    """md2po extracts the messages of the model and po2md translates them."""
    seed, case = job
    clean_cwd()
    rng = random.Random(seed)
    doc, src, pos = write(case, rng)
    if src is None:
        return {'invalid': doc}
    import md4c
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md
    with open('doc.md', 'w', encoding='utf-8') as f:
        f.write(doc)
    got = [(e.msgctxt or '', e.msgid) for e in Md2Po(['doc.md']).extract()]
    defs = {('', d['id']) for d in case['defs']}
    got = [g for g in got if g not in defs and g[1] != 'included']
    want = []
    for m in case['found']:
        if m['on'] and (m['c'], m['i']) not in want:
            want.append((m['c'], m['i']))
    if got != want:
        return {'clause': 'md2po extracts other messages', 'doc': doc,
                'expected': want, 'observed': got}
    if case['late'] or case['defs']:
        return None
    out = Po2Md(pos).translate('doc.md')
    got = norm(md4c.HTMLRenderer(md4c.MD_FLAG_TABLES).parse(out))
    if got != norm(case['want']) and docs.stable(out):
        return {'clause': 'po2md translates other messages', 'doc': doc,
                'output': out, 'expected': norm(case['want']),
                'observed': got}
    return None


def check(chk, fn, cases):
    jobs = [(chk.rng.random(), c) for c in cases]
    invalid = []
    for job, (status, val) in zip(jobs, run_real(fn, jobs)):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'seed_case': job[0],
                                               'case': job[1]})
        elif val and 'invalid' in val:
            invalid.append(val['invalid'])
        elif val:
            chk.violation(val['clause'], {**val, 'case': job[1]})
    if len(invalid) > len(jobs) // 100:
        raise RuntimeError(f'md4c renders other HTML: {invalid[:3]}')
    chk.extra['documents_not_as_in_md4c'] = len(invalid)
    chk.traces += len(jobs) - len(invalid)
    for j in jobs[:: max(1, len(jobs) // 3)]:
        chk.sample(j[1])
    if len(jobs) < 500:
        raise RuntimeError('vacuous run')


def c18(chk):
    cases = simulations(chk, chk.pick(700, 4000), chk.pick(6, 8))
    cases += exhaustive(chk)
    check(chk, c18_case, cases)
    chk.extra['documents_with_translations'] = sum(
        c['want'] != c['plain'] for c in cases)


def tools(chk, cmds=CMDS):
    """The same documents on md2po and po2md."""
    cases = simulations(chk, chk.pick(200, 3000), chk.pick(6, 8), cmds)
    check(chk, tools_case, cases)
