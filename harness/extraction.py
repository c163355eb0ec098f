"""Documents extracted by md2po, judged by ExtractTrace.tla."""
import os
import itertools
import random

from harness import docs, tlc
from harness.core import clean_cwd, run_real
from harness.judge import diff, judge


def catalog(pofile):
    """Entries of a catalog, the obsolete ones at the end."""
    return [{
        'ctx': e.msgctxt or '', 'id': e.msgid, 'tc': e.comment or '',
        'str': e.msgstr, 'fuzzy': 'fuzzy' in e.flags, 'obs': bool(e.obsolete),
        'loc': ' '.join(f'{a}:{b}' if b else a for a, b in e.occurrences),
    } for e in sorted(pofile, key=lambda e: bool(e.obsolete))]


def pairs(d):
    return [{'k': k, 'v': v} for k, v in (d or {}).items()]


def version():
    import importlib.metadata
    return importlib.metadata.version('mdpo')


def trace(files, pofile, disabled=None, *, all=False, plain=False, ignore=(),
          msgstr='', aliases=None, location=True, extensions=docs.EXTENSIONS,
          mode='default', old=(), meta=None, xheader=False, before=None,
          mo=None):
    """files: (path, content) pairs in the order they are extracted."""
    return {
        'files': [{'path': p if location else '',
                   'ev': docs.events(c, extensions),
                   'lines': docs.reflines(c)} for p, c in files],
        'all': all, 'plain': plain, 'ignore': list(ignore), 'msgstr': msgstr,
        'al': [{'n': k, 'c': v} for k, v in (aliases or {}).items()],
        'head': {
            'old': pairs(before), 'got': pairs(pofile.metadata),
            'given': pairs(dict(meta or {}, **(
                {'X-Generator': f'mdpo v{version()}'} if xheader else {}))),
        },
        'hasmo': mo is not None, 'mo': [
            {'ctx': e.msgctxt or '', 'id': e.msgid, 'str': e.msgstr}
            for e in mo or ()],
        'mode': mode, 'old': list(old),
        'cat': catalog(pofile), 'nodis': disabled is None,
        'dis': [{'ctx': e.msgctxt or '', 'id': e.msgid}
                for e in disabled or ()],
    }


def extract(job):
    """Write the files of a job, extract them and record the trace."""
    clean_cwd()
    from mdpo.md2po import Md2Po
    files = job['files']
    for p, c in files:
        if not p:
            continue
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(c)
    o = job.get('opts', {})
    kw = {}
    if o.get('all'):
        kw['include_codeblocks'] = True
    if o.get('plain'):
        kw['plaintext'] = True
    if o.get('ignore'):
        kw['ignore_msgids'] = o['ignore']
    if o.get('msgstr'):
        kw['msgstr'] = o['msgstr']
    if o.get('aliases'):
        kw['command_aliases'] = o['aliases']
    if not o.get('location', True):
        kw['location'] = False
    if 'extensions' in o:
        kw['extensions'] = o['extensions']
    if o.get('mode') == 'merge':
        kw['mark_not_found_as_obsolete'] = False
    if o.get('mode') == 'remove':
        kw['preserve_not_found'] = False
    if o.get('meta'):
        kw['metadata'] = dict(o['meta'])
    if o.get('xheader'):
        kw['xheader'] = True
    if not files[0][0]:
        # a string is also tried as a glob
        arg = files[0][1] + '\n'
    else:
        arg = '*.md' if job.get('glob') else [p for p, _ in files]
    m = Md2Po(arg, **kw)
    if 'old' not in job:
        po = m.extract()
        return trace(files, po, m.disabled_entries, **o)
    import polib
    if job['old'] or job.get('before'):
        write_catalog('doc.po', job['old'], job.get('before'))
    ekw = {}
    if 'wrapwidth' in job:
        ekw['wrapwidth'] = job['wrapwidth']
    if job.get('mo'):
        ekw['mo_filepath'] = 'doc.mo'
    m.extract('doc.po', save=True, **ekw)
    return trace(files, polib.pofile('doc.po'), m.disabled_entries,
                 old=job['old'], before=job.get('before'),
                 mo=polib.mofile('doc.mo') if job.get('mo') else None, **o)


def write_catalog(path, entries, metadata=None):
    import polib
    po = polib.POFile(wrapwidth=78)
    po.metadata = dict(metadata or {})
    for e in entries:
        po.append(polib.POEntry(
            msgctxt=e['ctx'] or None, msgid=e['id'], msgstr=e['str'],
            comment=e['tc'], flags=['fuzzy'] if e['fuzzy'] else [],
            obsolete=e['obs'], occurrences=[
                tuple(x.split(':', 1)) for x in [e['loc']] if x]))
    po.save(path)


def run(chk, jobs, clause='extracted messages differ'):
    """Extract every job and judge the traces."""
    res = run_real(extract, jobs)
    traces, who = [], []
    for job, (status, val) in zip(jobs, res):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'job': job})
        else:
            traces.append(val)
            who.append(job)
    for job, t, v in zip(who, traces, judge(
            chk, 'ExtractTrace', traces, ['WellNested', 'SkeletonOK'])):
        for c, what, of in (('head', 'header differs', 'head'),
                            ('mo', 'MO file differs', 'mo')):
            if v['cat'] and not v[c]:
                chk.violation(what, {'job': job, 'observed': t[of]})
        if v['cat'] and v['dis']:
            continue
        if not v['cat']:
            chk.violation(clause, {
                'job': job, **diff(v['want'][0], t['cat'])})
        else:
            chk.violation('disabled messages differ', {
                'job': job, **diff(v['want'][1], t['dis'])})
    chk.traces += len(traces)
    return who, traces


def skeletons(chk, n, lists=2, limit=None, simulate=None, simple=False,
              wide=0):
    """Document structures enumerated (or simulated) by TLC."""
    if simulate:
        r = tlc.run('Docs', dict(N=n, MaxLists=lists,
                                 Simple=str(simple).upper(),
                                 Wide=wide),
                    invariants=['EmitFull'], simulate=(simulate, 3 * n),
                    seed=chk.rng.randrange(10**6))
    else:
        r = tlc.run('Docs', dict(N=n, MaxLists=lists,
                                 Simple=str(simple).upper(),
                                 Wide=wide),
                    invariants=['Emit'])
    chk.tlc(r)
    seen, out = set(), []
    for d in r.records:
        t = tuple(d['d'])
        if t not in seen:
            seen.add(t)
            out.append(t)
    if limit and len(out) > limit:
        out = chk.rng.sample(out, limit)
    return out


SAFE = ['disable', 'enable', 'disable-codeblock', 'include-codeblock',
        'include-codeblocks', 'disable-codeblocks']
ANY = SAFE + ['disable-next-block', 'enable-next-block', 'context c1',
              'context other context', 'translator A note', 'include Comment']


ATTACHED = ['context c1', 'context other context', 'translator A note',
            'translator Ñ other note', 'disable-next-block', 'include Comment']


OPTIONAL = ['collapse_whitespace', 'strikethrough', 'tasklists',
            'latex_math_spans', 'wikilinks', 'underline',
            'permissive_url_autolinks', 'permissive_atx_headers',
            'no_html_spans']


def commander(rng, names=ANY):
    return lambda: f'<!-- mdpo-{rng.choice(names)} -->'


def c04(chk):
    jobs = []
    sk = skeletons(chk, chk.pick(4, 5), 2, chk.pick(1200, 20000))
    sk += skeletons(chk, 18, 3, chk.pick(500, 6000),
                    simulate=chk.pick(300, 4000))
    sk += skeletons(chk, 4, 2, chk.pick(1200, 20000), wide=2)
    sk += skeletons(chk, 18, 3, chk.pick(500, 6000), wide=2,
                    simulate=chk.pick(300, 4000))
    for t in sk:
        rng = random.Random(chk.rng.random())
        d = docs.write(t, rng, cmd=commander(rng, SAFE))
        opts = {'all': rng.random() < .3}
        if rng.random() < .25:
            # (the last one is needed by the tables)
            opts['extensions'] = rng.sample(OPTIONAL, rng.randint(
                0, len(OPTIONAL))) + ['tables']
            if not docs.wellformed(docs.events(d, opts['extensions'])):
                continue
        jobs.append({'files': [('doc.md', d)], 'opts': opts})
    for d in packed(chk, contents(chk, chk.pick(4000, 9**9),
                                  chk.pick(2000, 40000)), sk):
        if docs.wellformed(docs.events(d)):
            jobs.append({'files': [('doc.md', d)], 'opts': {}})
    for d in lines(chk, chk.pick(3750, 9**9), chk.pick(3750, 40000)):
        jobs.append({'files': [('doc.md', d)],
                     'opts': {'all': chk.rng.random() < .3}})
    who, traces = run(chk, jobs)
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)


def aged(rng, cat):
    """An existing catalog: entries of an extraction after translators have
    worked on it and the source has changed."""
    out = []
    for n, e in enumerate(cat):
        r = rng.random()
        if r < .2:
            continue
        e = dict(e)
        if r < .35:
            e['str'], e['fuzzy'] = f't{n}', False
        elif r < .45:
            e['str'], e['fuzzy'] = f't{n} é', True
        elif r < .55:
            e['fuzzy'] = False
        elif r < .7:
            e.update(obs=True, loc='', str=rng.choice(
                ['', f't{n}', f't{n}', e['str']]))
            e['fuzzy'] = bool(e['str']) and rng.random() < .3
            e['tc'] = ''
        if not e.get('obs') and rng.random() < .2:
            e['tc'] = rng.choice(['', 'a comment'])
        if not e.get('obs') and e['loc'] and rng.random() < .3:
            e['loc'] = rng.choice(['', 'doc.md:block 7 (paragraph)'])
        out.append(e)
    for n in range(rng.randint(0, 2)):
        out.insert(rng.randint(0, len(out)), {
            'ctx': rng.choice(['', 'gone']), 'id': f'old w{n}', 'tc': '',
            'str': rng.choice(['', f'old t{n}']), 'fuzzy': False,
            'obs': rng.random() < .5, 'loc': ''})
    for n in range(rng.randint(0, 1)):
        out.append({'ctx': '', 'id': '[gone]: /gone', 'tc': '', 'fuzzy': True,
                    'str': '[gone]: /gone', 'obs': rng.random() < .5,
                    'loc': ''})
    return sorted(out, key=lambda e: e['obs'])


def age(chk, jobs):
    """Jobs whose catalog exists already."""
    res = run_real(extract, jobs)
    out = []
    for job, (status, val) in zip(jobs, res):
        if status == 'ok':
            opts = dict(job.get('opts', {}), mode=chk.rng.choice(
                ['default', 'default', 'merge', 'remove']))
            if chk.rng.random() < .15:
                opts['location'] = not opts.get('location', True)
            out.append(dict(job, old=aged(chk.rng, val['cat']), opts=opts))
    return out


REFS = ['ref', 'refs', 'refc', 'reft', 'imgref', 'a', 'at', 'img', 'auto',
        'em', 'code', 'imgsame', 'asame']


def c11x(chk):
    """Link references extracted, in new and existing catalogs."""
    sk = skeletons(chk, chk.pick(4, 5), 2, chk.pick(500, 6000), wide=2)
    sk += skeletons(chk, 12, 3, chk.pick(300, 4000),
                    simulate=chk.pick(200, 2500))
    jobs = []
    for t in sk:
        rng = random.Random(chk.rng.random())
        d = dangling(docs.write(t, rng, kinds=REFS,
                                cmd=commander(rng, SAFE)), rng, ANY)
        jobs.append({'files': [('doc.md', d)],
                     'opts': {'all': rng.random() < .3}})
    who, _ = run(chk, jobs)
    jobs += [{'files': [('doc.md', d)], 'opts': {}} for d in lines(
        chk, chk.pick(1000, 9**9), chk.pick(1000, 20000),
        skip=('tables', 'html', 'heads', 'breaks'))]
    run(chk, age(chk, jobs), 'catalog updated differently')
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)


FAMILIES = ['texts', 'codes', 'wikis', 'links', 'images', 'marks', 'refs',
            'math', 'auto']


def contents(chk, small, deep, skip=()):
    """Inline contents: those of 2 nodes (or a sample), and simulated ones
    with several families of them."""
    fam = [f for f in FAMILIES if f not in skip]

    def tlc_run(n, families, **kw):
        r = tlc.run('Inline', dict(N=n, Depth=3, Families='{%s}' % ', '.join(
            f'"{x}"' for x in families)), **kw)
        chk.tlc(r)
        return sorted({tuple(d['d']) for d in r.records})
    out = tlc_run(2, fam, invariants=['Emit'])
    if small < len(out):
        out = chk.rng.sample(out, small)
    for n, fs in ((5, fam), (7, ['texts', 'codes', 'marks', 'links']),
                  (6, ['texts', 'codes', 'wikis', 'marks', 'math', 'refs']),
                  (6, ['texts', 'links', 'images', 'refs'])):
        fs = [f for f in fs if f not in skip]
        k = deep // 4
        got = tlc_run(n, fs, invariants=['EmitFull'], simulate=(k, 3 * n),
                      seed=chk.rng.randrange(10**6))
        out += chk.rng.sample(got, min(len(got), k))
    chk.rng.shuffle(out)
    return out


LINES = ['text', 'heads', 'items', 'quotes', 'code', 'tables', 'html', 'refs',
         'breaks', 'commands', 'next', 'attached']


def lines(chk, small, deep, po=False, skip=()):
    """Documents of any lines (Lines.tla): those of one and two lines (or a
    sample of them), and simulated ones."""
    fam = [f for f in LINES if f not in skip]

    def tlc_run(n, families, **kw):
        r = tlc.run('Lines', dict(N=n, Families='{%s}' % ', '.join(
            f'"{x}"' for x in families)), **kw)
        chk.tlc(r)
        return sorted({tuple(d['d']) for d in r.records})
    out = tlc_run(2, fam, invariants=['Emit'])
    if small < len(out):
        out = chk.rng.sample(out, small)
    for n, k in ((3, deep // 3), (6, deep // 3), (14, deep // 3)):
        # all of the families, or some of them
        for fs in (fam, chk.rng.sample(fam, len(fam) // 2)):
            got = tlc_run(n, fs, invariants=['EmitFull'],
                          simulate=(k // 2, n + 1),
                          seed=chk.rng.randrange(10**6))
            out += chk.rng.sample(got, min(len(got), k // 2))
    ds = []
    for x in out:
        d = docs.number(x)
        ev = docs.events(d)
        if docs.wellformed(ev) and docs.stable(d) and (
                not po or docs.writable(docs.blocks(ev), d)):
            ds.append(d)
    chk.rng.shuffle(ds)
    return ds


def packed(chk, cs, sk, **kw):
    """Documents of the structures which have all the contents."""
    out, cs = [], list(cs)
    sk = [t for t in sk if 'cmd' not in t and len(t) > 7]
    while cs:
        r = random.Random(chk.rng.random())
        out.append(docs.write(r.choice(sk), r, density=0, long=0, contents=cs,
                              **kw))
    return out


def documents(chk, small, deep, wide=2, n=None, kinds=docs.INLINE, names=ANY,
              density=.5):
    sk = skeletons(chk, n or chk.pick(4, 5), 2, small, wide=wide)
    sk += skeletons(chk, 16, 3, deep, simulate=deep // 2 + 20, wide=wide)
    out = []
    for t in sk:
        r = random.Random(chk.rng.random())
        out.append(docs.write(t, r, kinds=kinds, cmd=commander(r, names),
                              density=density))
    return out


def c12(chk):
    ds = documents(chk, chk.pick(1200, 20000), chk.pick(400, 5000),
                   density=.1)
    jobs = []
    for d in ds:
        r = random.Random(chk.rng.random())
        path = r.choice(['doc.md', 'a/b/doc.md', 'other name.md'])
        jobs.append({'files': [(path, d)], 'opts': {
            'all': r.random() < .5, 'location': r.random() < .85}})
        if r.random() < .1:
            jobs.append({'files': [('', d)], 'opts': {'location': True}})
    jobs += [{'files': [('doc.md', d)], 'opts': {
        'all': chk.rng.random() < .5, 'location': True}}
        for d in lines(chk, chk.pick(2000, 9**9), chk.pick(2000, 30000))]
    who, _ = run(chk, jobs, 'locations differ')
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)
    # in catalogs of previous versions
    run(chk, age(chk, [j for j in jobs if j['files'][0][0]][::3]),
        'locations updated differently')


def commands(names):
    return '\n'.join(f'<!-- mdpo-{x} -->\n' for x in names)


def dangling(d, r, names, often=.3):
    """Something is left pending at the end of some documents."""
    if r.random() < often:
        d += '\n' + commands(r.choices(names, k=r.choice([1, 1, 2])))
    return d


def attached(chk):
    """Contexts and comments of messages, in new and existing catalogs."""
    jobs = [{'files': [('doc.md', dangling(d, chk.rng, ATTACHED))], 'opts': {}}
            for d in documents(chk, chk.pick(300, 5000), chk.pick(150, 2500),
                               names=ATTACHED)]
    jobs += [{'files': [('doc.md', d)], 'opts': {}} for d in lines(
        chk, chk.pick(750, 9**9), chk.pick(1250, 20000), skip=('html',))]
    run(chk, jobs, 'contexts or comments differ')
    run(chk, age(chk, jobs), 'contexts or comments updated differently')


def c13(chk):
    ds = documents(chk, chk.pick(500, 6000), chk.pick(300, 4000), wide=0,
                   n=chk.pick(3, 4))
    ds += lines(chk, chk.pick(375, 4000), chk.pick(375, 2000))
    jobs = []
    for _ in range(chk.pick(700, 8000)):
        r = random.Random(chk.rng.random())
        n = r.choice([2, 2, 3, 4])
        files = []
        for i in range(n):
            d = r.choice(ds)
            if r.random() < .4:
                # something is left pending at the end of the file
                d += '\n' + commands(r.choices(ANY, k=r.choice([1, 2, 3])))
            if r.random() < .25:
                d = commands(r.choices(ANY, k=r.choice([1, 2, 3]))) + '\n' + d
            files.append((f'{chr(97 + i)}.md', d))
        jobs.append({'files': files, 'glob': r.random() < .3,
                     'opts': {'all': r.random() < .3,
                              'location': r.random() < .8}})
    # what a file leaves pending, and what the next one begins with
    pairs = [(a, b) for k in (1, 2) for a in itertools.product(ANY, repeat=k)
             for j in (0, 1, 2) for b in itertools.product(ANY, repeat=j)]
    if not chk.thorough:
        pairs = [p for p in pairs if len(p[0] + p[1]) < 3] + [
            p for p in pairs if len(p[0] + p[1]) == 3 and chk.rng.random() < .5
        ] + chk.rng.sample([p for p in pairs if len(p[0] + p[1]) == 4], 400)
    for a, b in pairs:
        first = 'Text a\n\n' + commands(a)
        if chk.rng.random() < .2:
            first = commands(a)
        jobs.append({'files': [
            ('a.md', first),
            ('b.md', commands(b) + '\n- Text b\n\n```\ncode\n```\n\nText c\n')],
            'opts': {'all': chk.rng.random() < .3, 'location': True}})
    who, _ = run(chk, jobs, 'extraction of several files differs')
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)


TITLED = ['[a{0}](u "t{0}")', '![a{0}](u "t{0}") b', 'c{0}',
          '# *d* [a{0}](<u v> "t{0}")', "- [a{0}](u 't{0}')\n- e{0}",
          '> [![a{0}](u "t{0}")](v "o{0}") f', '[a{0}](u (t{0})) [b](v)']


def titled(rng):
    """Titles of links and images after several commands."""
    out = []
    for i in range(rng.randint(1, 4)):
        out.append(commands(rng.choices(ANY, k=rng.choice([0, 1, 2, 2, 3]))))
        out.append(rng.choice(TITLED).format(i) + '\n')
    return '\n'.join(x for x in out if x)


def c21(chk):
    ds = documents(chk, chk.pick(900, 15000), chk.pick(500, 6000))
    jobs = []
    for d in ds:
        r = random.Random(chk.rng.random())
        jobs.append({'files': [('doc.md', d)], 'opts': {
            'all': r.random() < .3, 'plain': True}})
    for d in packed(chk, contents(chk, chk.pick(2000, 9**9),
                                  chk.pick(1000, 20000)),
                    skeletons(chk, 18, 3, 300, simulate=200)):
        if docs.wellformed(docs.events(d)):
            jobs.append({'files': [('doc.md', d)], 'opts': {'plain': True}})
    for d in lines(chk, chk.pick(2000, 9**9), chk.pick(2000, 30000)):
        jobs.append({'files': [('doc.md', d)], 'opts': {
            'all': chk.rng.random() < .3, 'plain': True}})
    for _ in range(chk.pick(600, 6000)):
        jobs.append({'files': [('doc.md', titled(chk.rng))],
                     'opts': {'plain': True}})
    who, _ = run(chk, jobs, 'plain texts differ')
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)


FIELDS = ['Language', 'Project-Id-Version', 'X-Custom', 'Last-Translator']


def c26(chk):
    ds = documents(chk, chk.pick(700, 10000), chk.pick(400, 5000))
    jobs = []
    for d in ds:
        r = random.Random(chk.rng.random())
        jobs.append({'files': [('doc.md', d)],
                     'opts': {'all': r.random() < .3}})
    res = run_real(extract, jobs)
    out = []
    for job, (status, val) in zip(jobs, res):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'job': job})
            continue
        r = random.Random(chk.rng.random())
        o = dict(job['opts'], plain=r.random() < .2)
        ids = [e['id'] for e in val['cat']]
        if r.random() < .6:
            o['ignore'] = r.sample(ids, min(len(ids), r.randint(1, 3))) \
                + ['not there']
        if r.random() < .4:
            o['msgstr'] = 'Default ñ'
        meta = ['Spanish', 'es', 'Some One <a@b.c>', '1.0: x']
        if r.random() < .5:
            o['meta'] = {k: r.choice(meta) for k in
                         r.sample(FIELDS, r.randint(1, 3))}
        o['xheader'] = r.random() < .3
        j = dict(job, opts=o)
        if r.random() < .7:
            j['old'] = aged(r, val['cat']) if r.random() < .7 else []
            if r.random() < .6:
                j['before'] = {k: r.choice(meta) for k in
                               r.sample(FIELDS, r.randint(1, 3))}
            o['mode'] = r.choice(['default', 'merge', 'remove'])
            j['mo'] = r.random() < .5
        out.append(j)
    who, _ = run(chk, out, 'options change other entries')
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)
