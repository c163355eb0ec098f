"""Documents translated by po2md, judged by TranslateTrace.tla."""
import random
import re

from harness import docs
from harness.core import clean_cwd, run_real
from harness.extraction import (
    OPTIONAL,
    REFS,
    SAFE,
    c11x,
    commander,
    contents,
    dangling,
    lines,
    packed,
    skeletons,
)
from harness.extraction import run as run_extraction
from harness.judge import judge

WORD = re.compile(r'\bw(\d+)\b')
SHAPES = ['t{0}x', 'tr{0}q tz{0} and more of it', 'ñ{0}é', 'Ωλ{0}ж',
          't{0}x, (ty{0}); tz{0}: e', 'veryveryverylong' * 3 + '{0}x']
EXTRA = ['', '', ' *e{0}*', ' **e{0}** `c{0}`', ' [l{0}](v{0})', ' & e{0}',
         ' ~~d{0}~~']

STARTS = ['- ', '# ', '1. ', '> ', '22) ', '+ ', '~~~ ', '--- ', '###### ',
          '>', '- - ']


def translate_text(rng, text, n, kind):
    """A translation for a message, different for every message."""
    if kind == 'ref':
        target, rest = text.split(']:', 1)
        return target + ']:' + WORD.sub(lambda m: f't{m[1]}r{n}', rest)
    if kind == 'code':
        return WORD.sub(lambda m: rng.choice(SHAPES[:4]).format(
            f'{m[1]}n{n}'), text)
    simple = '](' in text or '<http' in text or '[[' in text or '$' in text
    out = WORD.sub(lambda m: (SHAPES[0] if simple else rng.choice(SHAPES)
                              ).format(f'{m[1]}n{n}'), text)
    if kind == 'text' and not simple:
        out += rng.choice(EXTRA).format(f'{n}')
        if rng.random() < .12:
            # which would start other block
            out = rng.choice(STARTS) + out
    return out


def kind_of(e):
    if 'fuzzy' in e.flags and e.msgid.startswith('[') and ']: ' in e.msgid:
        return 'ref'
    return 'code' if e.msgid.endswith('\n') or '\n' in e.msgid else 'text'


def side(content, extensions):
    return {'ev': docs.events(content, extensions),
            'lines': docs.reflines(content)}


def translate(job):
    """Extract a document, translate part of its catalog and render it at
    several wrap widths."""
    clean_cwd()
    import polib
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md
    rng = random.Random(job['seed'])
    o = job.get('opts', {})
    ext = o.get('extensions', docs.EXTENSIONS)
    kw = {'extensions': ext}
    if o.get('aliases'):
        kw['command_aliases'] = o['aliases']
    with open('doc.md', 'w', encoding='utf-8') as f:
        f.write(job['doc'])
    ekw = dict(kw, **({'include_codeblocks': True} if o.get('all') else {}))
    po = Md2Po(['doc.md'], **ekw).extract()
    new, pairs = polib.POFile(wrapwidth=0), []
    for n, e in enumerate(po):
        s = ''
        if rng.random() < job['frac']:
            s = translate_text(rng, e.msgid, n, kind_of(e))
        elif kind_of(e) == 'ref':
            s = e.msgid
        new.append(polib.POEntry(
            msgid=e.msgid, msgstr=s, msgctxt=e.msgctxt,
            flags=['fuzzy'] if kind_of(e) == 'ref' and s == e.msgid else []))
        pairs.append({'ctx': e.msgctxt or '', 'id': e.msgid, 'str': s})
    new.save('doc.po')
    if rng.random() < .5:
        pairs += [{'ctx': '', 'id': 'not there', 'str': 'never'}]
    # translations for other contexts, which are never used
    other = polib.POFile(wrapwidth=0)
    there = {(p['ctx'], p['id']) for p in pairs}
    contexts = rng.choice([[''], ['', 'c1'], ['c1', 'never'], ['other context'],
                           ['', 'c1', 'other context', 'never']])
    for p in list(pairs):
        for c in contexts:
            if (c, p['id']) not in there and rng.random() < job['other']:
                there.add((c, p['id']))
                pairs.append({'ctx': c, 'id': p['id'], 'str': 'never ' + c})
                other.append(polib.POEntry(
                    msgid=p['id'], msgctxt=c or None, msgstr='never ' + c))
    other.save('other.po')

    def ids(pofile):
        return [[e.msgctxt or '', e.msgid] for e in pofile
                if kind_of(e) != 'ref']
    src = side(job['doc'], ext)
    base = {'src': src, 'po': pairs, 'all': o.get('all', False),
            'ids': ids(po), 'simple': job.get('simple', False),
            'al': [{'n': k, 'c': v} for k, v in o.get('aliases', {}).items()]}
    traces, seen = [], {}
    for w in job['widths']:
        out = Po2Md(['doc.po', 'other.po'], wrapwidth=w, **kw).translate('doc.md')
        if not docs.stable(out, ext):
            continue
        s = side(out, ext)
        key = out if job.get('simple') else str(s)
        if key in seen:
            seen[key]['widths'].append(w)
            continue
        # the output is rendered again as it is
        with open('out.md', 'w', encoding='utf-8') as f:
            f.write(out)
        again = Po2Md('empty.po', wrapwidth=w, **kw).translate('out.md') \
            if job.get('again') else out
        t = dict(base, out=s, md=out.split('\n'), again=again.split('\n'),
                 widths=[w], reids=[], hasre=False)
        if job.get('again') and 'mdpo-' not in job['doc']:
            t['hasre'] = True
            t['reids'] = ids(Md2Po(['out.md'], **ekw).extract())
        seen[key] = t
        traces.append(t)
    return traces


CLAUSES = {
    'skel': 'translated document differs',
    'shape': 'structure of the translated document differs',
    'refs': 'link references of the translated document differ',
    'again': 'rendering the output again changes it',
    'agree': 'md2po does not extract the messages po2md looks up',
    'wrap': 'a line which could be broken exceeds the wrap width',
}


def run(chk, jobs, clauses):
    """clauses: names of the verdicts that belong to the property."""
    res = run_real(translate, jobs)
    traces, who = [], []
    for job, (status, val) in zip(jobs, res):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'job': job})
            continue
        for t in val:
            traces.append(t)
            who.append(job)
    vs = judge(chk, 'TranslateTrace', traces, ['WellNested'])
    for job, t, v in zip(who, traces, vs):
        for c in clauses:
            if not v[c]:
                chk.violation(CLAUSES[c], {
                    'job': job, 'widths': t['widths'], 'output': t['md'],
                    'again': t['again'] if t['again'] != t['md'] else '',
                    'po': t['po'], 'ids': [t['ids'], t['reids']],
                    'diff': v['want']})
                break
    chk.traces += len(traces)
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)
    return who, traces


# inline contents which keep their meaning however they are wrapped
KINDS = [k for k in docs.INLINE if k not in ('wikil', 'uni', 'codel')]


def structures(chk, small, deep, wide=1, n=None):
    """Enumerated structures (exhaustive up to n nodes, sampled) and
    simulated ones."""
    sk = skeletons(chk, n or chk.pick(4, 5), 2, small, wide=wide)
    for size in (12, 22):
        sk += skeletons(chk, size, 3, deep // 2, simulate=deep // 2 + 20,
                        wide=wide)
    return sk


CONTEXTS = ['context c1', 'context other context', 'translator A note']


def jobs_for(chk, sk, kinds=KINDS, frac=(.5,), widths=None, extensions=.3,
             commands=.7, again=False, all_=.3, density=.5,
             other=(0, .2, .7), names=None):
    out = []
    for t in sk:
        r = random.Random(chk.rng.random())
        cmds = names or SAFE + (
            CONTEXTS if not {'cf', 'ci'} & set(t) else [])
        if 'cmd' in t and r.random() > commands:
            continue
        d = docs.write(t, r, kinds=kinds, cmd=commander(r, cmds),
                       density=density, strict=True)
        if r.random() < commands / 5:
            d = dangling(d, r, cmds, 1)
        opts = {'all': r.random() < all_}
        if r.random() < extensions:
            opts['extensions'] = ['tables'] + r.sample(
                OPTIONAL, r.randint(0, len(OPTIONAL)))
        if not docs.apart(docs.blocks(docs.events(
                d, opts.get('extensions', docs.EXTENSIONS)))):
            continue
        out.append({'doc': d, 'seed': r.random(), 'frac': r.choice(frac),
                    'widths': widths(r) if widths else [r.choice([0, 80])],
                    'opts': opts, 'again': again,
                    'other': r.choice(other)})
    return out


def expressible(tokens):
    """Contents whose Markdown in messages means the same again (see the
    domains in DESIGN.md)."""
    stack = []
    for p, t in zip((None, *tokens), tokens):
        if '-' in (t, p) or p in MARKS or t in MARKS:
            # delimiters beside escaped characters
            if {p, t} & {'star', 'tick'} and {p, t} & {'-', *MARKS}:
                return False
        if t == '-':
            stack.pop()
        elif t.startswith('+'):
            if t.startswith(('+a:text:', '+a:mailto:')) and \
                    not t.endswith(':no'):
                return False
            stack.append(t[:4])
            if t.startswith('+img') and any(x[:5] == '+a:am' for x in stack):
                return False
            stack[-1] = t[:5]
        elif t in PLAIN and any(x[:4] == '+img' for x in stack):
            return False
    return True


MARKS = ('+em', '+em_', '+st', '+st_', '+del')
# the alternative texts of images are messages without markup
PLAIN = ['star', 'tick'] + ['code:' + k for k in (
    'first', 'last', 'both', 'one', 'double', 'runs', 'gap', 'only', 'markup',
    'pad')]


# md_ulb_pwrap may break lines inside these
UNWRAPPABLE = re.compile(
    r'code:(first|last|both|one|double|runs|gap|pad|only)|:amp:|:open|:bs$|uni|:nl$'
    r'|wiki:(case|text|sp|pre)')


def packed_jobs(chk, sk, small, deep, frac=(.5,), again=False,
                other=0, skip=()):
    """Documents with enumerated inline contents."""
    cs = [c for c in contents(chk, small, deep, skip) if expressible(c)]
    wrap = [c for c in cs if not any(map(UNWRAPPABLE.search, c))]
    out = []
    for part, ws in ((set(cs) - set(wrap), [0]), (wrap, [0, 40, 80])):
        out += [{'doc': d, 'seed': chk.rng.random(),
                 'frac': chk.rng.choice(frac),
                 'widths': [chk.rng.choice(ws)],
                 'opts': {'all': False}, 'again': again, 'other': other}
                for d in packed(chk, sorted(part), sk, strict=True)
                if docs.wellformed(docs.events(d))]
    return out


def lines_jobs(chk, small, deep, frac, skip=(), widths=None, **kw):
    """Documents of any lines that po2md can write."""
    return [dict({'doc': d, 'seed': chk.rng.random(),
                  'frac': chk.rng.choice(frac), 'opts': {},
                  'widths': widths(chk.rng) if widths else [
                      chk.rng.choice([0, 80])],
                  'other': chk.rng.choice([0, .5])}, **kw)
            for d in lines(chk, small, deep, po=True, skip=skip)]


def c05(chk):
    sk = structures(chk, chk.pick(900, 15000), chk.pick(700, 9000))
    jobs = jobs_for(chk, sk, frac=(.3, .6, 1))
    jobs += packed_jobs(chk, sk, chk.pick(3000, 9**9), chk.pick(1500, 30000),
                        (.3, .6, 1), other=.2)
    # contexts, and translations for other ones
    jobs += jobs_for(chk, [t for t in sk if 'cmd' in t and not
                           {'cf', 'ci'} & set(t)][:chk.pick(300, 3000)],
                     frac=(0, .3), commands=1, other=(.7, 1), density=.2,
                     names=CONTEXTS)
    jobs += lines_jobs(chk, chk.pick(2500, 9**9), chk.pick(2500, 30000),
                       (.3, .6, 1))
    run(chk, jobs, ['skel', 'refs'])


def c06(chk):
    sk = structures(chk, chk.pick(1500, 40000), chk.pick(900, 12000),
                    n=chk.pick(5, 6))
    run(chk, jobs_for(chk, sk, density=.15, frac=(0, .5, 1)) + lines_jobs(
        chk, chk.pick(3750, 9**9), chk.pick(3750, 40000), (0, .5, 1),
        skip=('next', 'attached')), ['shape'])
    from harness import html
    html.tools(chk, '{}')


def c07(chk):
    sk = structures(chk, chk.pick(900, 15000), chk.pick(700, 9000))
    jobs = jobs_for(chk, sk, frac=(0,), again=True, commands=.3)
    jobs += jobs_for(chk, sk[::2], frac=(.5,), again=True, commands=.3)
    jobs += packed_jobs(chk, sk, chk.pick(3000, 9**9), chk.pick(1500, 30000),
                        (0, 0, .5), again=True)
    jobs += lines_jobs(chk, chk.pick(2500, 9**9), chk.pick(2500, 30000), (0,),
                       again=True)
    run(chk, jobs, ['skel', 'refs', 'agree', 'again'])


def c11(chk):
    c11x(chk)
    sk = structures(chk, chk.pick(500, 6000), chk.pick(300, 4000))
    jobs = jobs_for(chk, sk, kinds=REFS, frac=(0, .5, 1))
    jobs += packed_jobs(chk, sk, chk.pick(1500, 9**9), chk.pick(800, 15000),
                        (0, .5, 1), skip=('codes', 'wikis', 'math', 'links'))
    jobs += lines_jobs(chk, chk.pick(1250, 9**9), chk.pick(1250, 20000),
                       (0, .5, 1), skip=('next', 'attached', 'heads'))
    run(chk, jobs, ['refs', 'skel'])


def c19(chk):
    sk = structures(chk, chk.pick(500, 6000), chk.pick(300, 4000))

    def widths(r):
        return [0, 10000, 80] + r.sample(range(10, 70), 3)
    jobs = jobs_for(chk, sk, frac=(0, .5), widths=widths)
    jobs += lines_jobs(chk, chk.pick(750, 9**9), chk.pick(1000, 10000), (0, .5),
                       skip=('next', 'attached'), widths=widths)
    run(chk, jobs, ['skel', 'refs'])
    # only paragraphs, headers and thematic breaks
    sk = [t for t in skeletons(chk, chk.pick(4, 5), 0, simple=True)
          if not {'cf', 'ci', 'html', 'tbl'} & set(t)]
    jobs = jobs_for(chk, chk.rng.sample(sk, chk.pick(200, 1200)), frac=(0, .5),
                    widths=widths, kinds=[
                        k for k in KINDS
                        if k not in ('code2', 'code3', 'esct')])
    for j in jobs:
        j['simple'] = True
    run(chk, jobs, ['skel', 'wrap'])
    # catalogs saved with each wrap width
    run_extraction(chk, [
        {'files': [('doc.md', j['doc'])], 'opts': j['opts'], 'old': [],
         'wrapwidth': w}
        for j in chk.rng.sample(jobs, chk.pick(60, 400))
        for w in [78, 0, 10000] + chk.rng.sample(range(10, 120), 2)],
        'catalog saved with a wrap width differs')
