"""C23-C25: paths to ignore, lookups of translations and values of the command
lines: replay of Paths, Lookup, Pairs and Widths."""
import contextlib
import fnmatch
import io
import os

from harness import tlc
from harness.core import clean_cwd, run_real


def batch(chk, cases, fn, min_cases=100):
    for c, (status, val) in zip(cases, run_real(fn, cases)):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'case': c})
        elif val:
            chk.violation(val.pop('clause'), {'case': c, **val})
    chk.traces += len(cases)
    for c in cases[:: max(1, len(cases) // 2)]:
        chk.sample(c)
    if len(cases) < min_cases:
        raise RuntimeError('vacuous run')


def put(path, content):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(content)


def cli(module, args):
    """Run a CLI in this process: exit code, stdout and stderr."""
    import importlib
    m = importlib.import_module(f'mdpo.{module}.__main__')
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = m.run(args)[1]
        except SystemExit as e:
            code = e.code
    return code, out.getvalue(), err.getvalue()


def matches(path, glob):
    p, g = path.split('/'), glob.split('/')
    return len(p) == len(g) and all(
        fnmatch.fnmatchcase(a, b) for a, b in zip(p, g))


def paths(case):
    import polib
    from mdpo.io import filter_paths
    from mdpo.md2po import Md2Po
    from mdpo.mdpo2html import MdPo2HTML
    from mdpo.po2md import Po2Md
    clean_cwd()
    files, ign = case['files'], case['ign']
    os.makedirs('b')
    want = sorted(case['kept'])
    got = filter_paths(list(files), ignore_paths=ign)
    if got != want:
        return {'clause': 'other paths filtered', 'expected': want,
                'observed': got}

    def msg(p):
        return 'message ' + p.replace('/', '-')
    for p in files:
        put(p, f'{msg(p)}\n')
    if files:
        got = [e.msgid for e in Md2Po(files, ignore=ign).extract()]
        if got != [msg(p) for p in want]:
            return {'clause': 'md2po processes other files',
                    'expected': [msg(p) for p in want], 'observed': got}
        got = [e.msgid for e in Md2Po(files + files[:2], ignore=ign).extract()]
        if got != [msg(p) for p in want]:
            return {'clause': 'md2po and files given twice',
                    'expected': [msg(p) for p in want], 'observed': got}
        pre = case['pre']
        for g in (pre + g for g in ('*/*.md', 'a/b/*', 'b/a/?.md', 'b/*.md')):
            if any(matches(p, g) for p in files):
                got = [e.msgid for e in Md2Po(g, ignore=ign).extract()]
                exp = [msg(p) for p in want if matches(p, g)]
                if got != exp:
                    return {'clause': 'md2po processes other files of a glob',
                            'glob': g, 'expected': exp, 'observed': got}
        if len(files) > 1:
            code, out, _ = cli('md2po', [*files, *sum(
                (['-i', i] for i in ign), [])])
            got = [e.msgid for e in polib.pofile(out)]
            if code != 0 or got != [msg(p) for p in want]:
                return {'clause': 'md2po CLI processes other files',
                        'expected': [msg(p) for p in want], 'observed': got}
    # the same tree, of PO files
    clean_cwd()
    for p in files:
        put(p, f'msgid ""\nmsgstr ""\n\nmsgid "m{msg(p)}"\nmsgstr "yes"\n')
    put('doc.md.in', ''.join(f'm{msg(p)}\n\n' for p in sorted(files)))
    exp = ['yes' if p in want else f'm{msg(p)}' for p in sorted(files)]
    got = Po2Md(list(files), ignore=ign).translate('doc.md.in').split('\n\n')
    if files and [g.strip() for g in got] != exp:
        return {'clause': 'po2md uses other PO files', 'expected': exp,
                'observed': got}
    html = ''.join(f'<p>m{msg(p)}</p>\n' for p in sorted(files))
    out = MdPo2HTML(list(files), ignore=ign).translate(html)
    if out != ''.join(f'<p>{e}</p>\n' for e in exp):
        return {'clause': 'mdpo2html uses other PO files', 'expected': exp,
                'observed': out}
    return None


def c23(chk):
    cases = []
    for t, i in [(chk.pick(30, 250), chk.pick(25, 150))]:
        r = tlc.run('Paths', dict(Trees=t, Ignores=i),
                    invariants=['Pointwise', 'Monotone', 'Emit'],
                    seed=chk.seed)
        chk.tlc(r)
        cases += r.records
    for c in cases:
        c['files'].sort()
        chk.rng.shuffle(c['files'])
    batch(chk, cases, paths)


def lookup(case):
    import polib
    from mdpo.mdpo2html import MdPo2HTML
    from mdpo.po2md import Po2Md
    clean_cwd()
    for f in case['files']:
        po = polib.POFile()
        for e in f['es']:
            po.append(polib.POEntry(msgid=e['id'], msgstr=e['str'],
                                    msgctxt=e['ctx'] or None,
                                    flags=['fuzzy'] if e['fuzzy'] else [],
                                    obsolete=e['obs']))
        put(f['name'], '')
        po.save(f['name'])
    md, html, want = '', '', []
    for m in case['want'] + case['want'][::-1]:
        if m['ctx']:
            md += f'<!-- mdpo-context {m["ctx"]} -->\n\n'
            html += f'<!-- mdpo-context {m["ctx"]} -->\n'
        md += m['id'] + '\n\n'
        html += f'<p>{m["id"]}</p>\n'
        want.append(m['str'])
    args = case['args'][0] if len(case['args']) == 1 else case['args']
    out = Po2Md(args, ignore=case['ign']).translate(md)
    if out.strip().split('\n\n') != want:
        return {'clause': 'po2md uses other translations', 'expected': want,
                'observed': out}
    out = MdPo2HTML(args, ignore=case['ign']).translate(html)
    got = [x[3:-4] for x in out.split('\n') if x.startswith('<p>')]
    if got != want:
        return {'clause': 'mdpo2html uses other translations',
                'expected': want, 'observed': out}
    # the command lines
    put('doc.md', md)
    put('doc.html', html)
    extra = sum((['-i', i] for i in case['ign']), [])
    for style in (['-p', *case['args']],
                  sum((['-p', a] for a in case['args']), [])):
        for tool, doc, exp in (('po2md', 'doc.md', '\n\n'.join(want)),
                               ('mdpo2html', 'doc.html', out)):
            code, got, err = cli(tool, [doc, *style, *extra])
            if code != 0 or got.strip() != exp.strip():
                return {'clause': f'{tool} CLI uses other translations',
                        'args': style, 'expected': exp, 'observed': got,
                        'stderr': err}
    return None


def c24(chk):
    cases = []
    for n, size in ((1, chk.pick(200, 4000)), (2, chk.pick(300, 4000)),
                    (3, chk.pick(300, 4000))):
        r = tlc.run('Lookup', dict(NFiles=n, Size=size),
                    invariants=['LastWins', 'Ignoring', 'Emit'],
                    seed=chk.seed + n)
        chk.tlc(r)
        limit = chk.pick(900, 12000)
        cases += r.records if len(r.records) < limit else chk.rng.sample(
            r.records, limit)
    batch(chk, cases, lookup)


def pair(case):
    import mdpo.cli as mcli
    from mdpo.text import parse_escaped_pair
    text, ok = case['text'], case['ok']
    want = (case['key'], case['value'])
    try:
        got = tuple(parse_escaped_pair(text))
    except ValueError:
        got = None
    if got != (want if ok else None):
        return {'clause': 'pair parsed otherwise',
                'expected': want if ok else 'ValueError', 'observed': got}
    for fn in (mcli.parse_command_aliases_cli_arguments,
               mcli.parse_metadata_cli_arguments):
        # alone, after another one and repeated
        for args, exp in (([text], {want[0]: want[1]} if ok else None),
                          (['zz:y', text], {'zz': 'y', want[0]: want[1]}
                           if ok else None),
                          ([text, 'zz:y', text], None)):
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                try:
                    got = fn(args)
                except SystemExit as e:
                    got = None
                    if e.code != 1 or not err.getvalue():
                        return {'clause': 'wrong exit of an invalid pair',
                                'code': e.code}
            if got != exp:
                return {'clause': 'arguments parsed otherwise', 'args': args,
                        'expected': exp, 'observed': got}
    if not ok or not want[0].strip() or ' ' in want[0] or '\\' in want[0]:
        return None
    # an alias with that name works from the command line
    key = want[0]
    cut = text[:len(text) - len(want[1])] if want[1] else text
    clean_cwd()
    put('a.md', f'x\n\n<!-- {key} k -->\n\ny\n')
    code, out, err = cli('md2po', ['a.md', '--no-location', '--command-alias',
                                   cut + 'context'])
    if code != 0 or 'msgctxt "k"\nmsgid "y"' not in out:
        return {'clause': 'alias given to the CLI is not used', 'alias': cut
                + 'context', 'output': out, 'stderr': err}
    return None


def width(case):
    import polib
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md
    from mdpo.text import INFINITE_WRAPWIDTH, parse_wrapwidth_argument
    clean_cwd()
    text, ok = case['text'], case['ok']
    want = case['width'] or INFINITE_WRAPWIDTH
    try:
        got = parse_wrapwidth_argument(text)
    except ValueError:
        got = None
    if got != (want if ok else None):
        return {'clause': 'wrap width parsed otherwise', 'text': text,
                'expected': want if ok else 'ValueError', 'observed': got}
    doc = ' '.join(f'word{i}' for i in range(40)) + '\n'
    put('a.md', doc)
    polib.POFile().save('e.po')
    for tool, args in (('po2md', ['a.md', '-p', 'e.po']),
                       ('md2po', ['a.md', '--no-location'])):
        for opt in ('--wrapwidth=', '-w'):
            if opt == '-w' and text.startswith('-') or not text:
                continue
            if tool == 'md2po' and want < 3:
                continue  # (polib can not wrap)
            code, out, err = cli(tool, [*args, opt + text])
            if not ok:
                if code != 1 or 'wrapwidth' not in err:
                    return {'clause': f'{tool} accepts an invalid wrap width',
                            'text': text, 'code': code, 'stderr': err}
                continue
            if tool == 'po2md':
                exp = Po2Md('e.po', wrapwidth=want).translate('a.md') + '\n'
            else:
                exp = Md2Po(['a.md'], location=False).extract(
                    wrapwidth=want).__unicode__() + '\n'
            if code != 0 or out != exp:
                return {'clause': f'{tool} wraps with another width',
                        'text': text, 'code': code, 'expected': exp,
                        'observed': out, 'stderr': err}
            lines = [x for x in out.split('\n') if 'word' in x]
            if (len(lines) == 1) != (want > len(doc) + 10):
                return {'clause': f'{tool} does not wrap', 'text': text,
                        'observed': out}
    return None


def c25(chk):
    r = tlc.run('Pairs', dict(MaxLen=chk.pick(5, 8)),
                invariants=['Split', 'Emit'])
    chk.tlc(r)
    cases = r.records
    limit = chk.pick(4000, 120000)
    if len(cases) > limit:
        cases = chk.rng.sample(cases, limit)
    batch(chk, cases, pair)
    r = tlc.run('Widths', invariants=['Emit'])
    chk.tlc(r)
    batch(chk, r.records, width)
