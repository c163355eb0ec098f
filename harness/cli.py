"""C14, C15: replay of Cli.tla and Options.tla on the command lines."""
import concurrent.futures
import os
import re
import subprocess
import sys

from harness import tlc
from harness.core import REPO_SRC, clean_cwd
from harness.values import batch, cli, put

WORDS = {'o': 'obsolete', 'f': 'fuzzy', 'e': 'empty msgstr'}
STARTS = {'o': (b'#~ ',), 'f': (b'#,',), 'e': (b'msgstr ""', b'#~ msgstr ""')}


def process(module, args):
    """Run a CLI in another process."""
    p = subprocess.run(
        [sys.executable, '-m', f'mdpo.{module}', *args], capture_output=True,
        stdin=subprocess.DEVNULL,
        env=dict(os.environ, PYTHONPATH=REPO_SRC, PYTHONIOENCODING='utf-8',
                 PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout.decode(), p.stderr.decode()


def entries(po):
    return [{'ctx': e.msgctxt or '', 'id': e.msgid, 'str': e.msgstr,
             'fuzzy': 'fuzzy' in e.flags, 'obs': e.obsolete} for e in po]


def snapshot():
    out = {}
    for n in sorted(os.listdir('.')):
        with open(n, 'rb') as f:
            out[n] = f.read()
    return out


def locations(err, no, n, files):
    """The lines of stderr report as many entries as the model says, and each
    location is a line of a file which shows it."""
    at = [m for m in (re.search(r'(\S+\.po):(\d+)$', x)
                      for x in err.splitlines()) if m]
    want = sum(n[k] for k in no)
    if len(at) != want:
        return f'{want} locations expected on stderr'
    seen = set()
    for m in at:
        line = files[m[1]].split(b'\n')[int(m[2]) - 1]
        kinds = [k for k in no if line.startswith(STARTS[k])]
        if not kinds:
            return f'{m[0]}: this line is not of an offending entry'
        seen.add((m[0], kinds[0]))
    for k in no:
        if n[k] and WORDS[k] not in err:
            return f'no {WORDS[k]} entries reported'
    return None


def touch(path, lay):
    """Change the layout of a file (never its lines of translations)."""
    with open(path, encoding='utf-8') as f:
        text = f.read()
    blocks = text.strip('\n').split('\n\n')
    if lay == 1:
        new = text + '\n'
    elif lay == 2 and len(blocks) > 1 and path.endswith('.md'):
        new = '\n\n'.join(blocks[::-1]) + '\n'
    elif lay == 2 and path.endswith('.html'):
        new = ''.join(text.splitlines(True)[::-1])
    elif lay == 3:
        new = text.replace('\n\n', '\n\n\n') if path.endswith('.po') \
            else text.replace('\n', '\n\n')
    else:
        new = text.rstrip('\n')
    put(path, new if new != text else text + '\n')


def history(case):
    import polib
    clean_cwd()
    run = process if case.get('process') else cli

    def write_doc(ids):
        put('doc.md', '\n\n'.join(ids) + '\n')
        put('doc.html', ''.join(f'<p>{i}</p>\n' for i in ids))
    write_doc(case['doc'])
    po = polib.POFile()
    for e in case['aux']:
        po.append(polib.POEntry(
            msgid=e['id'], msgstr=e['str'], obsolete=e['obs'],
            flags=['fuzzy'] if e['fuzzy'] else []))
    po.save('p2.po')
    for step, h in enumerate(case['hist']):
        op = h['op']
        if op == 'edit':
            write_doc(h['doc'])
            continue
        if op == 'write':
            po = polib.pofile('p1.po')
            for e, w in zip(po, h['cat']):
                e.msgstr = w['str']
                e.flags = ['fuzzy'] if w['fuzzy'] else []
            po.save('p1.po')
            continue
        if op == 'import':
            po = polib.POFile()
            for w in h['cat']:
                po.append(polib.POEntry(
                    msgid=w['id'], msgstr=w['str'], obsolete=w['obs'],
                    flags=['fuzzy'] if w['fuzzy'] else []))
            po.save('p1.po')
            with open('p1.po', 'a') as f:
                f.write('\n')
            continue
        if op == 'format':
            touch({'po': 'p1.po'}.get(h['file'], 'out.' + h['file']),
                  h['lay'])
            continue
        bad = {'step': step, 'op': h}
        args = sum((['--' + {'o': 'no-obsolete', 'f': 'no-fuzzy',
                             'e': 'no-empty-msgstr'}[k]] for k in h['no']), [])
        args += ['--check'] * h['check'] + ['--quiet'] * h['quiet']
        if op == 'md2po':
            args = ['doc.md', '-p', 'p1.po', '--no-location', *args]
            args += ['--save'] * h['save']
            args += {'default': [], 'merge': ['--merge-pofiles'],
                     'remove': ['--remove-not-found', '--merge-pofiles']}[
                         h['mode']]
            target = 'p1.po'
        else:
            src = 'doc.md' if op == 'po2md' else 'doc.html'
            target = 'out.md' if op == 'po2md' else 'out.html'
            args = [src, '-p', 'p?.po' if h['both'] else 'p1.po', *args]
            args += ['--save', target] if h['save'] else []
        before = snapshot()
        code, out, err = run(op, args)
        after = snapshot()
        bad.update(args=args, stdout=out, stderr=err, exit=code)
        if code != h['exit']:
            return {'clause': f'exit code {code} instead of {h["exit"]}',
                    **bad}
        why = locations(err, h['no'], h['n'], after)
        if why:
            return {'clause': f'wrong locations: {why}', **bad}
        for n in set(before) | set(after):
            if before.get(n) != after.get(n) and not (
                    h['save'] and n == target):
                return {'clause': f'file {n} written without being asked',
                        **bad}
        if h['save'] and target not in after:
            return {'clause': 'file not saved', **bad}
        texts = [after[target].decode()] if h['save'] else []
        if h['printed']:
            if not out.endswith('\n'):
                return {'clause': 'nothing printed', **bad}
            texts.append(out[:-1])
        elif out:
            return {'clause': 'printed without being asked', **bad}
        for t in texts:
            if op == 'md2po':
                got, want = entries(polib.pofile(t)), h['cat']
            elif op == 'po2md':
                got, want = t, '\n\n'.join(h['out']) + '\n' * bool(h['out'])
            else:
                got, want = t, ''.join(f'<p>{x}</p>\n' for x in h['out'])
            if got != want:
                return {'clause': 'other contents', 'expected': want,
                        'observed': got, **bad}
        if len(texts) == 2 and texts[0] != texts[1]:
            return {'clause': 'what is printed is not what is saved',
                    'saved': texts[0], **bad}
    return None


def histories(chk, n, steps):
    r = tlc.run('Cli', dict(Steps=steps),
                invariants=['ExitOK', 'Settled', 'Emit'],
                properties=['Frame'], simulate=(n, steps + 1), seed=chk.seed)
    chk.tlc(r)
    seen, cases = {}, []
    for c in r.records:
        k = str((c['doc'], c['aux'], c['hist'][:-1]))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            cases.append(c)
    for c in chk.rng.sample(cases, min(len(cases), chk.pick(12, 100))):
        cases.append({**c, 'process': True})
    return cases


def c14(chk):
    cases = histories(chk, chk.pick(250, 4000), 7)
    cases += histories(chk, chk.pick(120, 2500), 14)
    batch(chk, cases, history)
    chk.extra['runs_of_the_command_lines'] = sum(
        'exit' in h for c in cases for h in c['hist'])
    codes = [h.get('exit') for c in cases for h in c['hist']]
    chk.extra['exit_codes_expected'] = {
        str(k): codes.count(k) for k in (0, 2, 3, 4, 5)}


# ---------------------------------------------------------------------------
# C15

LONG = ('this sentence is long enough to be wrapped at every one of the widths '
        'tried because it goes on and on up to here')
LARGO = 'esta frase es bastante larga como para partirse en todos los anchos, ' \
        'y sigue y sigue hasta que termina por aquí'
DOC = f'''    indented = 1

# Title *em*

| T |
| --- |
| cell |

<!-- ctxalias k -->

aliased text

```
code = 1
```

ignored message

evented

ñandú text

{LONG}

~~strike~~
'''
EVENTS = '''
def msgid(self, msgid, *args, **kwargs):
    if msgid == 'evented':
        return False


def command(self, name, *args):
    return False
'''
HANDLERS = {}
exec(EVENTS, HANDLERS)


def save_po(path, encoding, pairs, header=True):
    import polib
    po = polib.POFile(encoding=encoding)
    if header:
        po.metadata = {'Content-Type': f'text/plain; charset={encoding}'}
    for ctx, i, s in pairs:
        po.append(polib.POEntry(msgid=i, msgstr=s, msgctxt=ctx or None))
    po.save(path)


def chosen(rng, *forms):
    return list(rng.choice(forms))


def md2po_options(case, rng):
    """Arguments of the command line and of the API for a set of options."""
    o = case['o']
    files = {'files': ['doc.md', 'other.md'], 'file': ['doc.md']}.get(
        o['input'])
    args = [] if o['input'] == 'stdin' else files or [DOC]
    opts = [chosen(rng, ['-p', 'p.po'], ['--po-filepath', 'p.po'],
                   ['--pofilepath=p.po'])]
    init, extract = {'location': o['loc']}, {'po_filepath': 'p.po'}
    if o['ignore']:
        opts.append(chosen(rng, ['-i', 'other.md'], ['--ignore', 'other.md']))
        init['ignore'] = ['other.md']
    for f, k in (('plain', 'plaintext'), ('codes', 'include_codeblocks'),
                 ('xheader', 'xheader'), ('debug', 'debug')):
        if o[f]:
            init[k] = True
            opts.append(chosen(rng, *{
                'plain': [['--plaintext']],
                'codes': [['-c'], ['--include-codeblocks']],
                'xheader': [['-a'], ['--xheader']],
                'debug': [['-D'], ['--debug']]}[f]))
    if not o['loc']:
        opts.append(chosen(rng, ['--no-location'], ['--nolocation']))
    if o['mode'] in ('merge', 'both'):
        init['mark_not_found_as_obsolete'] = False
        opts.append(chosen(rng, ['-m'], ['--merge-po-files'],
                           ['--merge-pofiles']))
    if o['mode'] in ('remove', 'both'):
        init['preserve_not_found'] = False
        opts.append(chosen(rng, ['-r'], ['--remove-not-found']))
    if o['meta']:
        opts += [['-d', 'Language: es'], ['--metadata', 'X-Key: a:b']]
        init['metadata'] = {'Language': 'es', 'X-Key': 'a:b'}
    if o['alias']:
        opts.append(['--command-alias', chosen(
            rng, ['ctxalias:mdpo-context'], ['ctxalias:context'])[0]])
        init['command_aliases'] = {'ctxalias': 'mdpo-context'}
    if o['ext'] != 'default':
        x = {'tables': 'tables', 'strike': 'strikethrough'}[o['ext']]
        opts.append(chosen(rng, ['-x', x], ['--extension', x], ['--ext', x]))
        init['extensions'] = [x]
    if o['ignids']:
        opts.append(['--ignore-msgids', 'ignored.txt'])
        init['ignore_msgids'] = ['foo', 'ignored message']
    if o['event']:
        opts.append(chosen(rng, ['-e', 'msgid: ev.py::msgid'],
                           ['--event', 'msgid:ev.py::msgid']))
        init['events'] = {'msgid': HANDLERS['msgid']}
    if o['mdenc'] != 'utf-8':
        opts.append(['--md-encoding', o['mdenc']])
        extract['md_encoding'] = o['mdenc']
    if o['poenc']:
        opts.append(['--po-encoding', o['poenc']])
        extract['po_encoding'] = o['poenc']
    if o['width'] != 78:
        w = chosen(rng, *([['0'], ['inf'], ['-1']] if not o['width']
                          else [['40']]))[0]
        opts.append(chosen(rng, ['-w', w], ['--wrapwidth', w]))
        opts[-1] = [f'{opts[-1][0]}={w}'] if w == '-1' and len(
            opts[-1][0]) > 2 else opts[-1]
        extract['wrapwidth'] = w
        if w == '-1' and len(opts[-1]) == 2:
            opts[-1] = ['-w-1']
    if o['mo']:
        opts.append(chosen(rng, ['--mo-filepath', 'p.mo'],
                           ['--mofilepath', 'p.mo']))
        extract['mo_filepath'] = 'p.mo'
    if o['save']:
        opts.append(chosen(rng, ['-s'], ['--save']))
        extract['save'] = True
    return args, opts, (files or DOC), init, extract


def shared(o, rng):
    opts = []
    if o['quiet']:
        opts.append(chosen(rng, ['-q'], ['--quiet']))
    if o['check']:
        opts.append(['--check'])
    return opts


def md2po_project(o, header=True):
    clean_cwd()
    e = o['mdenc']
    for name, text in (('doc.md', DOC), ('other.md', 'other text\n')):
        with open(name, 'w', encoding=e, newline='') as f:
            f.write(text)
    put('ignored.txt', 'foo\nignored message\n')
    put('ev.py', EVENTS)
    save_po('p.po', o['poenc'] or 'utf-8', [
        ('', 'old message', 'mensaje viejo'),
        ('', 'ñandú text', 'texto ñandú')], header)


def run_cli(case, module, args):
    """In this process, or in another one with what is to be read there."""
    if not case.get('process'):
        return cli(module, args)
    p = subprocess.run(
        [sys.executable, '-m', f'mdpo.{module}', *args], capture_output=True,
        input=case.get('stdin', '').encode(),
        env=dict(os.environ, PYTHONPATH=REPO_SRC, PYTHONIOENCODING='utf-8',
                 PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout.decode(), p.stderr.decode()


def shuffled(rng, args, opts):
    """The same arguments in another order."""
    rng.shuffle(opts)
    at = rng.randrange(len(opts) + 1)
    # nargs='*' options take what follows them
    while at and any(x in ('--po-files', '--pofiles', '-p')
                     for x in opts[at - 1]) and args:
        at -= 1
    return sum(opts[:at], []) + args + sum(opts[at:], [])


def md2po_case(case):
    import random

    import polib
    from mdpo.md2po import Md2Po
    o, r = case['o'], case['r']
    rng = random.Random(case['seed'])
    args, opts, src, init, extract = md2po_options(case, rng)
    opts += shared(o, rng)
    md2po_project(o, not (o['poenc'] and case['seed'] % 2))
    if o['target'] != 'base':
        quiet = {k: v for k, v in init.items() if k != 'debug'}
        Md2Po(src, **quiet).extract(**{**extract, 'save': True})
        if o['target'] == 'trailing':
            with open('p.po', 'a') as f:
                f.write('\n')
        if os.path.exists('p.mo'):
            os.remove('p.mo')
    with open('p.po', 'rb') as f:
        before = f.read()
    if o['input'] == 'stdin':
        case = {**case, 'process': True, 'stdin': DOC}
    argv = shuffled(rng, args, opts)
    code, out, err = run_cli(case, 'md2po', argv)
    bad = {'args': argv, 'stdout': out[-3000:], 'stderr': err[-2000:]}
    with open('p.po', 'rb') as f:
        after = f.read()
    if code != r['exit']:
        return {'clause': f'exit code {code} instead of {r["exit"]}', **bad}
    if not r['saved'] and after != before:
        return {'clause': 'saved without being asked', **bad}
    enc = o['poenc'] or 'utf-8'
    with_debug = bool(re.match(r'(md2po|po2md)\[DEBUG\]::', out))
    if with_debug != r['debug']:
        return {'clause': 'debug lines are printed if and only if they are '
                          'asked', **bad}
    if with_debug:
        # the result goes after the debug lines
        out = out[out.index('#\nmsgid ""\n', 0)
                  if '#\nmsgid ""\n' in out else len(out):]
    if bool(out) != r['printed']:
        return {'clause': 'printed if and only if not quiet', **bad}
    texts = ([out[:-1]] if r['printed'] else []) \
        + ([after.decode(enc)] if r['saved'] else [])
    if len(texts) == 2 and texts[0] != texts[1]:
        return {'clause': 'what is printed is not what is saved',
                'saved': texts[1], **bad}
    # the API with the same options
    md2po_project(o, not (o['poenc'] and case['seed'] % 2))
    if o['target'] != 'base':
        with open('p.po', 'wb') as f:
            f.write(before)
    init.pop('debug', 0)
    api = Md2Po(src, **init).extract(**{**extract, 'save': False,
                                        'mo_filepath': None})
    for t in texts:
        if t != str(api.__unicode__()):
            return {'clause': 'not what the API returns', 'observed': t,
                    'api': api.__unicode__(), **bad}
        po = polib.pofile(t)

        def pairs(es):
            return [{'ctx': e.msgctxt or '', 'id': 'long' if e.msgid == LONG
                     else e.msgid} for e in es]
        live = pairs(e for e in po if not e.obsolete)
        obs = pairs(e for e in po if e.obsolete)
        if live != r['live'] and o['target'] == 'base' or sorted(
                map(str, live)) != sorted(map(str, r['live'])):
            return {'clause': 'other messages', 'expected': r['live'],
                    'observed': live, **bad}
        if obs != r['obs']:
            return {'clause': 'other obsolete messages', 'expected': r['obs'],
                    'observed': obs, **bad}
        for e in po:
            new = e.msgid not in ('old message', 'ñandú text')
            if new and bool(e.occurrences) != r['located']:
                return {'clause': 'locations', 'observed': str(e), **bad}
            if e.msgstr != {'old message': 'mensaje viejo',
                            'ñandú text': 'texto ñandú'}.get(e.msgid, ''):
                return {'clause': 'translations', 'observed': str(e), **bad}
        if r['xgen'] != ('mdpo v' in po.metadata.get('X-Generator', '')):
            return {'clause': 'X-Generator header', 'observed': t, **bad}
        for k, v in (('Language', 'es'), ('X-Key', 'a:b')):
            if (po.metadata.get(k) == v) != r['meta']:
                return {'clause': 'metadata', 'observed': t, **bad}
        lines = t.split('\n')
        if r['oneline'] != (f'msgid "{LONG}"' in lines):
            return {'clause': 'width', 'observed': t, **bad}
        if not r['oneline'] and max(map(len, (
                x for x in lines if x[:1] == '"'
                and not x.endswith('\\n"')))) > o['width']:
            return {'clause': 'width', 'observed': t, **bad}
    return None


def md2po_mo(case):
    """The MO file has what is translated."""
    import random

    import polib
    o, r = case['o'], case['r']
    rng = random.Random(case['seed'])
    args, opts, _, _, _ = md2po_options(case, rng)
    md2po_project(o, not (o['poenc'] and case['seed'] % 2))
    if o['input'] == 'stdin':
        case = {**case, 'process': True, 'stdin': DOC}
    argv = shuffled(rng, args, opts + shared(o, rng))
    run_cli(case, 'md2po', argv)
    if not o['mo']:
        return {'clause': 'MO file not asked', 'args': argv} \
            if os.path.exists('p.mo') else None
    got = sorted(e.msgid for e in polib.mofile(
        'p.mo', encoding=o['poenc'] or 'utf-8'))
    want = sorted(e['id'] for e in r['mo'])
    if got != want:
        return {'clause': 'contents of the MO file', 'args': argv,
                'expected': want, 'observed': got}
    return None


MD = ('first', 'second', 'third ñ', LONG)
TR_MD = ('<!-- ctxalias k -->\n\n'.join(
    ('first\n\n', f'second\n\nthird ñ\n\n{LONG}\n')))
TR_HTML = ('<p>first</p>\n<!-- ctxalias k -->\n<p>second</p>\n'
           f'<p>third ñ</p>\n<p>{LONG}</p>\n')


def translation_case(case):
    import random

    from mdpo.mdpo2html import MdPo2HTML
    from mdpo.po2md import Po2Md
    o, r, tool = case['o'], case['r'], case['tool']
    html = tool == 'mdpo2html'
    rng = random.Random(case['seed'])
    text, src, target = (TR_HTML, 'doc.html', 'out.html') if html else (
        TR_MD, 'doc.md', 'out.md')
    clean_cwd()
    with open(src, 'w', encoding=o['mdenc'], newline='') as f:
        f.write(text)
    put('ev.py', EVENTS)
    enc = o['poenc'] or 'utf-8'
    save_po('a.po', enc, [('', 'first', 'uno'), ('', 'second', 'dos'),
                          ('k', 'second', 'dos k'), ('', LONG, LARGO)])
    save_po('b.po', enc, [('', 'first', 'UNO'), ('', 'third ñ', 'tres ñ')])
    if o['ignore']:
        save_po('c.po', enc, [('', 'third ñ', 'tres ñ')])
    pos = ['a.po', 'b.po'] + ['c.po'] * o['ignore']
    opts = {'glob': [chosen(rng, ['-p', '*.po'], ['--po-files', '*.po'],
                            ['--pofiles=*.po'])],
            'list': [['-p', *pos]],
            'many': [['-p', x] for x in pos]}[o['pos']]
    init = {'po_encoding': o['poenc'] or None}
    if o['ignore']:
        opts.append(chosen(rng, ['-i', 'b.po'], ['--ignore', 'b.po']))
        init['ignore'] = ['b.po']
    if o['alias']:
        opts.append(['--command-alias', 'ctxalias:context'])
        init['command_aliases'] = {'ctxalias': 'context'}
    if o['poenc']:
        opts.append(['--po-encoding', o['poenc']])
    kind = 'html' if html else 'md'
    if o['mdenc'] != 'utf-8':
        opts.append([f'--{kind}-encoding', o['mdenc']])
    if not html:
        if o['event']:
            opts.append(chosen(rng, ['-e', 'command: ev.py::command'],
                               ['--event', 'command:ev.py::command']))
            init['events'] = {'command': HANDLERS['command']}
        if o['width'] != 80:
            w = chosen(rng, *([['0'], ['inf']] if not o['width']
                              else [['30']]))[0]
            opts.append(chosen(rng, ['-w', w], ['--wrapwidth', w]))
            init['wrapwidth'] = w
        if o['debug']:
            opts.append(chosen(rng, ['-D'], ['--debug']))
    if o['save']:
        opts.append(chosen(rng, ['-s', target], ['--save', target]))
    opts += shared(o, rng)
    cls = MdPo2HTML if html else Po2Md
    # what is read from the standard input loses its newlines at both ends
    content = {'content': text, 'stdin': text.strip('\n'), 'file': src}[
        o['input']]
    api = cls(pos if o['pos'] != 'glob' else '*.po', **init).translate(
        content, **{f'{kind}_encoding': o['mdenc']})
    out = [LARGO if x == 'long' else x for x in r['out']]
    if html:
        flat, want = api, '\n'.join(f'<p>{x}</p>' for x in out) + '\n'
        if not o['alias']:
            want = want.replace('</p>\n', '</p>\n<!-- ctxalias k -->\n', 1)
        flat, want = (x.replace('>\n<', '><').strip('\n')
                      for x in (flat, want))
    else:
        paragraphs = api.split('\n\n')
        if r['oneline'] != (LARGO + '\n' in paragraphs):
            if o['width'] or not r['oneline']:
                return {'clause': 'width', 'observed': api}
        if o['width'] and max(map(len, paragraphs[-1].split('\n'))) > \
                o['width']:
            return {'clause': 'width', 'observed': api}
        flat = '\n\n'.join(' '.join(p.split('\n')).strip(' ')
                           for p in paragraphs)
        want = '\n\n'.join(out)
    if flat != want:
        return {'clause': 'API: other contents', 'expected': want,
                'observed': flat, 'init': str(init), 'opts': opts}
    if o['target'] != 'none':
        with open(target, 'w', encoding=o['mdenc'], newline='') as f:
            f.write({'same': api, 'trailing': api + '\n',
                     'stale': 'stale\n'}[o['target']])
    before = snapshot()
    args = [] if o['input'] == 'stdin' else [content]
    if o['input'] == 'stdin':
        case = {**case, 'process': True, 'stdin': text}
    # in any order, but the one of the PO files
    first = [x for x in opts if 'p' in x[0].split('-')[1:2] or '--po' in x[0]
             and '--po-encoding' not in x[0]]
    opts = [x for x in opts if x not in first]
    rng.shuffle(opts)
    at = rng.randrange(len(opts) + 1)
    argv = args + sum(opts[:at] + first + opts[at:], [])
    code, stdout, err = run_cli(case, tool, argv)
    after = snapshot()
    bad = {'args': argv, 'stdout': stdout[-3000:], 'stderr': err[-2000:]}
    if code != r['exit']:
        return {'clause': f'exit code {code} instead of {r["exit"]}', **bad}
    for n in set(before) | set(after):
        if before.get(n) != after.get(n) and not (o['save'] and n == target):
            return {'clause': f'file {n} written without being asked', **bad}
    if not html:
        if bool(re.match(r'po2md\[DEBUG\]::', stdout)) != o['debug']:
            return {'clause': 'debug lines are printed if and only if they '
                              'are asked', **bad}
        stdout = re.sub(r'po2md\[DEBUG\]::([^\n]*::text:: \n\n|[^\n]*\n)',
                        '', stdout)
    if r['printed'] != bool(stdout):
        return {'clause': 'printed if and only if not quiet nor saving', **bad}
    if r['printed'] and stdout != api + '\n':
        return {'clause': 'what is printed is not what the API returns',
                'api': api, **bad}
    if r['saved'] and after.get(target, b'').decode(o['mdenc']) != api:
        return {'clause': 'what is saved is not what the API returns',
                'api': api, **bad}
    return None


def c15_case(case):
    if case['tool'] == 'md2po':
        return md2po_case(case) or md2po_mo(case)
    return translation_case(case)


def c15(chk):
    cases = []
    for tool, n in (('md2po', chk.pick(130, 900)), ('po2md', chk.pick(100, 700)),
                    ('mdpo2html', chk.pick(80, 500))):
        r = tlc.run('Options', dict(Tool=f'"{tool}"', Size=n),
                    invariants=['Independent', 'Emit'], seed=chk.seed)
        chk.tlc(r)
        for c in r.records:
            # reading the standard input needs another process: some of them
            if c['o']['input'] == 'stdin' and chk.rng.random() > .25:
                continue
            cases.append({**c, 'tool': tool, 'seed': chk.rng.randrange(9999)})
    for c in chk.rng.sample(cases, chk.pick(15, 150)):
        c['process'] = True
    batch(chk, cases, c15_case)


# ---------------------------------------------------------------------------
# C17

TAIL = f'''
| T |
| --- |
| cell |

<!-- ctxalias k -->

aliased

```
code = 1
```

{LONG}
'''


def doc_text(msgs, opt):
    out = []
    for m in msgs:
        if m['ctx']:
            out.append(f'<!-- mdpo-context {m["ctx"]} -->')
        out.append(('## ' if m['id'] == 'm2' else '') + m['id'] + ' ñ')
    return '\n\n'.join(out) + '\n' + (TAIL if opt['rich'] else '')


def tree(root='.'):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.relpath(os.path.join(d, f), root)
            with open(os.path.join(d, f), 'rb') as f:
                out[p] = f.read()
    return out


def real_text(x):
    """Texts of the messages of the model and of their translations."""
    return LONG if x == 'long' else LARGO if x.endswith('long') else \
        x + ' ñ' if re.fullmatch(r'(t.+)?m\d', x) else x


def project_options(opt, step, rng):
    """The options for the command line and for the API."""
    args, kw = [], {}
    if opt['codes']:
        args.append(chosen(rng, ['-c'], ['--include-codeblocks']))
        kw['include_codeblocks'] = True
    if opt['alias']:
        args.append(['--command-alias', 'ctxalias:context'])
        kw['command_aliases'] = {'ctxalias': 'context'}
    if opt['ext'] == 'strike':
        args.append(chosen(rng, ['-x', 'strikethrough'],
                           ['--extension', 'strikethrough']))
        kw['extensions'] = ['strikethrough']
    if not opt['loc']:
        args.append(['--no-location'])
        kw['location'] = False
    for k, flag, default in (('pow', 'po', 78), ('mdw', 'md', 80)):
        if opt[k] != default:
            args.append([f'--{flag}-wrapwidth', str(opt[k])])
            kw[f'{flag}_wrapwidth'] = opt[k]
        enc = opt[flag + 'enc']
        if enc:
            args.append([f'--{flag}-encoding', enc])
            kw[f'{flag}_encoding'] = enc
    if opt['debug']:
        args.append(['--debug'])
        kw['debug'] = True
    if step['check']:
        args.append(['--check'])
        kw['_check_saved_files_changed'] = True
    for k in step['no']:
        flag = {'o': 'no-obsolete', 'f': 'no-fuzzy', 'e': 'no-empty-msgstr'}[k]
        args.append(['--' + flag])
        kw[flag.replace('-', '_')] = True
    rng.shuffle(args)
    return args, kw


def compose(sources, h, opt, before):
    """What md2po and po2md give, alone, for each language and file."""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md
    ekw = {'extensions': ['strikethrough']} if opt['ext'] == 'strike' else {}
    if opt['alias']:
        ekw['command_aliases'] = {'ctxalias': 'mdpo-context'}
    out = {}
    mode = {'default': {}, 'merge': {'mark_not_found_as_obsolete': False},
            'remove': {'preserve_not_found': False}}[h['mode']]
    root = os.getcwd()
    for y in h['outs']:
        clean_cwd()
        with_dirs = os.path.dirname(y['f'])
        if with_dirs:
            os.makedirs(with_dirs)
        with open(y['f'], 'wb') as f:
            f.write(sources[y['f']])
        if y['po'] in before:
            with open('some.po', 'wb') as f:
                f.write(before[y['po']])
        source = os.path.join(root, y['f']) if opt['abs'] else y['f']
        Md2Po([source], location=opt['loc'], include_codeblocks=opt['codes'],
              **ekw, **mode).extract(
            po_filepath='some.po', save=True, wrapwidth=opt['pow'],
            md_encoding=opt['mdenc'] or 'utf-8',
            po_encoding=opt['poenc'] or None)
        Po2Md(['some.po'], wrapwidth=opt['mdw'],
              po_encoding=opt['poenc'] or None, **ekw).translate(
            y['f'], save='some.out', md_encoding=opt['mdenc'] or 'utf-8')
        for k, p in (('po', 'some.po'), ('md', 'some.out')):
            with open(p, 'rb') as f:
                out[y[k]] = f.read()
    return out


def put_tree(files):
    clean_cwd()
    for p, content in files.items():
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(content)


def in_process(module, args):
    """As ``cli``, of a command line which only returns its exit code."""
    import contextlib
    import importlib
    import io
    m = importlib.import_module(f'mdpo.{module}.__main__')
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = m.run(args)
        except SystemExit as e:
            code = e.code
        except (ValueError, FileNotFoundError) as e:
            code = type(e).__name__
    return code, out.getvalue(), err.getvalue()


def c17_case(case):
    import contextlib
    import io
    import random

    import polib
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    opt, sch = case['opt'], case['sch']
    rng = random.Random(case['seed'])
    clean_cwd()
    root = os.getcwd()
    poenc, mdenc = opt['poenc'] or 'utf-8', opt['mdenc'] or 'utf-8'

    def path(p):
        return os.path.join(root, p) if opt['abs'] else p

    def write(p, text, enc):
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding=enc, newline='') as f:
            f.write(text)
    for step, h in enumerate(case['hist']):
        bad = {'step': step, 'op': h, 'options': opt, 'schema': sch}
        if h['op'] == 'init':
            for d in h['docs']:
                write(d['f'], doc_text(d['doc'], opt), mdenc)
            continue
        if h['op'] == 'edit':
            write(h['f'], doc_text(h['doc'], opt), mdenc)
            continue
        if h['op'] == 'write':
            po = polib.pofile(h['path'], encoding=poenc,
                              wrapwidth=opt['pow'] or 10**6)
            for e, w in zip(po, h['cat']):
                e.msgstr = real_text(w['str'])
                e.flags = ['fuzzy'] if w['fuzzy'] else []
            po.save(h['path'])
            if h['lay']:
                with open(h['path'], 'a') as f:
                    f.write('\n')
            continue
        if h['op'] == 'import':
            po = polib.POFile(encoding=poenc)
            po.metadata = {'Content-Type': f'text/plain; charset={poenc}'}
            for w in h['cat']:
                po.append(polib.POEntry(
                    msgid=real_text(w['id']), msgstr=real_text(w['str']),
                    msgctxt=w['ctx'] or None, obsolete=w['obs'],
                    flags=['fuzzy'] if w['fuzzy'] else []))
            write(h['path'], f'{po}\n', poenc)
            continue
        if h['op'] == 'delete':
            os.remove(h['path'])
            continue
        if h['op'] == 'spoil':
            write(h['path'], 'spoiled\n', mdenc)
            continue
        before = tree()
        langs = sorted(h['langs'])
        rng.shuffle(langs)
        globs = [path(g) for g in h['globs']]
        schema = path(sch)
        if h['op'] == 'refused':
            h = {**h, 'check': False, 'no': []}
            if h['why'] == 'schema':
                schema = schema.replace('{lang}', 'lang')
            elif h['why'] == 'glob':
                globs = [path('no/*.md')]
            else:
                globs.append(path('*.none'))
            want = 'ValueError' if h['why'] == 'schema' else \
                'FileNotFoundError'
        else:
            want = h['exit']
        args, kw = project_options(opt, h, rng)
        if opt['cli']:
            argv = globs + chosen(
                rng, ['-l', *langs], ['--lang', *langs],
                sum((['-l', x] for x in langs), []),
                [f'--lang={x}' for x in langs])
            argv += chosen(rng, ['-o', schema], ['--output', schema])
            argv += sum(args, [])
            code, out, err = (process if case.get('process')
                              else in_process)('md2po2md', argv)
            if isinstance(want, str) and code == 1 and want in err:
                code = want
            bad.update(args=argv, stderr=err[-2000:], stdout=out[-2000:])
        else:
            buf = io.StringIO()
            mode = {'default': None,
                    'merge': {'mark_not_found_as_obsolete': False},
                    'remove': {'preserve_not_found': False}}[
                        h.get('mode', 'default')]
            bad['kwargs'] = kw
            with contextlib.redirect_stdout(buf):
                try:
                    changed, *lists = markdown_to_pofile_to_markdown(
                        langs, globs if len(globs) > 1 else globs[0], schema,
                        md2po_kwargs=mode, **kw)
                    code, err = 0, '\n'.join(
                        f'no {WORDS[k]} {x}' for k, ls in zip('ofe', lists)
                        for x in ls)
                    if bool(changed) and kw.get('_check_saved_files_changed'):
                        code = 2
                    for k, c, ls in zip('ofe', (3, 4, 5), lists):
                        code = c if ls else code
                except (ValueError, FileNotFoundError) as e:
                    code = type(e).__name__
            out = buf.getvalue()
        after = tree()
        if code != want:
            return {'clause': f'exit code {code} instead of {want}', **bad}
        if h['op'] == 'refused':
            if before != after:
                return {'clause': 'files written by a run refused', **bad}
            continue
        if bool(out) != opt['debug']:
            return {'clause': 'something printed', **bad}
        rel = {os.path.join(root, p): p for p in after}
        err = re.sub(r'(\S+\.po):', lambda m: rel.get(m[1], m[1]) + ':', err)
        why = locations(err, h['no'], h['n'], after)
        if why:
            return {'clause': f'wrong locations: {why}', **bad}
        expected = {y[k] for y in h['outs'] for k in ('po', 'md')}
        for p in set(before) | set(after):
            if before.get(p) != after.get(p) and p not in expected:
                return {'clause': f'{p} changed by another language or file',
                        **bad}
        sources = {y['f']: before[y['f']] for y in h['outs']}
        for y in h['outs']:
            for k in ('po', 'md'):
                if y[k] not in after:
                    return {'clause': f'{y[k]} not written', 'output': y,
                            'files': sorted(after), **bad}
                if (before.get(y[k]) != after[y[k]]) != y[k + 'ch']:
                    return {'clause': f'{y[k]} is ' + (
                        'not ' * y[k + 'ch'] + 'changed'), 'output': y,
                        'before': before.get(y[k], b'').decode(
                            'latin-1'), 'after': after[y[k]].decode('latin-1'),
                        **bad}
            po = polib.pofile(y['po'], encoding=poenc)
            got = entries(po)
            exp = [{**e, 'id': real_text(e['id']), 'str': real_text(e['str'])}
                   for e in y['cat']]
            if got != exp:
                return {'clause': f'other catalog in {y["po"]}',
                        'expected': exp, 'observed': got, **bad}
            if any(bool(e.occurrences) != opt['loc'] for e in po
                   if not e.obsolete
                   and (h['mode'] != 'merge' or not opt['loc'])):
                return {'clause': 'locations of messages', **bad}
            text = after[y['md']].decode(mdenc)
            n = len(y['text']) - (0 if not opt['rich'] else
                                  (2 if opt['ext'] == 'default' else 1)
                                  + 2 + opt['codes'])
            got = [x.lstrip('# ').rstrip('\n')
                   for x in text.split('\n\n')[:n]]
            if got != [real_text(x) for x in y['text'][:n]]:
                return {'clause': f'other translation in {y["md"]}',
                        'expected': y['text'], 'observed': text, **bad}
        alone = compose(sources, h, opt, before)
        for p, content in alone.items():
            if content != after[p]:
                return {'clause': f'{p} is not what md2po and po2md give',
                        'alone': content.decode('latin-1'),
                        'observed': after[p].decode('latin-1'), **bad}
        put_tree(after)
    return None


def c17(chk):
    cases = []

    def simulate(i):
        n, steps = (chk.pick(24, 350), 6) if i % 2 else (chk.pick(12, 180), 12)
        return tlc.run('Project', dict(Steps=steps),
                       invariants=['Composed', 'Idempotent', 'Emit'],
                       properties=['Isolated', 'OnlyTranslated'],
                       simulate=(n, steps + 1), seed=chk.seed * 100 + i)
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for r in pool.map(simulate, range(8)):
            chk.tlc(r)
            seen = set()
            for c in r.records:
                k = str((c['opt'], c['hist'][:-1]))
                if k not in seen:
                    seen.add(k)
                    cases.append({**c, 'seed': chk.rng.randrange(9999)})
    for c in chk.rng.sample(cases, min(len(cases), chk.pick(6, 60))):
        if c['opt']['cli']:
            c['process'] = True
    batch(chk, cases, c17_case)
    chk.extra['runs_of_md2po2md'] = sum(
        h['op'] == 'run' for c in cases for h in c['hist'])
