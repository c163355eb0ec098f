"""C22, C24: PO files as the checks and the lookups of translations see them."""
import os

from harness import tlc
from harness.core import clean_cwd, run_real


def check_file(case):
    clean_cwd()
    import polib
    import mdpo.po as po
    lines = case['lines']
    variants = [('\n'.join(lines) + '\n'), '\n'.join(lines),
                '\n'.join(lines) + '\n\n']
    fns = {'obs': po.check_obsolete_entries_in_filepaths,
           'fuzzy': po.check_fuzzy_entries_in_filepaths,
           'empty': po.check_empty_msgstrs_in_filepaths}
    for i, content in enumerate(variants):
        for enc, nl in (('utf-8', '\n'), ('utf-8', '\r\n')):
            name = f'f{i}.po'
            with open(name, 'w', encoding=enc, newline=nl) as f:
                f.write(content)
            for k, fn in fns.items():
                got = list(fn([name]))
                want = [f'{name}:{n}' for n in case[k]]
                if got != want:
                    return {'clause': f'wrong locations ({k})',
                            'expected': want, 'observed': got,
                            'content': content}
    # several files: in order, each one with its name
    os.mkdir('d')
    with open('d/g.po', 'w', encoding='utf-8') as f:
        f.write(variants[0])
    for k, fn in fns.items():
        got = list(fn(['f1.po', 'd/g.po']))
        want = [f'{n}:{i}' for n in ('f1.po', 'd/g.po') for i in case[k]]
        if got != want:
            return {'clause': f'wrong locations in several files ({k})',
                    'expected': want, 'observed': got}
    # the model agrees with polib about the entries
    try:
        es = polib.pofile('f0.po', encoding='utf-8')
    except OSError:
        return None
    got = sorted((e.obsolete, 'fuzzy' in e.flags, not e.msgstr) for e in es)
    want = sorted((p['o'], p['f'], p['e']) for p in case['parsed'])
    if got != want:
        return {'clause': 'MODEL', 'expected': want, 'observed': got,
                'content': variants[0]}
    return None


def c22(chk):
    cases = []
    for n, shapes, plain in chk.pick(
            [(1, 1500, False), (2, 20, False), (2, 40, True), (3, 7, False)],
            [(1, 0, False), (2, 80, False), (2, 0, True), (3, 18, False),
             (3, 20, True), (4, 8, False), (5, 5, False)]):
        r = tlc.run('PoFile', dict(N=n, Shapes=shapes, Plain=plain),
                    invariants=['OnLines', 'OnEntries', 'Emit'],
                    seed=chk.seed)
        chk.tlc(r)
        rs = r.records
        limit = chk.pick(2500, 40000)
        cases += rs if len(rs) <= limit else chk.rng.sample(rs, limit)
    for c, (status, val) in zip(cases, run_real(check_file, cases)):
        if status != 'ok':
            chk.violation(f'{status}: {val}', {'case': c})
        elif val:
            if val['clause'] == 'MODEL':
                raise RuntimeError(str(val))
            chk.violation(val['clause'], {'case': c, **val})
    chk.traces += len(cases)
    for c in cases[:: len(cases) // 3]:
        chk.sample(c)
