"""C16: event handlers, judged by EventsTrace.tla."""
import contextlib
import io
import random
import re
import sys
import types

from harness import docs
from harness.core import clean_cwd, run_real
from harness.extraction import SAFE, catalog, commander, skeletons
from harness.judge import judge
from harness.translation import KINDS, kind_of, structures, translate_text

RAW = {'eb': 'enter_block', 'lb': 'leave_block', 'es': 'enter_span',
       'ls': 'leave_span', 'tx': 'text'}
EVENTS = [*RAW.values(), 'command', 'msgid', 'link_reference']
ANY = [0, 10**6]
FALSY = [None, True, 0, '', [], 1, 'False', 0.0]

COMMANDS = SAFE + ['disable-next-block', 'enable-next-block', 'context c1',
                   'translator A note', 'include Comment here']


def stream(content):
    """Events of the parser with their names and arguments."""
    import md4c
    keys = []

    def rec(*a):
        keys.append(a)
    md4c.GenericParser(0, **dict.fromkeys(docs.EXTENSIONS, True)).parse(
        content,
        lambda b, d: rec(b.name, f'{b.name} {d}'),
        lambda b, d: rec(b.name, f'{b.name} {d}'),
        lambda b, d: rec(b.name, f'{b.name} {d}'),
        lambda b, d: rec(b.name, f'{b.name} {d}'),
        lambda b, x: rec(x, f'{b.name} {x}'))
    return [dict(e, m=m, key=key)
            for e, (m, key) in zip(docs.events(content), keys)]


def key_of(event, args):
    """What a call of a handler is compared by."""
    if event == 'command':
        c, a, o = args
        return c, f'{c}|{a or ""}|{o}'
    if event == 'msgid':
        i, s, c, t, f = args
        return i, f'{i}|{s or ""}|{c or ""}|{t or ""}|{",".join(f)}'
    if event == 'link_reference':
        t, h, ti = args
        return t, f'{t}|{h or ""}|{ti or ""}'
    if event == 'text':
        return args[1], f'{args[0].name} {args[1]}'
    return args[0].name, f'{args[0].name} {args[1]}'


class Recorder:
    def __init__(self, handlers):
        self.handlers, self.calls, self.n, self.obj = handlers, [], 0, None
        self.selves = set()

    def call(self, event, j, args):
        h = self.handlers[event][j]
        if event in RAW.values() and j == 0:
            self.n += 1
        self.selves.add(args[0])
        m, key = key_of(event, args[1:])
        if not (event == 'msgid' and not m):
            # (the end of a block without message raises it also)
            self.calls.append({'e': event, 'j': j + 1, 'x': key})
        at = self.n if event in RAW.values() else 0
        if h['f'] and h['m'] in ('*', m) and h['lo'] <= at <= h['hi']:
            return False
        return h['ret']

    def function(self, event, j):
        return lambda *args: self.call(event, j, args)


def arguments(rec, rng, seed):
    """The handlers as functions, lists, paths to functions or to methods."""
    name = f'ev{seed}.py'
    sys.modules['_mdpo_recorder'] = mod = types.ModuleType('_mdpo_recorder')
    mod.rec = rec
    out = ['import _mdpo_recorder as r', 'class C:', '    pass']
    events = {}
    for e, hs in rec.handlers.items():
        fs = []
        for j in range(len(hs)):
            form = rng.choice(['fn', 'fn', 'path', 'method'])
            if form == 'fn':
                fs.append(rec.function(e, j))
                continue
            out.append(f'def {e}_{j}(*args):\n'
                       f'    return r.rec.call({e!r}, {j}, args)')
            if form == 'method':
                out.append(f'C.{e}_{j} = staticmethod({e}_{j})')
            fs.append(f'{name}::{"C." if form == "method" else ""}{e}_{j}')
        events[e] = fs[0] if len(fs) == 1 and rng.random() < .5 else \
            rng.choice([list, tuple])(fs)
    with open(name, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return events


def debug_lines(text, tool):
    """Events of the debug lines (they may show texts with newlines)."""
    out = []
    for m in re.finditer(
            r'^' + tool + r'\[DEBUG\]::\d{4}-\d\d-\d\d [\d:.]+::(\w+):: (.*)',
            text, re.M):
        if m[1] == 'msgid' and m[2].startswith("msgid=''"):
            continue
        out.append(m[1])
    return out


def subtrees(ev):
    """Ranges of the events of each top-level block."""
    out, depth, start = [], 0, 0
    for n, e in enumerate(ev, 1):
        if e['k'] == 'eb':
            depth += 1
            if depth == 2:
                start = n
        elif e['k'] == 'lb':
            if depth == 2:
                out.append((start, n))
            depth -= 1
    return out


def droppable(ev):
    """Texts of paragraphs beside other texts, out of spans."""
    out, spans, blocks = [], 0, []
    for n, e in enumerate(ev):
        if e['k'] in ('es', 'ls'):
            spans += 1 if e['k'] == 'es' else -1
        elif e['k'] == 'eb':
            blocks.append(e['t'])
        elif e['k'] == 'lb':
            blocks.pop()
        elif not spans and blocks == ['DOC', 'P'] and \
                re.match(r'w\d+', e['x']) and \
                (ev[n - 1]['k'] == 'ls' or ev[n + 1]['k'] == 'es'):
            out.append(e['x'])
    return out


def choose_handlers(rng, ev, ids, po2md, refs):
    """Lists of handlers for some of the events, a few of which answer False
    to something."""
    def handler(f=False, m='*', span=ANY):
        return {'f': f, 'm': m, 'lo': span[0], 'hi': span[1],
                'ret': rng.choice(FALSY)}

    def skipping(events, m='*', span=ANY):
        for e in events:
            hs = handlers.setdefault(e, [])
            hs.insert(rng.randint(0, len(hs)), handler(True, m, span))
    handlers = {e: [handler() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                for e in EVENTS}
    for e in RAW.values():
        handlers[e] = handlers[e] or [handler()]
    for _ in range(rng.choice([0, 1, 1, 2])):
        kind = rng.choice(['text', 'span', 'command', 'msgid', 'ref', 'block'])
        if kind == 'text':
            xs = droppable(ev)
            if not po2md:
                xs += [e['x'] for e in ev if 'mdpo-' in e['x']]
            if xs:
                skipping(['text'], rng.choice(xs))
        elif kind == 'span':
            ts = sorted({e['t'] for e in ev if e['k'] == 'es'} & (
                {'EM', 'STRONG'} if po2md else
                {'EM', 'STRONG', 'DEL', 'CODE', 'A', 'LATEXMATH'}))
            if ts:
                skipping(['enter_span', 'leave_span'], rng.choice(ts))
        elif kind == 'command':
            skipping(['command'], rng.choice(
                ['*'] + ['mdpo-' + c.split(' ')[0] for c in COMMANDS]))
        elif kind == 'msgid':
            if ids:
                skipping(['msgid'], rng.choice(ids))
        elif kind == 'ref':
            skipping(['link_reference'], rng.choice(
                ['*'] + [t for t, _, _ in docs.REFS]))
        elif kind == 'block' and not po2md:
            ts = subtrees(ev)
            if ts:
                skipping(list(RAW.values()), '*', rng.choice(ts))
    return {e: hs for e, hs in handlers.items() if hs}


def run_job(job):
    clean_cwd()
    import polib
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md
    rng = random.Random(job['seed'])
    tool, all_ = job['tool'], job['all']
    with open('doc.md', 'w', encoding='utf-8') as f:
        f.write(job['doc'])
    kw = {'extensions': docs.EXTENSIONS, 'command_aliases': job['aliases']}
    ekw = dict(kw, location=False, include_codeblocks=all_)
    ev = stream(job['doc'])
    po = Md2Po(['doc.md'], **ekw).extract()
    ids = [e.msgid for e in po if kind_of(e) == 'text']
    if tool == 'po2md':
        # messages only of paragraphs out of containers
        # (without it, the indented codes around it would be only one)
        tops = [] if any(e['k'] == 'eb' and e['t'] == 'CODE' and
                         e['a'] == 'indented' for e in ev) else \
            [e[0] for e in paragraphs(ev)]
        texts = [e['x'] for e in ev if e['k'] == 'tx']
        ids = [i for i in ids if i in tops and ids.count(i) == 1
               and texts.count(i) == tops.count(i)]
    rec = Recorder(choose_handlers(rng, ev, ids, tool == 'po2md', None))
    events = arguments(rec, rng, job['n'])
    base = {
        'tool': tool, 'all': all_, 'ignore': [], 'msgstr': '', 'po': [],
        'handlers': {e: [{k: h[k] for k in ('f', 'm', 'lo', 'hi')} for h in hs]
                     for e, hs in rec.handlers.items()}, 'debug': job['debug'], 'cat': [], 'dis': [],
        'al': [{'n': k, 'c': v} for k, v in job['aliases'].items()],
        'src': {'ev': ev, 'lines': docs.reflines(job['doc'])},
        'out': {'ev': [], 'lines': []},
    }
    out = io.StringIO()
    if tool == 'md2po':
        m = Md2Po(['doc.md'], events=events, debug=job['debug'], **ekw)
        with contextlib.redirect_stdout(out):
            po = m.extract()
        base.update(cat=[{k: v for k, v in c.items() if k != 'obs'}
                         for c in catalog(po)],
                    dis=[{'ctx': e.msgctxt or '', 'id': e.msgid}
                         for e in m.disabled_entries])
    else:
        for n, e in enumerate(po):
            if rng.random() < .5:
                e.msgstr = translate_text(rng, e.msgid, n, kind_of(e))
            elif kind_of(e) != 'ref':
                e.msgstr = ''
            base['po'].append({'ctx': e.msgctxt or '', 'id': e.msgid,
                               'str': e.msgstr})
        po.save('doc.po')
        m = Po2Md('doc.po', events=events, debug=job['debug'], wrapwidth=0,
                  **kw)
        with contextlib.redirect_stdout(out):
            text = m.translate('doc.md')
        if not docs.stable(text):
            return None
        base['out'] = {'ev': docs.events(text), 'lines': docs.reflines(text)}
        base['_text'] = text
    base['calls'] = rec.calls
    base['printed'] = debug_lines(out.getvalue(), tool)
    if rec.selves - {m}:
        base['_self'] = True
    return base


def paragraphs(ev):
    """Messages of the paragraphs out of containers which are only a text."""
    out, blocks = [], []
    for n, e in enumerate(ev):
        if e['k'] == 'eb':
            blocks.append(e['t'])
            if blocks == ['DOC', 'P'] and ev[n + 1]['k'] == 'tx' \
                    and ev[n + 2]['k'] == 'lb':
                out.append((ev[n + 1]['x'], n))
        elif e['k'] == 'lb':
            blocks.pop()
    return out


CLAUSES = {'calls': 'handlers called otherwise',
           'result': 'result with handlers differs',
           'debug': 'debug lines are not the events'}


def c16(chk):
    jobs = []
    for tool in ('md2po', 'po2md'):
        wide = 2 if tool == 'md2po' else 1
        sk = structures(chk, chk.pick(400, 6000), chk.pick(200, 3000),
                        wide=wide, n=4)
        for t in sk:
            r = random.Random(chk.rng.random())
            names = COMMANDS if tool == 'md2po' else SAFE + (
                ['context c1', 'translator A note', 'disable-next-block']
                if not {'cf', 'ci'} & set(t) else [])
            doc = docs.write(t, r, kinds=docs.INLINE if tool == 'md2po'
                             else KINDS, cmd=commander(r, names), density=.4,
                             strict=tool == 'po2md')
            aliases = {}
            if r.random() < .3:
                aliases = {'on': 'enable', 'off': 'mdpo-disable'}
                doc = doc.replace('mdpo-enable ', 'on ').replace(
                    'mdpo-disable ', 'off ')
            jobs.append({'tool': tool, 'doc': doc, 'all': r.random() < .3,
                         'debug': r.random() < .3, 'aliases': aliases,
                         'seed': r.random(), 'n': len(jobs)})
    traces, who = [], []
    for job, (status, t) in zip(jobs, run_real(run_job, jobs)):
        if status != 'ok':
            chk.violation(f'{status}: {t}', {'job': job})
        elif t:
            if t.get('_self'):
                chk.violation('other object given to handlers', {'job': job})
            traces.append(t)
            who.append(job)
    for job, t, v in zip(who, traces, judge(
            chk, 'EventsTrace', traces, ['Nested_'])):
        for c in CLAUSES:
            if not v[c]:
                chk.violation(CLAUSES[c], {
                    'job': job, 'handlers': t['handlers'], 'diff': v['want'],
                    'output': t.get('_text', t['cat']),
                    'printed': t['printed']})
                break
    chk.traces += len(traces)
    for j in who[:: max(1, len(who) // 3)]:
        chk.sample(j)
    chk.extra['calls_of_handlers'] = sum(len(t['calls']) for t in traces)
