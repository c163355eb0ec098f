"""Judge traces recorded from the real code with a trace specification."""
import concurrent.futures
import json
import os
import tempfile

from harness import tlc

KEYS = ('ctx', 'id', 'tc', 'str', 'fuzzy', 'loc')


# traces of each run of TLC, which keeps their states in memory
CHUNK = 3000


def judge(chk, module, traces, invariants=(), procs=6):
    """Verdict records of the specification ``module`` for ``traces``."""
    if not traces:
        return []
    traces = [dict(t, k=i) for i, t in enumerate(traces)]
    n = max(1, min(procs, len(traces) // 40 or 1), -(-len(traces) // CHUNK))
    chunks = [traces[i::n] for i in range(n)]

    def one(chunk):
        fd, path = tempfile.mkstemp(prefix='traces-', suffix='.ndjson')
        try:
            with os.fdopen(fd, 'w', encoding='utf-8') as f:
                for t in chunk:
                    f.write(json.dumps(
                        {k: v for k, v in t.items() if not k.startswith('_')},
                        ensure_ascii=False) + '\n')
            r = tlc.run(module, invariants=invariants, view='Id',
                        env={'TRACES': path}, workers=1, heap='3g')
        finally:
            os.remove(path)
        if len(r.records) != len(chunk):
            raise tlc.TLCError(f'{len(r.records)} verdicts for {len(chunk)} '
                               f'traces\n{r.raw[-3000:]}')
        return r, [(chunk[v['k'] - 1]['k'], v) for v in r.records]
    out = [None] * len(traces)
    with concurrent.futures.ThreadPoolExecutor(min(n, procs)) as ex:
        for r, vs in ex.map(one, chunks):
            chk.tlc(r)
            for k, v in vs:
                out[k] = v
    return out


def diff(want, got):
    """What is missing and what is extra, in order."""
    w = [json.dumps(x, sort_keys=True, ensure_ascii=False) for x in want]
    g = [json.dumps(x, sort_keys=True, ensure_ascii=False) for x in got]
    if sorted(w) == sorted(g):
        return {'order_expected': w[:12], 'order_observed': g[:12]}
    return {'missing': [x for x in w if x not in g][:6],
            'unexpected': [x for x in g if x not in w][:6]}
