"""Run TLC over a specification of /verif/specs and read what it prints.

Specifications communicate verdicts and behaviours by printing JSON records
(``PrintT(ToJson([...]))``); every other line is TLC's own output.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = os.path.join(VERIF, 'specs')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC did not finish as expected: a failure of the machinery."""


class Result:
    def __init__(self):
        self.records = []       # records printed by the specification
        self.generated = 0      # states generated (= transitions explored)
        self.distinct = 0       # distinct states
        self.violated = None    # name of a violated invariant/property
        self.raw = ''


def run(module, constants=None, invariants=(), init='Init', next_='Next',
        spec=None, properties=(), constraints=(), env=None, workers=1,
        timeout=800, heap='4g', simulate=None, postcondition=None,
        action_constraints=(), seed=None, allow_violation=False, view=None):
    tmp = tempfile.mkdtemp(prefix='tlc-')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPECS, f), os.path.join(tmp, f))
        cfg = []
        if spec:
            cfg.append(f'SPECIFICATION {spec}')
        else:
            cfg += [f'INIT {init}', f'NEXT {next_}']
        for k, v in (constants or {}).items():
            if isinstance(v, bool):
                v = str(v).upper()
            cfg.append(f'CONSTANT {k} = {v}')
        cfg += [f'INVARIANT {i}' for i in invariants]
        cfg += [f'PROPERTY {i}' for i in properties]
        cfg += [f'CONSTRAINT {i}' for i in constraints]
        cfg += [f'ACTION_CONSTRAINT {i}' for i in action_constraints]
        if view:
            cfg.append(f'VIEW {view}')
        if postcondition:
            cfg.append(f'POSTCONDITION {postcondition}')
        cfg.append('CHECK_DEADLOCK FALSE')
        with open(os.path.join(tmp, 'M.cfg'), 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        cmd = [
            'java', f'-Djava.io.tmpdir={tmp}', '-Dfile.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8',
            # states written to disk lose their non ASCII characters
            '-Dtlc2.tool.queue.DiskStateQueue.BufSize=400000',
            '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', CP, 'tlc2.TLC',
            '-config', 'M.cfg', '-metadir', os.path.join(tmp, 'meta'),
            '-noGenerateSpecTE', '-workers', str(workers),
        ]
        if simulate:
            cmd += ['-simulate', f'num={simulate[0]}', '-depth',
                    str(simulate[1])]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd.append(module)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(
                cmd, cwd=tmp, env=e, capture_output=True, timeout=timeout,
            )
        except subprocess.TimeoutExpired as exc:
            raise TLCError(f'{module}: TLC timed out') from exc
        out = p.stdout.decode('utf-8', 'replace')
        res = Result()
        res.raw = out
        rest = []
        for line in out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                try:
                    res.records.append(json.loads(json.loads(line)))
                    continue
                except ValueError as exc:
                    raise TLCError(f'unreadable record: {line}') from exc
            rest.append(line)
        text = '\n'.join(rest)
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct', text)
        if m:
            res.generated, res.distinct = (
                int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.search(r'The number of states generated: ([\d,]+)', text)
            if m:
                res.generated = int(m.group(1).replace(',', ''))
        m = re.search(r'Invariant (\w+) is violated', text)
        if m:
            res.violated = m.group(1)
        ok = ('Model checking completed. No error has been found' in text
              or (simulate and 'Error' not in text))
        if not ok and not (allow_violation and res.violated):
            raise TLCError(
                f'{module}: TLC failed ({p.returncode})\n{text[-4000:]}'
                f'\n{p.stderr.decode()[-2000:]}')
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
