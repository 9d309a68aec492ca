"""The runner: parts, shards, shrinking, replays, evidence, known findings.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS (list), parts(tier) -> [Part]
Every part generates JSON-able cases and judges one with check(ctx, case),
raising Violation.  Cases are a pure function of (code, VERIF_SEED, tier)."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

import bridge
from bridge import HarnessError, PanicException

VERIF = bridge.VERIF
REPO = bridge.REPO
SHARDS = 8
FINDINGS = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    def __init__(self, msg: str, key: str | None = None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's domain (counted, not judged)."""


def child_limits(seconds: int):
    """preexec_fn: no core file, and an end even when this process is killed first"""
    import resource

    def go():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 1))
    return go


def seed_of() -> int:
    return int(os.environ.get('VERIF_SEED', '1'))


def subseed(*parts) -> int:
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def dumps(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Ctx:
    def __init__(self, prop: str, tier: str):
        self.prop = prop
        self.tier = tier
        self.part = ''
        self.evaluations = 0
        self.skips = 0
        self.nontrivial: set[bytes] = set()
        self.classes: Counter = Counter()
        self.samples: list = []
        self.notes: list[str] = []
        self.findings = [f for f in load_findings() if f['property'] == prop
                         and f.get('status', 'open') == 'open']
        self.known_hits: Counter = Counter()
        self._case = None
        self._nt = False

    def nontrivial_case(self):
        """called by a check when the case at hand exercised the property"""
        self._nt = True

    def cls(self, name: str, n: int = 1):
        self.classes[f'{self.part}: {name}'] += n

    def is_known(self, case, v: Violation) -> bool:
        for f in self.findings:
            if f['part'] == self.part and (
                    f.get('case') == case or (v.key is not None and f.get('key') == v.key)):
                self.known_hits[f['id']] += 1
                return True
        return False


def load_findings():
    try:
        with open(FINDINGS) as fp:
            return json.load(fp)['findings']
    except FileNotFoundError:
        return []


class Part:
    """gen: a hypothesis strategy (kind 'hyp'), rng -> case ('rnd'), or an
    iterable factory ('enum', sharded round-robin)."""

    def __init__(self, name, kind, gen, check, n, shrink=None, setup=None, one_shard=False):
        self.name, self.kind, self.gen, self.check = name, kind, gen, check
        self.n, self.shrink, self.setup, self.one_shard = n, shrink, setup, one_shard


def in_repo_traceback(err) -> bool:
    """Did the exception come out of the code under test?  True when some
    frame below the last harness frame belongs to it."""
    frames = [f.filename for f in traceback.extract_tb(err.__traceback__)]
    last_repo = max((i for i, f in enumerate(frames) if f.startswith(REPO + '/')), default=-1)
    last_h = max((i for i, f in enumerate(frames)
                  if f.startswith(os.path.join(VERIF, 'harness'))
                  and not f.endswith('bridge.py')), default=-1)
    return last_repo > last_h


def judge(ctx: Ctx, part: Part, case) -> None:
    """Raises Violation for anything that breaks the property."""
    ctx.evaluations += 1
    ctx._nt = False
    try:
        part.check(ctx, case)
    except Skip:
        ctx.skips += 1
        return
    except Violation as v:
        if ctx.is_known(case, v):
            return
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except PanicException as err:
        v = Violation(f'unexpected panic: {err}')
        if ctx.is_known(case, v):
            return
        raise v from err
    except HarnessError:
        raise
    except MemoryError:
        raise
    except Exception as err:
        if in_repo_traceback(err):
            v = Violation(f'unexpected {type(err).__name__}: {str(err)[:300]} at '
                          + ' < '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in
                                       reversed(traceback.extract_tb(err.__traceback__)[-3:])))
            if ctx.is_known(case, v):
                return
            raise v from err
        raise
    if ctx._nt:
        d = hashlib.blake2b((part.name + dumps(case)).encode(), digest_size=8).digest()
        if d not in ctx.nontrivial:
            ctx.nontrivial.add(d)
            if sum(1 for s in ctx.samples if s['part'] == part.name) < 2:
                ctx.samples.append({'part': part.name, 'case': clip(case)})


def clip(case, n=600):
    s = dumps(case)
    return case if len(s) <= n else s[:n] + '...'


class Stop(Exception):
    pass


# -- one worker ------------------------------------------------------------

def shrink_case(ctx, part, case, v, budget=400):
    """greedy: part.shrink(case) yields simpler candidates"""
    if part.shrink is None:
        return case, v
    t0 = time.time()
    improved = True
    while improved and budget > 0 and time.time() - t0 < 60:
        improved = False
        for cand in part.shrink(case):
            budget -= 1
            if budget <= 0:
                break
            try:
                judge(ctx, part, cand)
            except Violation as v2:
                case, v, improved = cand, v2, True
                break
            except Exception:
                continue
    return case, v


def run_part(ctx: Ctx, part: Part, shard: int, beat) -> tuple | None:
    ctx.part = part.name
    if part.one_shard and shard:
        return None
    shards = 1 if part.one_shard else SHARDS

    def one(case):
        beat(part, case)
        judge(ctx, part, case)

    n = part.n if part.one_shard else -(-part.n // SHARDS) if part.n else 0
    if n and (scale := os.environ.get('BBS_SCALE')):  # for trying things out
        n = max(1, int(n * float(scale)))

    if part.kind == 'enum':
        for i, case in enumerate(part.gen()):
            if i % shards != shard:
                continue
            try:
                one(case)
            except Violation as v:
                case, v = shrink_case(ctx, part, case, v)
                return case, str(v)
        return None

    if part.kind == 'rnd':
        base = subseed(seed_of(), ctx.prop, part.name, shard)
        for i in range(n):
            case = part.gen(random.Random(subseed(base, i)))
            if case is None:
                continue
            try:
                one(case)
            except Violation as v:
                case, v = shrink_case(ctx, part, case, v)
                return case, str(v)
        return None

    assert part.kind == 'hyp'
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    failing: list = []

    @hypothesis.seed(subseed(seed_of(), ctx.prop, part.name, shard))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=(Phase.generate, Phase.target, Phase.shrink),
              report_multiple_bugs=False, print_blob=False,
              suppress_health_check=list(HealthCheck))
    @given(part.gen)
    def prop(case):
        try:
            one(case)
        except Violation as v:
            failing.append((case, str(v)))
            raise

    try:
        prop()
    except Violation:
        return failing[-1]
    except BaseException as err:
        if failing and type(err).__name__ in ('FlakyFailure', 'Flaky', 'FlakyReplay',
                                              'BaseExceptionGroup', 'ExceptionGroup'):
            # the violation did not repeat while shrinking: keep the first
            return failing[0]
        raise
    return None


def worker(conn, mod, prop, tier, shard, beatfile, only):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.setrecursionlimit(3000)
    ctx = Ctx(prop, tier)
    fd = os.open(beatfile, os.O_RDWR | os.O_CREAT)

    def beat(part, case):
        s = dumps([part.name, case]).encode()
        os.pwrite(fd, b'%010d' % len(s) + s, 0)

    found = []
    err = None
    times = {}
    try:
        for part in mod.parts(tier):
            if only and part.name not in only:
                continue
            t0 = time.time()
            r = run_part(ctx, part, shard, beat)
            times[part.name] = round(time.time() - t0, 2)
            if r is not None:
                found.append((part.name, r[0], r[1]))
                break  # enough for an alarm
    except BaseException:
        err = traceback.format_exc()
    conn.send({
        'found': found, 'err': err, 'evaluations': ctx.evaluations, 'skips': ctx.skips,
        'nontrivial': ctx.nontrivial, 'classes': ctx.classes, 'samples': ctx.samples,
        'notes': ctx.notes, 'known': ctx.known_hits, 'times': times})
    conn.close()
    os._exit(0)


# -- the parent --------------------------------------------------------------

def write_replay(prop, part, case, msg) -> str:
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'part': part, 'case': case, 'message': msg,
            'how': f'cd {VERIF} && python3-vt harness/run.py {prop} --replay <this file>'}
    h = hashlib.sha256(dumps([part, case]).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as fp:
        json.dump(body, fp, indent=1)
    return path


def read_beat(path):
    try:
        with open(path, 'rb') as fp:
            b = fp.read()
        return json.loads(b[10:10 + int(b[:10])])
    except Exception:
        return None


HANG = 200


def try_case_alone(mod, prop, tier, part_name, case, limit, known=True):
    """'ok' | 'hang' | 'died:…' | 'bad' | 'violation:…', in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            ctx = Ctx(prop, tier)
            if not known:
                ctx.findings = []
            part = next(p for p in mod.parts(tier) if p.name == part_name)
            ctx.part = part_name
            judge(ctx, part, case)
        except Violation as v:
            code = 5
            os.write(w, str(v).encode()[:4000])
        except BaseException:
            code = 7
        os._exit(code)
    os.close(w)
    try:
        return wait_alone(pid, r, limit)
    finally:
        os.close(r)


def wait_alone(pid, r, limit):
    t0 = time.time()
    while time.time() - t0 < limit:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                return 'died:%d' % os.WTERMSIG(st)
            if os.WEXITSTATUS(st) == 5:
                return 'violation:' + os.read(r, 4000).decode(errors='replace')
            return 'ok' if os.WEXITSTATUS(st) == 0 else 'bad'
        time.sleep(0.02)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return 'hang'


def main(mod, tier: str, only=None) -> int:
    prop = mod.PROPERTY
    t0 = time.time()
    limit = 780 if tier == 'quick' else 6 * 3600
    if getattr(mod, 'prepare', None):
        mod.prepare(tier)
    violations = []
    known_lines = []

    # known findings: re-run each listed case
    ctx0 = Ctx(prop, tier)
    for f in ctx0.findings:
        part = next((p for p in mod.parts(tier) if p.name == f['part']), None)
        if part is None:
            continue
        if try_case_alone(mod, prop, tier, part.name, f['case'], HANG, known=False).startswith('violation:'):
            known_lines.append(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")

    # regression replays: shrunk failures that were repaired since
    corpus = os.path.join(VERIF, 'regressions', f'{prop}.jsonl')
    nreg = 0
    errs = []
    if os.path.exists(corpus) and not only:
        byname = {p.name: p for p in mod.parts(tier)}
        with open(corpus) as fp:
            for line in fp:
                rec = json.loads(line)
                if rec['part'] not in byname:
                    continue
                nreg += 1
                res = try_case_alone(mod, prop, tier, rec['part'], rec['case'], HANG)
                if res == 'hang':
                    res = f'violation:no answer: the code under test ran for over {HANG} s on this case'
                elif res.startswith('died:'):
                    res = f'violation:the process died (signal {res[5:]})'
                if res.startswith('violation:'):
                    violations.append((rec['part'], rec['case'], res[10:]))
                    break
                if res == 'bad':
                    errs.append(f'stored case could not be judged: {clip(rec["case"])}')

    tot = {'evaluations': nreg, 'skips': 0, 'nontrivial': set(ctx0.nontrivial),
           'classes': Counter(), 'samples': [], 'notes': [], 'times': Counter(), 'known': Counter()}
    ctxmp = mp.get_context('fork')
    jobs = []
    beats = os.path.join(bridge.BUILD, f'beat_{os.getpid()}')
    os.makedirs(beats, exist_ok=True)
    if not violations:
        for sh in range(SHARDS):
            a, b = ctxmp.Pipe(False)
            bf = os.path.join(beats, str(sh))
            p = ctxmp.Process(target=worker, args=(b, mod, prop, tier, sh, bf, only))
            p.start()
            b.close()
            jobs.append({'p': p, 'c': a, 'bf': bf, 'beat': None, 'since': time.time(), 'done': False})
    while any(not j['done'] for j in jobs):
        for j in jobs:
            if j['done']:
                continue
            if j['c'].poll(0.05):
                try:
                    r = j['c'].recv()
                except EOFError:
                    r = None
                j['done'] = True
                j['p'].join()
                if r is None:
                    code = j['p'].exitcode
                    b = read_beat(j['bf'])
                    errs.append(f'worker ended by {code} at {clip(b)}')
                    if b and code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                                      -signal.SIGILL, -signal.SIGFPE):
                        if try_case_alone(mod, prop, tier, b[0], b[1], 120).startswith('died'):
                            violations.append((b[0], b[1], f'the process died (signal {-code})'))
                    continue
                for k in ('evaluations', 'skips'):
                    tot[k] += r[k]
                tot['nontrivial'] |= r['nontrivial']
                tot['classes'] += r['classes']
                tot['known'] += r['known']
                for s in r['samples']:
                    if sum(1 for x in tot['samples'] if x['part'] == s['part']) < 3:
                        tot['samples'].append(s)
                tot['notes'] += [n for n in r['notes'] if n not in tot['notes']]
                for k, v in r['times'].items():
                    tot['times'][k] = max(tot['times'][k], v)
                if r['err']:
                    errs.append(r['err'])
                violations += r['found']
            else:
                b = read_beat(j['bf'])
                now = time.time()
                if b != j['beat']:
                    j['beat'], j['since'] = b, now
                elif b is not None and now - j['since'] > HANG:
                    # same case for minutes: once more, alone
                    res = try_case_alone(mod, prop, tier, b[0], b[1], 150)
                    if res.startswith('violation:'):  # shrinking it does not end
                        violations.append((b[0], b[1], res[10:]))
                    elif res == 'hang':
                        violations.append((b[0], b[1], 'no answer: the code under test '
                                           f'ran for over {HANG} s on this case'))
                    errs.append(f'worker stuck at {clip(b)} ({res})')
                    j['p'].kill()
                    j['p'].join()
                    j['done'] = True
            if violations:
                break
        if violations or time.time() - t0 > limit:
            # an alarm is an alarm: give the others a moment, then stop
            t1 = time.time()
            while time.time() - t1 < 3 and any(j['p'].is_alive() for j in jobs):
                time.sleep(0.1)
                for j in jobs:
                    if not j['done'] and j['c'].poll(0):
                        break
            if violations or time.time() - t0 > limit:
                for j in jobs:
                    if not j['done']:
                        if not violations:
                            errs.append('out of time')
                        j['p'].kill()
                        j['p'].join()
                        j['done'] = True
    for j in jobs:
        try:
            os.unlink(j['bf'])
        except OSError:
            pass
    try:
        os.rmdir(beats)
    except OSError:
        pass

    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed_of(), 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'],
            'distinct_nontrivial': len(tot['nontrivial']),
            'rule': mod.RULE,
            'samples': tot['samples'],
            'classes': dict(sorted(tot['classes'].items())),
            'outside_domain': tot['skips'],
            'regression_replays': nreg,
            'known_finding_hits': dict(tot['known']),
            'part_seconds': {k: round(v, 1) for k, v in tot['times'].items()},
            'notes': tot['notes'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
            fp.write('\n')

    for line in known_lines:
        print(line)
    if violations:
        seen = set()
        for part, case, msg in violations:
            if part in seen:
                continue
            seen.add(part)
            path = write_replay(prop, part, case, msg)
            print(f'  {part}: {msg[:1500]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errs:
        print('HARNESS ERROR', file=sys.stderr)
        for e in errs[:3]:
            print(e, file=sys.stderr)
        return 2
    print(f'{prop} held: {tot["evaluations"]} cases, {len(tot["nontrivial"])} distinct '
          f'non-trivial, {wall:.1f}s')
    if os.environ.get('BBS_VERBOSE'):
        for k, v in sorted(tot['classes'].items()):
            print('   ', k, v)
        print('   ', dict(tot['times']), 'skips', tot['skips'])
    return 0


def replay(mod, tier, path) -> int:
    with open(path) as fp:
        rec = json.load(fp)
    if getattr(mod, 'prepare', None):
        mod.prepare(tier)
    ctx = Ctx(mod.PROPERTY, tier)
    ctx.findings = []
    part = next(p for p in mod.parts(tier) if p.name == rec['part'])
    ctx.part = part.name
    try:
        judge(ctx, part, rec['case'])
    except Violation as v:
        print(f'  {part.name}: {v}')
        print(f'VIOLATION property={mod.PROPERTY} replay={path}')
        return 1
    print('the case holds')
    return 0
