"""The recurrence predictor against a list of sightings."""
import bridge
from common import Part, Skip, Violation

PROPERTY = 'C25'
RULE = ('histories of sightings and forgettings over one to four states.  Times follow x -> i*x + p + k*q for i from 0 to 6, with '
        'one value knocked off in a third of the cases, restarts in the middle, interleaved states, large values up to the integer '
        'range, and unrelated times.  The model keeps the sightings of each state since it was last forgotten and solves the recurrence '
        'over all five of the last ones.  Non-trivial: at least one prediction was due.')
ASSUMPTIONS = ['times and predicted differences fit 32 bits signed; a recurrence whose next times run backwards or whose differences do '
               'not fit is declined']
PastConfigs = None
TOP = 2 ** 31 - 1


def prepare(tier):
    global PastConfigs
    bridge.load_rust()
    from tm.rust_stuff import PastConfigs as P
    PastConfigs = P


def predict(xs):
    """xs: the last five sightings"""
    for i in range(1, 5):
        p = [b - i * a for a, b in zip(xs, xs[1:])]
        q = p[1] - p[0]
        if all(v - u == q for u, v in zip(p, p[1:])):
            x, out = xs[-1], []
            for k in range(1, 4):
                y = i * x + p[-1] + k * q
                out.append(y - x)
                x = y
            if min(out) < 0 or max(out) > TOP:
                return None
            return tuple(out)
    return None


def seq(rng, n):
    """n times"""
    fam = rng.random()
    if fam < .75:
        i = rng.choice([1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 0])
        big = rng.random() < .3
        x = rng.choice([0, 1, rng.randint(0, 50), rng.randint(0, 10 ** (7 if big else 4))])
        if i > 1 and big:
            x = rng.randint(0, 10 ** 6)
        p = rng.choice([0, 1, rng.randint(0, 40), rng.randint(-20, 500), rng.randint(0, 10 ** (6 if big else 4))])
        q = rng.choice([0, 0, 1, 2, rng.randint(-9, 30), rng.randint(0, 10 ** (6 if big else 3))])
        out = []
        for k in range(n):
            out.append(x)
            x = i * x + p + k * q
            if rng.random() < .02:
                x += rng.randint(1, 5)
            if rng.random() < .02:
                p, q = rng.randint(0, 50), rng.randint(0, 5)
        if rng.random() < .33:
            k = rng.randrange(n)
            out[k] += rng.choice([-2, -1, 1, 1, 2, 3])
    elif fam < .9:
        out, x = [], rng.randint(0, 30)
        for _ in range(n):
            out.append(x)
            x += rng.choice([0, 1, 1, 2, 3, rng.randint(0, 40)])
    else:
        t = rng.choice([10, 1000, TOP])
        out = [rng.randint(0, t) for _ in range(n)]
    return [min(max(v, 0), TOP) for v in out]


def history(rng):
    k = rng.choice([1, 1, 2, 2, 3, 4])
    n = rng.choice([5, 6, 8, 12, 20])
    runs = {s: seq(rng, n) for s in rng.sample([0, 1, 2, 3, 5, 7, 25, 2 ** 40], k)}
    ops = []
    while any(runs.values()):
        s = rng.choice([s for s, r in runs.items() if r])
        ops.append([s, runs[s].pop(0)])
        if rng.random() < .03:
            ops.append([rng.choice(list(runs)), None])
    if ops[0][1] is None:
        return None
    return {'ops': ops}


def check(ctx, case):
    ops = case['ops']
    if not ops or ops[0][1] is None:
        raise Skip
    s, t = ops[0]
    pc = PastConfigs(s, t)
    first = s            # the state it was made with, until forgotten
    seen = {s: [t]}
    due = 0
    known = None
    for k, (s, t) in enumerate(ops[1:], 1):
        if t is None:
            pc.delete_configs(s)
            seen.pop(s, None)
            if s == first:
                first = None
            continue
        seen.setdefault(s, []).append(t)
        got = pc.next_deltas(s, t)
        xs = seen[s]
        want = predict(xs[-5:]) if len(xs) >= 5 else None
        if want is not None:
            due += 1
        if got is None and want is None:
            ctx.cls('declined')
            continue
        if got is not None and want is not None and tuple(got) == want:
            ctx.cls('predicted')
            continue
        msg = (f'sighting {k} of state {s} at {t}: predicted {got}, should be {want}; '
               f'its sightings: {xs[-6:]}')
        if len(xs) == 4 and s != first and want is None and tuple(got) == predict([xs[0]] + xs):
            # told apart from other early answers, so that the rest of the history is still judged
            known = known or Violation(msg, key='first-sighting-counted-twice')
            continue
        raise Violation(msg)
    if due:
        ctx.nontrivial_case()
    if known:
        raise known


def shrink(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield {'ops': ops[:i] + ops[i + 1:]}
    for i, (s, t) in enumerate(ops):
        if t:
            for v in (t // 2, t - 1):
                yield {'ops': ops[:i] + [[s, v]] + ops[i + 1:]}


def small():
    """every history of six sightings of one state with times up to 8, and of two states"""
    import itertools
    for xs in itertools.combinations_with_replacement(range(0, 11), 6):
        yield {'ops': [[0, x] for x in xs]}


def parts(tier):
    q = tier == 'quick'
    return [Part('histories', 'rnd', history, check, 300_000 if q else 20_000_000, shrink=shrink),
            Part('small', 'enum', small, check, 0, shrink=shrink)]
