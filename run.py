#!/usr/bin/env python3
"""run.py <property>: decide one property of /repo's working tree.

VERIF_SEED and VERIF_TIER (quick, thorough) are read from the environment."""
import copy
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness  # noqa: E402
import selftest  # noqa: E402
from harness import CheckError  # noqa: E402
from gen import Gen, Texts, BOUNDARY, t, valid  # noqa: E402

MEM = {'kind': 'mem', 'alloc': 'seq'}
CLEW = {'kind': 'clew'}


def obs(*views):
    return [{'c': 'obs', 'v': v} for v in views]


def job(texts, runs):
    return {'texts': texts.list, 'runs': runs}


def storages(i):
    """Which storage the i-th run uses."""
    return [dict(MEM), dict(CLEW), dict(MEM, alloc='gap', seed=i + 1), dict(MEM, wide=True)][i % 4]


def shapes(i):
    """Storages that can be inspected and made to fail: they differ in order and numbers."""
    return [dict(MEM), dict(MEM, shuffle=-1), dict(MEM, alloc='gap', seed=i + 1), dict(MEM, shuffle=i + 1),
            dict(MEM, wide=True), dict(MEM, alloc='desc'), dict(MEM, alloc='perm', seed=i + 1)][i % 7]


def batches(make, total, size):
    for start in range(0, total, size):
        yield [make(i) for i in range(start, min(total, start + size))]


def sample(ctx, texts, steps):
    if len(ctx.samples) < 5:
        show = []
        for s in steps:
            d = {k: v for k, v in s.items() if k in ('c', 'h', 'v')}
            for k in ('o', 'p'):
                if s.get(k):
                    d[k] = ''.join(map(chr, texts.list[s[k] - 1]))[:60]
            show.append(d)
        ctx.samples.append(show[:12])


# histories used by the properties judged by Trace.tla ----------------------

def enumerated(ctx, g, depth, views='g', each=False, stores=False):
    texts = Texts()
    runs = []
    for i, sk in enumerate(ctx.histories(depth)):
        g.fresh()
        g.alphabet = [97, 98]
        ops = g.dress(texts, sk, views)
        steps = []
        for s in ops:
            steps.append(s)
            if each:
                steps += obs('g')
        steps += obs(*views)
        runs.append({'storage': storages(i) if stores else dict(MEM), 'steps': steps})
        if i in (7, 100):
            sample(ctx, texts, ops)
    ctx.add('enumerated_histories', len(runs))
    return job(texts, runs)


def randomised(ctx, g, n, lengths, profile=None, every=0.3, views='hgnk', via='hgnk', storage=storages, tail=()):
    n *= ctx.scale
    texts = Texts()
    runs = []
    for i in range(n):
        ops = g.history(texts, g.r.choice(lengths), profile, via)
        steps = []
        for s in ops:
            steps.append(s)
            if g.r.random() < every:
                steps += obs(g.r.choice(views))
            if g.r.random() < 0.07:
                steps.append({'c': 'reopen'})
        steps += obs(*views) + list(tail)
        runs.append({'storage': storage(i), 'steps': steps})
        if i < 3:
            sample(ctx, texts, ops)
    ctx.add('random_histories', n)
    return job(texts, runs)


LONG = ('facts', 'trees', 'remarks', 'roots', 'deep', 'same', 'spine')


def long_ops(g, texts, profile, n, via='hgk'):
    """A long history of one kind: limits that only a large story, tree, fact or graph meets."""
    g.fresh()
    g.alphabet = [97, 98, 99]
    w = {'facts': [0, 0, 1, 0], 'roots': [3, 1, 3, 2], 'trees': [0, 0, 0, 1], 'remarks': [0, 1, 0, 0],
         'deep': [0, 0, 0, 1], 'same': [1, 1, 1, 1], 'spine': [0, 1, 2, 4]}[profile]
    handles = {'deep': lambda n: n, 'spine': lambda n: max(1, n - g.r.choice([0, 0, 1, 5])), 'same': lambda n: g.r.choice([1, n, max(1, n // 2)])}
    ops = []
    for i in range(n):
        if profile == 'deep' and i == 2 * n // 3:
            # the way back up: second children, facts and remarks at every depth
            w, handles['deep'] = [0, 1, 2, 5], lambda n: g.r.randrange(1, n + 1)
        s = g.op(texts, i, w, via, handles.get(profile, (lambda n: 1) if g.r.random() < 0.5 else None))
        if profile == 'same' and ops:
            s['o'], s['p'] = 0 if s['c'] == 'ar' else ops[0]['o'], ops[0]['p']
        ops.append(s)
    return ops


def long_chain(ctx, g, profile, n, views='gnk', storage=None):
    texts = Texts()
    ops = long_ops(g, texts, profile, n)
    steps = []
    for i, s in enumerate(ops):
        steps.append(s)
        if i in (n // 3, 2 * n // 3):
            steps += obs('g')
    ctx.add('long_histories', 1)
    return job(texts, [{'storage': storage or dict(MEM), 'steps': steps + obs(*views)}])


def very_long(ctx, g, kinds, n):
    """Very long histories, read back in part: the operations are recorded in one piece."""
    texts = Texts()
    runs = []
    for k, profile in enumerate(kinds):
        some = lambda v: [dict(s, max=48, seed=n + k) for s in obs(v)]
        ops = long_ops(g, texts, profile, n, 'g')
        if profile == 'trees':
            for s in ops[1:]:
                s['h'] = 1 if g.r.random() < 0.98 else s['h']
        runs.append({'storage': dict(MEM, shuffle=k), 'bulk': True, 'steps': ops[:n // 2] + some('g') + ops[n // 2:] + some('g') + some('n')})
    ctx.add('very_long_histories', len(runs))
    return job(texts, runs)


def long_runs(ctx, g, texts, n, each, storage):
    """One long history of every kind, each operation followed by what `each` gives."""
    out = []
    for k, profile in enumerate(LONG):
        steps = []
        for i, s in enumerate(long_ops(g, texts, profile, n)):
            steps.append(s)
            steps += each(i)
        out.append({'storage': storage(k), 'steps': steps})
    ctx.add('long_histories', len(out))
    return out


def busy(n):
    """Everything read n times over on the graph that is open."""
    return [{'c': 'busy', 'max': n}]


def busy_runs(ctx, g, texts, n=None):
    """Graphs that are kept open and read thousands of times before the next operation."""
    n = n or ctx.pick(150, 400)
    out = []
    for k, profile in enumerate((None, 'facts', 'trees', 'remarks')):
        ops = g.history(texts, 16, profile, 'hgk')
        steps = ops[:10] + busy(n)
        for s in ops[10:]:
            steps += [s] + busy(n // 10)
        out.append({'storage': [dict(MEM), dict(MEM, shuffle=-1), dict(MEM, wide=True), dict(MEM, alloc='gap', seed=3)][k], 'steps': steps})
    ctx.add('busy_runs', len(out))
    return out


def interrupted(g, texts, j, p, every=()):
    """The same scripts with operations interrupted in between, most of them repeated."""
    for r in j['runs']:
        steps, n = [], 0
        for s in r['steps']:
            if s['c'] in OPS and (n > 0 or s['c'] == 'cs') and g.r.random() < p:
                if g.r.random() < 0.6:
                    bad = dict(s)
                else:
                    o, q = g.pair()
                    bad = {'c': g.r.choice(OPS) if n else 'cs', 'h': g.r.randrange(1, n + 1) if n else 0, 'o': texts.id(o), 'p': texts.id(q)}
                steps.append(dict(bad, c='hit', v=bad['c'], modes=g.r.choice(['crash', 'err', 'lost']), seed=g.r.randrange(1 << 30)))
                steps += every
            n += s['c'] in OPS
            steps.append(s)
        r['steps'] = steps
    return j


OPS = ('cs', 'ar', 'af', 'cc')


def told_part(j, run, upto):
    """Split a run after its operation number upto: what was told by then, and what is left to do."""
    told, n, at = [], 0, 0
    for i, s in enumerate(run['steps']):
        if s['c'] in OPS:
            n += 1
            if n > upto(s, n):
                break
            told.append({'c': s['c'], 'h': s.get('h', 0), 'o': s['o'], 'p': s['p']})
            at = i + 1
    for e in told:
        for k in ('o', 'p'):
            if e[k] and not wellformed(j['texts'][e[k] - 1]):
                return None
    if sum(len(j['texts'][e[k] - 1]) for e in told for k in ('o', 'p') if e[k]) > 150:
        return None
    return told, run['steps'][at:]


def wellformed(text):
    return len(text) > 0 and all(Gen.split(tuple(text)))


def half_told(ctx, g, j, n, renum=True, most=10):
    """Runs that go on from stores written by the specification (Golden.tla) instead of
    telling everything themselves; in these stores all remarks of a fact are linked."""
    n *= ctx.scale
    texts, out, tolds = j['texts'], [], []
    picks = g.r.sample(range(len(j['runs'])), len(j['runs']))
    for i in picks:
        if len(out) >= n:
            break
        r = j['runs'][i]
        ops = sum(s['c'] in OPS for s in r['steps'])
        if ops < 1:
            continue
        cut = g.r.randrange(1, min(ops, most) + 1)
        part = told_part(j, r, lambda s, k: cut)
        if part is None or not part[0]:
            continue
        out.append(load_into(r, part, g, renum))
        tolds.append(part[0])
    return stored(ctx, texts, out, tolds)


def load_into(r, part, g, renum):
    st = {k: v for k, v in r['storage'].items() if k != 'kind'}
    st.update(kind='mem')
    st['load'] = {'renum': g.r.randrange(1, 1 << 30) if renum and g.r.random() < 0.6 else 0}
    return {'storage': st, 'steps': copy.deepcopy(part[1])}


def stored(ctx, texts, out, tolds):
    stores = ctx.golden(texts, tolds) if tolds else []
    for r, st, ops in zip(out, stores, tolds):
        r['storage']['load'].update(st, ops=ops)
    ctx.add('golden_stores', len(out))
    return {'texts': texts, 'runs': out}


def twins_half_told(ctx, g, texts, runs, pairs, n):
    """The same for pairs of runs: both start from the same told part."""
    groups = {}
    for p in pairs:
        groups.setdefault(p['a'], []).append(p)
    out, tolds, ids, more = [], [], {}, []
    j = job(texts, runs)
    for a in g.r.sample(sorted(groups), min(n, len(groups))):
        marks = [s['m'] for s in runs[a - 1]['steps'] if s['c'] in OPS]
        if not marks:
            continue
        last = g.r.choice(marks[:10])
        parts = {}
        for r in {a} | {p['b'] for p in groups[a]}:
            parts[r] = told_part(j, runs[r - 1], lambda s, k: k if s['m'] <= last else 0)
        if any(x is None for x in parts.values()):
            continue
        for r, part in parts.items():
            if part[0]:
                out.append(load_into(runs[r - 1], part, g, True))
                tolds.append(part[0])
            else:
                out.append({'storage': dict(runs[r - 1]['storage']), 'steps': copy.deepcopy(part[1])})
                tolds.append(None)
            ids[r] = len(out)
        more += [{'a': ids[p['a']], 'b': ids[p['b']], 'map': p['map']} for p in groups[a]]
    given = [(r, tl) for r, tl in zip(out, tolds) if tl]
    stored(ctx, texts.list, [r for r, _ in given], [tl for _, tl in given])
    twins(ctx, more, texts, out)


def merge(jobs):
    texts = Texts()
    runs = []
    for j in jobs:
        ids = [texts.id(x) for x in j['texts']]
        for r in j['runs']:
            r = dict(r, steps=[copy.deepcopy(s) for s in r['steps']], storage=copy.deepcopy(r['storage']))
            for s in r['storage'].get('load', {}).get('ops', []):
                for k in ('o', 'p'):
                    if s.get(k):
                        s[k] = ids[s[k] - 1]
            for s in r['steps']:
                for k in ('o', 'p'):
                    if s.get(k):
                        s[k] = ids[s[k] - 1]
                for f in s.get('then', []):
                    for k in ('o', 'p'):
                        if f.get(k):
                            f[k] = ids[f[k] - 1]
            runs.append(r)
    return job(texts, runs)


def structural(ctx, profile, env=None, views='hgnk'):
    """Enumerated, random and long histories, judged by Trace.tla."""
    g = Gen(ctx.seed * 7919 + len(profile))
    ctx.check('Trace', enumerated(ctx, g, 4, views='hgnk', each=True, stores=True), env=env)
    if ctx.thorough():
        ctx.check('Trace', enumerated(ctx, g, 5, views='gn'), env=env)
    jobs = [randomised(ctx, g, ctx.pick(60, 400), [4, 6, 8, 10, 12, 14], profile, views=views),
            randomised(ctx, g, ctx.pick(40, 300), [5, 7, 9, 12, 16], None, views=views),
            long_chain(ctx, g, profile, ctx.pick(40, 90)),
            long_chain(ctx, g, profile, ctx.pick(1100, 2200)),
            long_chain(ctx, g, profile, ctx.pick(25, 60), storage=dict(CLEW))]
    jobs += [long_chain(ctx, g, k, ctx.pick(450, 700), storage=storages(i)) for i, k in enumerate(LONG)]
    jobs.append(half_told(ctx, g, merge(jobs[:2]), ctx.pick(60, 200)))
    jobs.append(golden_long(ctx, g, ctx.pick(220, 500), sorted({profile, 'remarks', 'facts'})))
    jobs.append(very_long(ctx, g, [profile], ctx.pick(4200, 9000)))
    if ctx.prop == 'C08':
        # a fact with very many remarks, which makes a very long text
        jobs.append(golden_long(ctx, g, ctx.pick(1100, 2100), ['remarks'], ('ab ' * 10 + 'b', 'ab ' * 10 + 'ba'), 8))
        jobs.append(golden_long(ctx, g, ctx.pick(220, 500), ['remarks'], [x for x in NOTATION]))
    texts = Texts()
    jobs.append(job(texts, busy_runs(ctx, g, texts)))
    if ctx.prop == 'C08':
        jobs.append(job(texts, [{'storage': storages(i), 'steps': ops + obs('g')} for i, ops in enumerate(large_vocabularies(ctx, texts))]))
    ctx.check('Trace', merge(jobs), env=env)
    if ctx.thorough():
        for k in range(6):
            ctx.check('Trace', randomised(ctx, g, 300, [6, 9, 12, 16, 20, 26], profile if k % 2 else None, views=views), env=env)


# texts -----------------------------------------------------------------------

def c01(ctx):
    g = Gen(ctx.seed * 104729 + 1, big=True)
    jobs = [randomised(ctx, g, ctx.pick(160, 500), [1, 2, 3, 4, 6, 9], None, every=0.15)]
    # systematic: every boundary code point, alone and in context, all in one graph
    texts = Texts()
    steps = []
    pts = [c for c in BOUNDARY if valid(c)]
    for i, c in enumerate(pts):
        o, p = (c,), (97, c, 98, 32, c, c)
        steps.append({'c': 'cs' if i % 3 == 0 else ('af' if i % 3 == 1 else 'cc'), 'h': max(1, i - 1), 'o': texts.id(o), 'p': texts.id(p), 'v': 'g'})
    jobs.append(job(texts, [{'storage': s, 'steps': steps + obs('h', 'g')} for s in (dict(MEM), dict(CLEW))]))
    # every code point that is a binary prefix of another one, longest first and shortest first
    texts = Texts()
    runs = []
    for top in (0x10ffff, 0x1f64f, 0x4e2d, 0xffff, 0x7ff, 0x61, 0xc2, 0xd7ff):
        fam = [top >> k for k in range(21) if valid(top >> k)]
        for order in (fam, fam[::-1]):
            steps = [{'c': 'cs', 'o': texts.id((c,)), 'p': texts.id((c, c)), 'v': 'g'} for c in order]
            runs.append({'storage': dict(MEM), 'steps': steps + obs('g')})
    jobs.append(job(texts, runs))
    # long words, long phrases, many texts sharing one beginning
    texts = Texts()
    runs = []
    for n in ctx.pick([64, 127, 128, 255, 256, 257, 600, 1025, 2100], [64, 255, 256, 257, 1023, 1024, 1025, 2500, 5000]):
        w = tuple(97 + (i * i + i // 7) % 5 for i in range(n))
        ph = ()
        for i in range(n // 2):
            ph += ((32,) if i else ()) + tuple(97 + ((i >> b) & 1) for b in range(1 + i % 6))
        runs.append({'storage': dict(MEM), 'steps': [{'c': 'cs', 'o': texts.id(w), 'p': texts.id(ph), 'v': 'g'},
                     {'c': 'af', 'h': 1, 'o': texts.id(ph), 'p': texts.id(w[:-1]), 'v': 'g'},
                     {'c': 'cc', 'h': 1, 'o': texts.id(w[1:]), 'p': texts.id(w + (98,)), 'v': 'g'}] + obs('g')})
    many = [tuple(97 + ((i >> b) & 1) for b in range(1 + i % 7)) for i in range(90)]
    steps = [{'c': 'cs', 'o': texts.id(many[i]), 'p': texts.id(many[-1 - i] + (32,) + many[(i * 7) % 90]), 'v': 'g'} for i in range(90)]
    runs.append({'storage': dict(MEM), 'steps': steps + obs('g')})
    # one object with many properties and one property with many objects
    steps = [{'c': 'cs', 'o': texts.id(t('x')), 'p': texts.id(t('p%d' % i)), 'v': 'g'} for i in range(45)]
    steps += [{'c': 'af', 'h': 1, 'o': texts.id(t('p%d' % i)), 'p': texts.id(t('x')), 'v': 'g'} for i in range(45)]
    runs.append({'storage': dict(MEM), 'steps': steps + obs('g')})
    runs += [{'storage': storages(i), 'steps': ops + obs('g')} for i, ops in enumerate(hubs(texts, ctx.pick(150, 400)))]
    runs += busy_runs(ctx, g, texts)
    runs += [{'storage': storages(i), 'steps': ops + obs('g')} for i, ops in enumerate(large_vocabularies(ctx, texts))]
    jobs.append(job(texts, runs))
    ctx.add('systematic_runs', len(runs) + 18)
    jobs.append(half_told(ctx, g, jobs[0], ctx.pick(50, 150)))
    ctx.check('Trace', merge(jobs))
    if ctx.thorough():
        for _ in range(8):
            ctx.check('Trace', randomised(ctx, g, 400, [1, 2, 4, 6, 9, 14], None, every=0.1))


def c02(ctx):
    g = Gen(ctx.seed * 15485863 + 2, big=True)
    jobs = [randomised(ctx, g, ctx.pick(220, 700), [2, 4, 6, 9, 12, 18], None, every=0.0, views='g'),
            long_chain(ctx, g, 'facts', ctx.pick(70, 200), views='g'), long_chain(ctx, g, 'trees', ctx.pick(70, 200), views='g'),
            long_chain(ctx, g, 'remarks', ctx.pick(70, 200), views='g'), long_chain(ctx, g, 'facts', 40, views='g', storage=dict(CLEW))]
    # limits that only a large story, tree or fact meets
    jobs += [long_chain(ctx, g, k, ctx.pick(1100, 2200), views='g') for k in LONG]
    texts = Texts()
    jobs.append(job(texts, [{'storage': storages(i), 'steps': ops + obs('g')} for i, ops in enumerate(hubs(texts, ctx.pick(330, 700)) + large_vocabularies(ctx, texts))] + busy_runs(ctx, g, texts)))
    jobs.append(very_long(ctx, g, LONG, ctx.pick(2200, 5000)))
    texts = Texts()
    jobs.append(job(texts, [{'storage': storages(i), 'bulk': True, 'steps': ops + [dict(s, max=48, seed=i) for s in obs('g')]} for i, ops in enumerate(hubs(texts, ctx.pick(2200, 4000)))]))
    # refused statements in between must not spoil later well-formed ones
    jobs.append(with_malformed(ctx, g, ctx.pick(60, 300), views='g'))
    # every ordered pair of operations, with the same and with different texts
    texts = Texts()
    runs = []
    vals = [t('a'), t('a a'), t('ab'), t('b a')]
    for c1, c2, c3 in itertools.product(['ar', 'af', 'cc', 'cs'], repeat=3):
        for vi in range(3):
            steps = [{'c': 'cs', 'o': texts.id(vals[0]), 'p': texts.id(vals[vi]), 'v': 'h'}]
            for k, c in enumerate((c1, c2, c3)):
                steps.append({'c': c, 'h': [1, k + 1][vi % 2], 'o': texts.id(vals[(vi + k) % 4]), 'p': texts.id(vals[(vi * k) % 4]), 'v': 'hgn'[k]})
            runs.append({'storage': storages(vi), 'steps': steps})
    jobs.append(job(texts, runs))
    ctx.add('systematic_runs', len(runs))
    jobs.append(half_told(ctx, g, jobs[0], ctx.pick(60, 200)))
    ctx.check('Trace', merge(jobs))
    if ctx.thorough():
        ctx.check('Trace', enumerated(ctx, g, 5, views='g'))
        for _ in range(6):
            ctx.check('Trace', randomised(ctx, g, 500, [4, 8, 14, 22, 30], None, every=0.0, views='g'))


def with_malformed(ctx, g, n, views='g', p=0.45, probe=False, lengths=(3, 4, 6, 8)):
    n *= ctx.scale
    texts = Texts()
    runs = []
    for i in range(n):
        ops = g.history(texts, g.r.choice(lengths), None, 'hgnk')
        good = 0
        slot = 0
        real = []
        steps = []
        for s in ops:
            # slots are numbered over all attempts; remember which one holds what
            if 'h' in s:
                s['h'] = real[s['h'] - 1]
            if good and g.r.random() < p or (not good and g.r.random() < 0.25):
                for _ in range(g.r.choice([1, 1, 1, 2, 3])):
                    bad = dict(s, c=g.r.choice(['cs', 'ar', 'af', 'cc']) if good else 'cs')
                    if bad['c'] != 'cs':
                        bad['h'] = g.r.choice(real)
                    o, q = g.pair()
                    kind = g.r.random()
                    if kind < 0.4 and bad['c'] != 'ar':
                        o = g.malformed()
                    elif kind < 0.9:
                        q = g.malformed()
                    else:
                        o, q = g.malformed(), g.malformed()
                    bad['o'] = 0 if bad['c'] == 'ar' else texts.id(o)
                    bad['p'] = texts.id(q)
                    steps += (obs('g') if good else []) + [bad]
                    slot += 1
                    if good:
                        steps += obs('g')
                    if probe and g.r.random() < 0.3:
                        steps.append({'c': 'probe'})
            steps.append(s)
            slot += 1
            real.append(slot)
            good += 1
        steps += obs(*views)
        if probe:
            steps.append({'c': 'probe'})
        runs.append({'storage': dict(MEM) if probe else storages(i), 'steps': steps})
        if i < 3:
            sample(ctx, texts, [s for s in steps if s['c'] != 'obs'])
    ctx.add('histories_with_malformed_statements', n)
    return job(texts, runs)


def c03(ctx):
    g = Gen(ctx.seed * 32452843 + 3)
    jobs = [with_malformed(ctx, g, ctx.pick(110, 500), probe=True, p=0.6), with_malformed(ctx, g, ctx.pick(60, 300), p=0.6)]
    # the shapes of malformed text, systematically, for every operation and position
    texts = Texts()
    runs = []
    for r in busy_runs(ctx, g, texts):
        bad = [{'c': 'cs', 'o': texts.id(g.malformed()), 'p': texts.id(g.malformed())} for _ in range(ctx.pick(60, 200))]
        runs.append(dict(r, steps=r['steps'] + obs('b') + bad + busy(5)))
    bads = [(), (32,), (32, 32), t(' a'), t('a '), t('a  b'), t('a b '), t(' a b'), t('a b  c'), t('  a'), t('b  '), (32, 0x4e2d), (0x4e2d, 32),
            t('a b  '), t('zzz  a'), t('a   b'), (0x1f600, 32, 32, 0x1f600)]
    for bad in bads:
        for known in (False, True):
            steps = [{'c': 'cs', 'o': texts.id(t('a')), 'p': texts.id(t('a b') if known else t('q')), 'v': 'h'},
                     {'c': 'af', 'h': 1, 'o': texts.id(t('b')), 'p': texts.id(t('a')), 'v': 'h'}] + obs('g')
            for c in ('cs', 'ar', 'af', 'cc'):
                for pos in ('o', 'p', 'op'):
                    if c == 'ar' and 'o' in pos:
                        continue
                    steps.append({'c': c, 'h': 2, 'v': 'h', 'o': 0 if c == 'ar' else texts.id(bad if 'o' in pos else t('a')), 'p': texts.id(bad if 'p' in pos else t('b'))})
                    steps += obs('g')
            steps += [{'c': 'probe'}]
            runs.append({'storage': dict(MEM), 'steps': steps})
        # as the very first statement of a graph
        runs.append({'storage': dict(MEM), 'steps': [{'c': 'cs', 'o': texts.id(bad), 'p': texts.id(t('a')), 'v': 'h'},
                     {'c': 'cs', 'o': texts.id(t('a')), 'p': texts.id(bad), 'v': 'h'}, {'c': 'probe'},
                     {'c': 'cs', 'o': texts.id(t('a')), 'p': texts.id(t('a')), 'v': 'h'}, {'c': 'probe'}] + obs('g')})
    # the same in long texts: known up to there, or not
    a, b = texts.id(t('a')), texts.id(t('b'))
    for n in ctx.pick([20, 66, 140, 270, 600], [20, 66, 140, 270, 600, 1100]):
        for known in (False, True):
            steps = [{'c': 'cs', 'o': a, 'p': b, 'v': 'h'}]
            if known:
                good = tuple(c for i in range(n) for c in (97 + i % 3, 32))[:-1]
                steps += [{'c': 'af', 'h': 1, 'v': 'h', 'o': texts.id(good), 'p': texts.id((97,) * n)}]
            for i, bad in enumerate(long_malformed(n)):
                x = texts.id(bad)
                steps += [dict({'c': 'cs', 'v': 'h'}, **[{'o': x, 'p': a}, {'o': b, 'p': x}][i % 2]), {'c': ['af', 'cc', 'ar'][i % 3], 'h': 1, 'v': 'h', 'o': b if i % 3 < 2 else 0, 'p': x}] + obs('g')
            runs.append({'storage': dict(MEM), 'steps': steps + [{'c': 'probe'}]})
    ctx.add('systematic_runs', len(runs))
    jobs.append(job(texts, runs))
    jobs.append(half_told(ctx, g, jobs[0], ctx.pick(40, 150)))
    ctx.check('Trace', merge(jobs))
    if ctx.thorough():
        for _ in range(6):
            ctx.check('Trace', with_malformed(ctx, g, 400, probe=True, p=0.7))


def long_malformed(n):
    """Texts of n words with an empty one at the start, inside, or at the end."""
    word = lambda i: (97 + i % 3,)
    words = [word(i) for i in range(n)]
    sep = lambda ws: tuple(c for w in ws for c in w + (32,))[:-1]
    out = [sep(words[:i] + [()] + words[i:]) for i in (0, 1, n // 2, n - 1, n)]
    return out + [(97,) * n + (32,), (32,) + (97,) * n, (97,) * n + (32, 32) + (97,) * n, (32,) * n]


def hubs(texts, n):
    """Histories in which one text, word or beginning is used very often."""
    out = []
    many = [((0x4e00 + i // 2,) if i % 2 else tuple(97 + ((i >> b) & 1) for b in range(n.bit_length()))) for i in range(n)]
    for hub in (t('x'), t('hub x')):
        out.append([q for w in many for q in ((hub, w), (w, hub))] + [(hub, hub)])
    for sep in ((), (32,)):
        cont = [(97,) + sep + (c,) for c in range(0x100, 0x100 + n)]
        out.append([(c, c[::-1]) for c in cont + cont[::-7]])
    ops = []
    for i, pairs in enumerate(out):
        ops.append([{'c': 'cs' if k == 0 else ['af', 'cs', 'cc'][(i + k) % 3], 'h': 1, 'o': texts.id(o), 'p': texts.id(p), 'v': 'g'} for k, (o, p) in enumerate(pairs)])
    return ops


def very_long_texts(ctx, texts):
    """Words of very many characters and phrases of very many words, that part late or never."""
    out = []
    for sep, n in (((), ctx.pick(540, 1100)), ((32,), ctx.pick(280, 540))):
        def text(m, end=()):
            cs = [97 + (k * k + k // 3) % 2 for k in range(m)] + list(end)
            return tuple(x for k, c in enumerate(cs) for x in ((sep if k else ()) + (c,)))
        many = [text(n), text(n - 10, (99,)), text(n // 2 + 5, (99, 97)), text(n // 2 + 5), text(n - 260), text(n, (97,))]
        out.append([{'c': 'cs' if k == 0 else ['af', 'cc', 'cs'][k % 3], 'h': 1, 'o': texts.id(o), 'p': texts.id(many[(k * 5 + 1) % len(many)]), 'v': 'g'} for k, o in enumerate(many)])
    ctx.add('very_long_texts', len(out))
    return out


def wide_base(texts, n):
    """A graph with a long story, many children, and words, phrases and pairs that go on in many ways."""
    id = lambda *ws: texts.id(tuple(c for i, w in enumerate(ws) for c in ((32,) if i else ()) + tuple(w)))
    c = lambda i: (0x100 + 3 * i,)
    a, hub = t('a'), t('hub')
    ops = [{'c': 'cs', 'o': id(hub), 'p': id(t('b'))}]
    for i in range(n):
        ops.append({'c': 'af', 'h': 1 if i % 4 else len(ops), 'o': id(a, c(i)), 'p': id(t('b'))})
        ops.append({'c': 'cc', 'h': 1, 'o': id(a + c(i)), 'p': id(hub)})
        ops.append({'c': 'ar', 'h': 1, 'o': 0, 'p': id(c(i))})
        ops.append({'c': 'cs', 'o': id(a), 'p': id(a * (i + 1))})
    return [dict(s, v='g') for s in ops]


def wide_trials(texts, n, ops):
    """Operations on that graph which go through all of it: [c, h, o, p]."""
    id = lambda x: texts.id(t(x))
    new, known = chr(0x4000), chr(0x100 + 3 * (n - 1))
    last = lambda c: max(i + 1 for i, s in enumerate(ops) if s['c'] == c)
    return [('af', 1, id('a ' + new), id('b')), ('af', 1, id('hub'), id('a' + new)), ('cc', 1, id('a' + known), id('a ' + known)),
            ('cc', 1, id('hub'), id(new)), ('ar', 1, 0, id(new)), ('ar', 1, 0, id(known)), ('cs', 0, id('a'), id('a' * n + 'b')),
            ('af', last('cc'), id('a'), id('a' * n)), ('cc', last('cc'), id('b'), id('hub')), ('ar', last('cs'), 0, id('a ' + known + ' x'))]


def confusable():
    """Words of every length that differ from each other in one place, in order, or in bytes only."""
    out = []
    for n in (2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 25, 32, 33, 48, 64, 65, 128, 130):
        w = [97 + (i * i + 3 * i + i // 5) % 20 for i in range(n)]
        kin = [w, w[::-1], w[1:] + w[:1], w[:-1], w + w[-1:], w[:n // 2] + w[n // 2 - 1:]]
        for i in {0, 1, n // 3, n // 2, n - 2, n - 1}:
            for d in (1, 32, 256):
                kin.append(w[:i] + [w[i] + d] + w[i + 1:])
            if i + 1 < n:
                kin.append(w[:i] + [w[i + 1], w[i]] + w[i + 2:])
                kin.append(w[:i] + [w[i] + 1, w[i + 1] - 1] + w[i + 2:])
                kin.append(w[:i] + [w[i] + 1] + w[i + 1:n - 1] + [w[-1] - 1])
                # two letters of one byte against one letter of two
                kin.append(w[:i] + [w[i] + 256] + w[i + 2:])
        out.append([tuple(k) for k in dict.fromkeys(map(tuple, kin))])
    return out


# words that common short hashes do not tell apart: crc32, adler32, fnv1, fnv1a, times 31, times 33
SAME_HASH = ('iafrfnd ngiqom fyiypr ufkwikm vyhoqbr wmawor aafycpn aalqjbw aalbpq aamaor ezdwakpd fuqgneim gbvogll onsjvzhw jrzbdw partvz '
             'jmqvimf peverws becwpylt rtnipta lmuecf xggcxdch gmmhlfp oggfbksh kotpqr slnhksjp aaorsbvm vrxjlny dbufsyhr fmdlcbtk havjjfxv mdwzotb').split()


def same_joined():
    """Pairs of texts that become one and the same text when they are put together in some way."""
    out = []
    for sep in ('', ' ', '|', ':', '/', ',', '-', '_', '\t', '\n', '\0', '\x1f', '->', '=', ';', '.', '#', '@'):
        whole = ['a', 'b', 'a', 'b', 'b']
        for k in range(1, len(whole)):
            out.append((t(sep.join(whole[:k])), t(sep.join(whole[k:]))))
    return list(dict.fromkeys(out))


# words that mean something to a format, an escape, a pattern, a path, a number parser or a markup
NOTATION = [chr(c) for c in range(33, 127)] + [
    '%s', '%d', '%v', '%%', '%!', '%20', '%x%x', '\\n', '\\', '\\\\', '\\x00', '\\u0061', '\\0', '"', '""', '"a"', "'a'", '`a`', '<a>', '&lt;', '&amp;',
    '{{.}}', '{}', '{0}', '$1', '${a}', '$', '#a', '//', '/*', '--', ';', 'a=b', 'a:b', 'a,b', 'a|b', '[a]', '(a)', '.*', '^a', 'a$', '?', '!', '..',
    '../a', '/', 'C:', '~', 'nil', 'null', 'NULL', 'true', 'false', 'NaN', 'Inf', '0', '-1', '00', '1', '01', '1e3', '0x1f', '+1', '1.0', '\t', '\r\n', '\n',
    '\0', '\0a', 'a\0', 'a\nb', '\x1b[0m', '\ufeffa', 'a\u0301', '\u00e1', '\ufffd', '\u200b', '\u202ea', 'EOF', 'EOT', '\x04', '\x1a', '_', '__', '-', '@a', '*', 'a*']


def crosses():
    """An object of a properties and a property of b objects, that have one pair in common, told first,
    in between or last, and told again."""
    out = []
    for a in range(1, 6):
        for b in range(1, 6):
            pairs = []
            for at in (0, 1, 2):
                name = lambda k: t('%s%d%d%d' % (k, a, b, at))
                x, p = name('o'), name('p')
                more = [(x, t('q%d ' % k) + p) for k in range(a - 1)] + [(t('u%d ' % k) + x, p) for k in range(b - 1)]
                more = more[at::2] + more[:at] + more[at + 1::2]
                cut = len(more) * at // 2
                told = more[:cut] + [(x, p)] + more[cut:]
                pairs += told + [(x, p)] + told[::-1]
            out.append(pairs)
    return [sum(out[i::7], []) for i in range(7)]


def large_vocabularies(ctx, texts):
    """Many different characters, many different words; words and phrases of every length."""
    n = ctx.pick(1, 2)
    pts = [c for c in range(0x21, 0x110000, 1613 // n) if valid(c)] + list(range(0x3b1, 0x3b1 + 40 * n))
    chars = [(tuple(pts[i:i + 6]), tuple(pts[i + 3:i + 9])) for i in range(0, len(pts) - 9, 6)]
    some = ['%s%s%s' % (a, b, c) for a in 'bdfgk' for b in 'aeiou' for c in ('', 'n', 'r', 'st', 'nd', 'm', 'll')]
    words = [(t(some[i] + ' ' + some[(i * 7 + 3) % len(some)]), t(some[-1 - i] + some[i] + ' x')) for i in range(len(some))]
    lengths = [(tuple(97 + (k * k + k // 5) % 7 for k in range(i)), t(' '.join('ab'[(k * k + k // 3) % 2] for k in range(i)))) for i in range(1, 71 * n)]
    out = []
    alike = [[(t('x ') + a, t('x y ') + b + t(' z')) for a, b in zip(kin, kin[::-1])] for kin in confusable()]
    hashed = [(t(a), t('x ' + b)) for a, b in zip(SAME_HASH, SAME_HASH[1:] + SAME_HASH[:1])] + [(t('x'), t(a)) for a in SAME_HASH] + [(t(a), t('x')) for a in SAME_HASH]
    written = [t(x) for x in NOTATION]
    noted = [(written[i], written[-1 - i] + (32,) + written[(i * 5 + 2) % len(written)]) for i in range(len(written))]
    for pairs in [noted, chars, words, lengths, lengths[::-1], hashed, same_joined(), same_joined()[::-1]] + alike + crosses():
        out.append([{'c': 'cs' if k == 0 else ['af', 'cs', 'cc', 'af'][k % 4], 'h': 1, 'o': texts.id(o), 'p': texts.id(p), 'v': 'g'} for k, (o, p) in enumerate(pairs)])
    ctx.add('large_vocabularies', len(out))
    return out


def c04(ctx):
    g = Gen(ctx.seed * 49979687 + 4)

    def runs(n, lengths):
        n *= ctx.scale
        texts = Texts()
        out = []
        for i in range(n):
            ops = g.history(texts, g.r.choice(lengths), None, 'hgnk')
            slots = len(ops)
            steps = []
            for s in ops:
                steps.append(s)
                if g.r.random() < 0.3:
                    steps.append({'c': 'count'})
                if g.r.random() < 0.1:
                    steps.append({'c': 'reopen'})
            # say some of it again: nothing of the vocabulary may be added
            for s in g.r.sample(ops, min(3, slots)):
                steps.append(dict(s, c='cs', o=s['o'] or s['p']))
                again = dict(s)
                if again['c'] != 'ar':
                    steps.append(again)
                steps.append({'c': 'count'})
            steps.append({'c': 'count'})
            out.append({'storage': storages(i), 'steps': steps})
            if i < 3:
                sample(ctx, texts, ops)
        ctx.add('random_histories', n)
        return job(texts, out)

    texts = Texts()
    sysruns = []
    # words and phrases that share beginnings, in both orders; repeated, swapped and equal pairs
    seqs = [['ab', 'abc', 'a', 'ab c', 'ab', 'c ab'], ['a b c', 'a b', 'a', 'a b c', 'b c'], ['x', 'x', 'x x', 'x x x'],
            ['\u00c2', 'a', '0', '\u0185', '\u00c2'], ['cat', 'cab', 'ca', 'tac', 'bac'], ['p q', 'q p', 'p q', 'q p']]
    for seq in seqs:
        for order in (seq, seq[::-1]):
            steps = []
            for o in order:
                for p in order:
                    steps.append({'c': 'cs', 'o': texts.id(t(o)), 'p': texts.id(t(p)), 'v': 'h'})
                    steps.append({'c': 'count'})
            for c in ('ar', 'af', 'cc'):
                for o in order:
                    steps.append({'c': c, 'h': 1, 'o': 0 if c == 'ar' else texts.id(t(o)), 'p': texts.id(t(o)), 'v': 'h'})
                    steps.append({'c': 'count'})
            sysruns.append({'storage': storages(len(sysruns)), 'steps': steps})
    # one object with many properties, one property with many objects, and the pairs again at the end
    n = ctx.pick(280, 600)
    for hub in (t('x'), t('hub x'), (0x4e2d,)):
        many = [((0x4e00 + i // 2,) if i % 2 else tuple(97 + ((i >> b) & 1) for b in range(n.bit_length()))) for i in range(n)]
        pairs = [q for w in many for q in ((hub, w), (w, hub + (33,)))]
        pairs.insert(len(pairs) // 2, (hub, hub + (33,)))
        steps = [{'c': 'cs', 'o': texts.id(o), 'p': texts.id(p), 'v': 'h'} for o, p in pairs] + [{'c': 'count'}]
        for o, p in [(hub, hub + (33,))] + pairs[::max(1, len(pairs) // 24)]:
            steps += [{'c': 'cs', 'o': texts.id(o), 'p': texts.id(p), 'v': 'h'}, {'c': 'count'}]
        sysruns.append({'storage': storages(len(sysruns)), 'steps': steps})
    # many continuations of one word and of one phrase, and all of them again
    for sep in ((), (32,)):
        cont = [(97,) + sep + (c,) for c in range(0x100, 0x100 + n)]
        steps = []
        for c in cont + cont[::-5]:
            steps.append({'c': 'cs', 'o': texts.id(c), 'p': texts.id(c[::-1] if not sep else c), 'v': 'h'})
        steps.append({'c': 'count'})
        sysruns.append({'storage': storages(len(sysruns)), 'steps': steps})
    for i, ops in enumerate(large_vocabularies(ctx, texts)):
        sysruns.append({'storage': storages(i), 'steps': ops + [{'c': 'count'}] + [dict(s, c='cs') for s in ops[::-3]] + [{'c': 'count'}]})
    for i, ops in enumerate(very_long_texts(ctx, texts)):
        sysruns.append({'storage': storages(i), 'steps': ops + [{'c': 'count'}] + [dict(s, c='cs') for s in ops] + [{'c': 'count'}]})
    ctx.add('systematic_runs', len(sysruns))
    j = runs(ctx.pick(120, 400), [2, 4, 6, 9, 12])
    ctx.check('Vocab', merge([j, job(texts, sysruns), half_told(ctx, g, j, ctx.pick(60, 200))]))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Vocab', runs(300, [6, 10, 16, 24]))


def c05(ctx):
    structural(ctx, 'facts')


def c06(ctx):
    structural(ctx, 'roots')


def c07(ctx):
    structural(ctx, 'trees')


def c08(ctx):
    structural(ctx, 'remarks')


def marked(steps):
    """Number the operations and observations of a script, so twins can be compared."""
    out = []
    for s in steps:
        s = dict(s)
        if s['c'] in ('cs', 'ar', 'af', 'cc', 'obs', 'busy'):
            s['m'] = len(out) + 1
        out.append(s)
    return out


def scripts(g, texts, length, profile=None, via='hgnk', every=0.3, views='gnk', end='gk'):
    steps = []
    for s in g.history(texts, length, profile, via):
        steps.append(s)
        if g.r.random() < every:
            steps += obs(g.r.choice(views))
    return steps + obs(*end)


def c09(ctx):
    g = Gen(ctx.seed * 67867967 + 9)

    def runs(n, lengths):
        n *= ctx.scale
        texts = Texts()
        out = []
        for i in range(n):
            steps = []
            for s in g.history(texts, g.r.choice(lengths), None, 'hgnk'):
                steps.append(s)
                if g.r.random() < 0.25:
                    steps += obs(*g.r.sample('hgnk', 2))
                if g.r.random() < 0.12:
                    steps.append({'c': 'probe'})
                if g.r.random() < 0.1:
                    steps.append({'c': 'reopen'})
            # the same remarks through the creating handle, by identifier, by navigation
            steps += obs('h', 'g', 'n', 'k') + [{'c': 'reopen'}, {'c': 'probe'}] + obs('g')
            out.append({'storage': dict(MEM, alloc=['seq', 'gap', 'perm', 'desc'][i % 4] if i % 3 == 0 else 'seq', seed=i + 1), 'steps': steps})
            if i < 3:
                sample(ctx, texts, steps)
        ctx.add('random_histories', n)
        return job(texts, out)
    j = runs(ctx.pick(90, 300), [2, 4, 6, 9, 12])
    texts = Texts()
    ctx.check('Trace', merge([j, job(texts, busy_runs(ctx, g, texts)), half_told(ctx, g, j, ctx.pick(60, 200)), with_malformed(ctx, g, ctx.pick(40, 200), probe=True),
                              randomised(ctx, g, ctx.pick(40, 200), [4, 8, 12], None, storage=lambda i: dict(CLEW), tail=obs('h', 'g', 'n', 'k'))]))
    ctx.check('Trace', enumerated(ctx, g, ctx.pick(4, 5), views='hgnk'))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Trace', runs(250, [6, 10, 16, 22]))


def twins(ctx, prop_pairs, texts, runs):
    ctx.add('pairs', len(prop_pairs))
    ctx.check('Twin', job(texts, runs), meta={'pairs': prop_pairs})


def c10(ctx):
    g = Gen(ctx.seed * 86028121 + 10)

    def batch(n, lengths):
        n *= ctx.scale
        texts = Texts()
        runs, pairs = [], []
        for i in range(n):
            steps = marked(scripts(g, texts, g.r.choice(lengths)))
            runs.append({'storage': storages(i), 'steps': steps})
            a = len(runs)
            if i < 3:
                sample(ctx, texts, steps)
            # reopened before everything; and at random moments
            for p in (1.0, 0.25):
                again = []
                for s in steps:
                    if g.r.random() < p:
                        again.append({'c': 'reopen'})
                    again.append(s)
                runs.append({'storage': storages(i), 'steps': again})
                pairs.append({'a': a, 'b': len(runs), 'map': []})
        twins(ctx, pairs, texts, runs)
        twins_half_told(ctx, g, texts, runs, pairs, n // 3)
    batch(ctx.pick(130, 300), [1, 2, 4, 6, 9, 12])
    # every history of the specification, reopened at every point; and long ones
    texts = Texts()
    runs, pairs = [], []
    for r in long_runs(ctx, g, texts, ctx.pick(70, 200), lambda i: obs('g') if i % 25 == 24 else [], storages):
        steps = marked(r['steps'] + obs('g'))
        runs.append(dict(r, steps=steps))
        a = len(runs)
        for p in (1.0, 0.1):
            runs.append(dict(r, steps=[x for s in steps for x in (([{'c': 'reopen'}] if g.r.random() < p else []) + [s])]))
            pairs.append({'a': a, 'b': len(runs), 'map': []})
    for r in busy_runs(ctx, g, texts):
        runs.append(dict(r, steps=marked(r['steps'])))
        runs.append(dict(r, steps=[x for s in runs[-1]['steps'] for x in (([{'c': 'reopen'}] if s['c'] == 'busy' else []) + [s])]))
        pairs += [{'a': a, 'b': b, 'map': []} for a, b in ((len(runs) - 1, len(runs)), (len(runs), len(runs) - 1))]
    for i, sk in enumerate(ctx.histories(ctx.pick(4, 5))):
        g.fresh()
        steps = marked(g.dress(texts, sk, 'hgnk') + obs('g'))
        runs.append({'storage': dict(MEM), 'steps': steps})
        runs.append({'storage': dict(MEM), 'steps': [x for s in steps for x in ({'c': 'reopen'}, s)]})
        pairs.append({'a': len(runs) - 1, 'b': len(runs), 'map': []})
    ctx.add('enumerated_histories', len(pairs))
    twins(ctx, pairs, texts, runs)
    if ctx.thorough():
        for _ in range(6):
            batch(250, [6, 10, 16, 24])


def c11(ctx):
    g = Gen(ctx.seed * 122949823 + 11)

    def runs(n, lengths, hit=False):
        n *= ctx.scale
        texts = Texts()
        out = []
        for i in range(n):
            steps = []
            for s in g.history(texts, g.r.choice(lengths), None, 'hgnk'):
                steps.append(s)
                if g.r.random() < 0.4:
                    v = g.r.choice('hgnk')
                    steps += obs(v, g.r.choice('hgnk'))
                if g.r.random() < 0.15:
                    steps.append({'c': 'probe'})
                if g.r.random() < 0.2:
                    steps += [{'c': 'reopen'}] + obs('g')
            steps += obs('h', 'n', 'k') + [{'c': 'probe'}, {'c': 'reopen'}, {'c': 'probe'}] + obs('g')
            out.append({'storage': dict(MEM, shuffle=[0, -1, i + 1][i % 3]), 'steps': steps})
            if i < 3:
                sample(ctx, texts, steps)
        ctx.add('random_histories', n)
        if hit:
            return interrupted(g, texts, job(texts, out), 0.4, obs('g') + obs('n') + [{'c': 'probe'}])
        return job(texts, out)
    j = runs(ctx.pick(130, 400), [1, 2, 4, 6, 9, 12])
    texts = Texts()
    long = long_runs(ctx, g, texts, ctx.pick(80, 250), lambda i: obs('hgnk'[i % 4]) + [{'c': 'probe'}] if i % 20 == 19 else [], shapes)
    ctx.check('Trace', merge([j, half_told(ctx, g, j, ctx.pick(60, 200)), runs(ctx.pick(50, 150), [2, 4, 6, 9], True), job(texts, long + busy_runs(ctx, g, texts))]))
    ctx.check('Trace', enumerated(ctx, g, ctx.pick(4, 5), views='hgnk', each=True))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Trace', runs(300, [6, 10, 16, 24]))


def c12(ctx):
    g = Gen(ctx.seed * 141650939 + 12)

    def runs(n, lengths, bad=False, hit=False):
        n *= ctx.scale
        if bad:
            j = with_malformed(ctx, g, n // ctx.scale, views='g', lengths=lengths)
            for r in j['runs']:
                r['storage'] = dict(shapes(g.r.randrange(7)), log=True)
                r['steps'] = [s for s in r['steps'] if s['c'] != 'reopen']
            return j
        texts = Texts()
        out = []
        for i in range(n):
            steps = []
            for s in g.history(texts, g.r.choice(lengths), None, 'hgnk'):
                steps.append(s)
                if g.r.random() < 0.4:
                    steps += obs('g')
                if g.r.random() < 0.1:
                    steps.append({'c': 'reopen'})
            out.append({'storage': dict(shapes(i), log=True), 'steps': steps + obs('g')})
            if i < 3:
                sample(ctx, texts, steps)
        ctx.add('random_histories', n)
        if hit:
            return interrupted(g, texts, job(texts, out), 0.4, obs('g'))
        return job(texts, out)
    j = runs(ctx.pick(110, 300), [1, 2, 4, 6, 9, 12])
    texts = Texts()
    long = long_runs(ctx, g, texts, ctx.pick(60, 150), lambda i: obs('g') if i % 20 == 19 else [], lambda i: dict(shapes(i), log=True))
    ctx.check('StoreTrace', merge([j, half_told(ctx, g, j, ctx.pick(50, 150)), runs(ctx.pick(40, 120), (3, 4, 6), True), runs(ctx.pick(60, 200), [2, 4, 6, 9], hit=True), job(texts, long)]))
    selftest.as_designed(ctx, dict(j, runs=[r for r in j['runs'] if r['storage'] == dict(MEM, log=True)]))
    j = enumerated(ctx, g, ctx.pick(4, 5), views='g', each=True)
    for r in j['runs']:
        r['storage']['log'] = True
    ctx.check('StoreTrace', j)
    if ctx.thorough():
        for _ in range(5):
            ctx.check('StoreTrace', runs(250, [6, 10, 16]))


READS = ['text', 'hnf', 'nf', 'ff', 'hns', 'ns', 'hnr', 'nr', 'story', 'get']


def c13(ctx):
    g = Gen(ctx.seed * 160481183 + 13)

    def batch(n, lengths, maxpts):
        n *= ctx.scale
        texts = Texts()
        runs = []
        for i in range(n):
            steps = []
            ops = g.history(texts, g.r.choice(lengths), None, 'g')
            for k, s in enumerate(ops):
                steps.append(s)
                if k < len(ops) - 1 and g.r.random() < 0.6:
                    continue
                warm = g.r.random() < 0.5
                for v in g.r.sample(READS, 4):
                    steps.append({'c': 'fault', 'v': v, 'h': g.r.randrange(1, k + 2), 'modes': 'err,part,from', 'max': maxpts, 'seed': g.r.randrange(1 << 30), 'warm': warm})
                f = g.op(texts, k + 1, [1, 1, 1, 1], 'g')
                steps.append({'c': 'fault', 'v': f['c'], 'h': f.get('h', 0), 'o': f['o'], 'p': f['p'], 'modes': 'err,lost,part,from',
                              'max': maxpts, 'seed': g.r.randrange(1 << 30), 'warm': warm})
            runs.append({'storage': shapes(len(runs)), 'steps': steps})
            if i < 3:
                sample(ctx, texts, ops)
        ctx.add('random_histories', n)
        return job(texts, runs)

    # every call on every kind of remark, every storage call failed
    texts = Texts()
    a, b, ab = texts.id(t('a')), texts.id(t('b')), texts.id(t('a b'))
    base = [{'c': 'cs', 'o': a, 'p': b, 'v': 'g'}, {'c': 'af', 'h': 1, 'o': b, 'p': a, 'v': 'g'}, {'c': 'af', 'h': 2, 'o': ab, 'p': a, 'v': 'g'},
            {'c': 'ar', 'h': 2, 'o': 0, 'p': b, 'v': 'g'}, {'c': 'cc', 'h': 1, 'o': a, 'p': ab, 'v': 'g'}, {'c': 'cc', 'h': 2, 'o': b, 'p': b, 'v': 'g'},
            {'c': 'cc', 'h': 5, 'o': b, 'p': ab, 'v': 'g'}, {'c': 'cs', 'o': a, 'p': b, 'v': 'g'}]
    runs = []
    new = texts.id(t('\u4e2d \u00c2'))
    for warm in (False, True):
        for h in range(1, 9):
            runs.append({'storage': shapes(len(runs)), 'steps': base + [{'c': 'fault', 'v': v, 'h': h, 'modes': 'err,part,from', 'warm': warm} for v in READS]})
            for c in ('cs', 'ar', 'af', 'cc'):
                for o, p in ((a, b), (ab, ab), (new, a), (a, new)):
                    runs.append({'storage': shapes(len(runs)), 'steps': base + [{'c': 'fault', 'v': c, 'h': h, 'o': o, 'p': p, 'modes': 'err,lost,part,from', 'warm': warm,
                                 'max': ctx.pick(60, 0), 'seed': h}]})
    # the very first statement, on an empty storage
    for n in range(3):
        runs.append({'storage': shapes(len(runs)), 'steps': [{'c': 'fault', 'v': 'cs', 'o': [a, ab, new][n], 'p': b, 'modes': 'err,lost,part,from'}]})
    ctx.add('systematic_runs', len(runs))
    # large graphs: failures far along a story, a tree, a word, a choice of continuations
    n = ctx.pick(40, 80)
    ops = wide_base(texts, n)
    for i, (c, h, o, p) in enumerate(wide_trials(texts, n, ops)):
        reads = [{'c': 'fault', 'v': v, 'h': [1, 2, len(ops) - i, 4 * i + 3][k % 4], 'modes': 'err,part', 'max': ctx.pick(30, 90), 'seed': i} for k, v in enumerate(READS)]
        runs.append({'storage': shapes(i), 'bulk': True, 'steps': ops + reads + [
            {'c': 'fault', 'v': c, 'h': h, 'o': o, 'p': p, 'modes': 'err,lost,part', 'max': ctx.pick(110, 250), 'seed': i}]})
    ctx.add('large_graphs', 10)
    j = merge([batch(ctx.pick(50, 150), [1, 3, 5, 8], ctx.pick(40, 120)), batch(ctx.pick(3, 10), [25, 50], ctx.pick(25, 60))])
    ctx.check('Fault', merge([job(texts, runs), half_told(ctx, g, job(texts, [r for r in runs if 'bulk' not in r]), ctx.pick(40, 200)), j, half_told(ctx, g, j, ctx.pick(40, 100))]))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Fault', batch(150, [3, 6, 10, 14], 150))


MODES = 'err,err+,crash,lost,lost+,twice'


def c14(ctx):
    g = Gen(ctx.seed * 179424673 + 14)
    selftest.design_holds(ctx, ctx.pick([(2, 1, True, False), (2, 1, True, True)],
                                        [(3, 1, True, False), (3, 1, True, True), (1, 2, True, True), (4, 0, True, False)]))

    def follow(texts, n):
        out = []
        for c in ('af', 'cc', 'ar', 'cs', 'af', 'cc'):
            o, p = g.pair()
            d = {'c': c, 'o': 0 if c == 'ar' else texts.id(o), 'p': texts.id(p)}
            if c != 'cs':
                d['h'] = g.r.randrange(1, n + 2)
            out.append(d)
        return g.r.sample(out, 4)

    def batch(n, lengths, maxpts):
        n *= ctx.scale
        texts = Texts()
        runs = []
        for i in range(n):
            k = g.r.choice(lengths)
            ops = g.history(texts, k, None, 'g')
            steps = list(ops)
            f = g.op(texts, k, [2, 2, 3, 3], 'g')
            steps.append({'c': 'crash', 'v': f['c'], 'h': f.get('h', 0), 'o': f['o'], 'p': f['p'], 'then': follow(texts, k),
                          'modes': MODES, 'max': maxpts, 'seed': g.r.randrange(1 << 30), 'warm': g.r.random() < 0.5})
            runs.append({'storage': shapes(len(runs)), 'steps': steps})
            if i < 3:
                sample(ctx, texts, [dict(s, c='interrupted ' + s['v']) if s['c'] == 'crash' else s for s in steps])
        ctx.add('random_histories', n)
        return job(texts, runs)

    # every operation on every kind of remark, interrupted at every call; nothing, something and everything known
    texts = Texts()
    a, b, ab = texts.id(t('a')), texts.id(t('b')), texts.id(t('a b'))
    base = [{'c': 'cs', 'o': a, 'p': b, 'v': 'g'}, {'c': 'af', 'h': 1, 'o': b, 'p': a, 'v': 'g'}, {'c': 'ar', 'h': 2, 'o': 0, 'p': b, 'v': 'g'},
            {'c': 'cc', 'h': 1, 'o': a, 'p': a, 'v': 'g'}, {'c': 'cc', 'h': 2, 'o': b, 'p': b, 'v': 'g'}, {'c': 'cs', 'o': a, 'p': b, 'v': 'g'}]
    runs = []
    new = texts.id(t('c ab'))
    for h in range(1, 7):
        for c in ('cs', 'ar', 'af', 'cc'):
            if c == 'cs' and h > 1:
                continue
            for o, p in ((a, b), (ab, a), (new, b)):
                runs.append({'storage': shapes(len(runs)), 'steps': base + [{'c': 'crash', 'v': c, 'h': h, 'o': o, 'p': p, 'modes': MODES, 'max': ctx.pick(25, 0), 'seed': h,
                             'then': follow(texts, 6), 'warm': h % 2 == 0}]})
    for n in range(3):
        runs.append({'storage': shapes(len(runs)), 'steps': [{'c': 'crash', 'v': 'cs', 'o': [a, ab, new][n], 'p': b, 'modes': MODES, 'max': 0, 'seed': n, 'then': follow(texts, 1)}]})
    ctx.add('systematic_runs', len(runs))
    # large graphs: interruptions far along a story, a tree, a word, a choice of continuations
    n = ctx.pick(30, 60)
    ops = wide_base(texts, n)
    trials = wide_trials(texts, n, ops)
    for i, (c, h, o, p) in enumerate(trials):
        then = [{'c': x[0], 'h': x[1], 'o': x[2], 'p': x[3]} for x in g.r.sample(trials, 2) + [trials[i]]]
        for modes, most in (('crash', ctx.pick(60, 200)), ('err', ctx.pick(40, 200)), (['lost,err+', 'twice,lost+'][i % 2], ctx.pick(8, 60))):
            runs.append({'storage': shapes(i), 'bulk': True, 'steps': ops + [
                {'c': 'crash', 'v': c, 'h': h, 'o': o, 'p': p, 'modes': modes, 'max': most, 'seed': i, 'then': then}]})
    ctx.add('large_graphs', len(trials))
    j = merge([batch(ctx.pick(40, 120), [1, 2, 4, 6, 8], ctx.pick(14, 60)), batch(ctx.pick(4, 10), [25, 50], ctx.pick(10, 30))])
    ctx.check('Crash', merge([job(texts, runs), half_told(ctx, g, job(texts, [r for r in runs if 'bulk' not in r]), ctx.pick(15, 60)), j, half_told(ctx, g, j, ctx.pick(25, 60))]))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Crash', batch(120, [2, 4, 8, 12], 60))


def c15(ctx):
    g = Gen(ctx.seed * 198491317 + 15)

    def batch(n, lengths):
        n *= ctx.scale
        texts = Texts()
        runs, pairs = [], []
        for i in range(n):
            steps = marked(scripts(g, texts, g.r.choice(lengths)))
            runs.append({'storage': dict(MEM), 'steps': steps})
            a = len(runs)
            if i < 3:
                sample(ctx, texts, steps)
            for st in (dict(MEM, shuffle=-1), dict(MEM, shuffle=i + 1), dict(MEM, alloc='gap', seed=i), dict(MEM, alloc='perm', seed=i),
                       dict(MEM, alloc='desc', shuffle=i + 7), dict(MEM, wide=True), dict(CLEW)):
                again = []
                for s in steps:
                    if g.r.random() < 0.15:
                        again.append({'c': 'reopen'})
                    again.append(s)
                runs.append({'storage': st, 'steps': again})
                pairs.append({'a': a, 'b': len(runs), 'map': []})
        twins(ctx, pairs, texts, runs)
        twins_half_told(ctx, g, texts, runs, pairs, n // 3)
    batch(ctx.pick(70, 150), [1, 3, 5, 8, 12])
    texts = Texts()
    runs, pairs = [], []
    for i, r in enumerate(long_runs(ctx, g, texts, ctx.pick(60, 150), lambda i: obs('g') if i % 25 == 24 else [], lambda i: dict(MEM))
                          + [dict(r, storage=dict(MEM)) for r in busy_runs(ctx, g, texts)]):
        runs.append(dict(r, steps=marked(r['steps'] + obs('g'))))
        a = len(runs)
        for st in (dict(MEM, shuffle=-1), dict(MEM, shuffle=i + 1), dict(MEM, alloc='perm', seed=i), dict(MEM, alloc='desc'), dict(MEM, wide=True), dict(CLEW)):
            runs.append(dict(runs[a - 1], storage=st))
            pairs.append({'a': a, 'b': len(runs), 'map': []})
    twins(ctx, pairs, texts, runs)
    if ctx.thorough():
        for _ in range(6):
            batch(120, [6, 10, 16, 24])


def known(prop):
    """Is there a recorded (unrepaired) finding for this property?"""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known-findings.txt')
    return any(line.startswith('finding: property=%s ' % prop) for line in open(path))


def c16(ctx):
    listed = {'KNOWN_C16': '1'} if known('C16') else {}
    structural(ctx, 'remarks', env=listed)
    # stores whose remarks are linked, written by the specification, read by the real code
    golden_check(ctx, ctx.pick(60, 300), 'remarks', 'Trace', env=listed)
    if listed:
        texts = Texts()
        a, b, c = texts.id(t('goes')), texts.id(t('a')), texts.id(t('cat'))
        trace = ctx.drive(job(texts, [{'storage': dict(MEM), 'steps': [{'c': 'cs', 'o': a, 'p': b, 'v': 'h'}, {'c': 'ar', 'h': 1, 'o': 0, 'p': c, 'v': 'h'}] + obs('h')}]))
        if ctx.judge('Trace', trace, 'Inv_NoDeviation', count=False):
            print('KNOWN-FINDING: property=C16 AddRemarkToFact leaves the remark it adds unlinked: HasNextRemark of the previous remark is false and GetNextRemark fails')


def tree_of(ops):
    """Which root story each operation's remark belongs to."""
    out = []
    for i, s in enumerate(ops):
        out.append(i if s['c'] == 'cs' else out[s['h'] - 1])
    return out


def golden_check(ctx, n, profile, module, env=None, lengths=(1, 2, 3, 5, 7)):
    """Stores written by Golden.tla, read and extended by the real code."""
    n *= ctx.scale
    g = Gen(ctx.seed * 295075147 + 21 + len(profile or ''))
    texts = Texts()
    runs, told = [], []
    for i in range(n):
        ops = g.history(texts, g.r.choice(lengths), profile, 'g')
        told.append([{'c': s['c'], 'h': s.get('h', 0), 'o': s['o'], 'p': s['p']} for s in ops])
        more = [g.op(texts, len(ops) + k, [1, 2, 3, 3], 'gn') for k in range(g.r.choice([0, 2, 4]))]
        steps = obs('g', 'n') + [{'c': 'probe'}]
        for s in more:
            steps.append(s)
            if g.r.random() < 0.3:
                steps += obs('g')
        steps += obs('n', 'g')
        runs.append({'storage': dict(MEM, shuffle=[0, -1, i + 1][i % 3]), 'steps': steps})
        if i < 3:
            sample(ctx, texts, ops + more)
    stores = ctx.golden(texts.list, told)
    for i, r in enumerate(runs):
        r['storage']['load'] = dict(stores[i], ops=told[i], renum=[0, i + 1][i % 2])
    ctx.add('golden_stores', n)
    ctx.check(module, job(texts, runs), env=env)


def golden_long(ctx, g, n, kinds=LONG, pool=('a', 'b', 'a b', 'ba', 'b a b', '\u4e2d'), some=0):
    """Large stores written by the specification: one story, fact, tree or pair that has much.
    With `some`, only that many remarks are read back."""
    texts = Texts()
    pool = [texts.id(t(x)) for x in pool]
    runs, told = [], []
    for k, profile in enumerate(kinds):
        ops = long_ops(g, Texts(), profile, n, 'g')
        same = g.r.choice(pool)
        for s in ops:
            s['o'], s['p'] = (same, pool[0]) if profile == 'same' else (g.r.choice(pool), g.r.choice(pool))
            s['o'] = 0 if s['c'] == 'ar' else s['o']
        told.append([{'c': s['c'], 'h': s.get('h', 0), 'o': s['o'], 'p': s['p']} for s in ops])
        more = [dict(g.op(texts, n + i, [1, 2, 3, 3], 'gn', lambda n: g.r.choice([1, n, g.r.randrange(1, n + 1)]))) for i in range(4)]
        seen = lambda v: [dict(s, max=some, seed=n) for s in obs(v)]
        runs.append({'storage': dict(MEM, shuffle=[0, -1, k + 1][k % 3]), 'steps': seen('g') + ([] if some else more + obs('n'))})
    stores = ctx.golden(texts.list, told)
    for i, r in enumerate(runs):
        r['storage']['load'] = dict(stores[i], ops=told[i], renum=[0, i + 1][i % 2])
    ctx.add('large_golden_stores', len(runs))
    return job(texts, runs)


def c21(ctx):
    ctx.check('Trace', golden_long(ctx, Gen(ctx.seed * 334214467), ctx.pick(220, 500)))
    golden_check(ctx, ctx.pick(120, 300), None, 'Trace')
    golden_check(ctx, ctx.pick(60, 200), 'remarks', 'Trace')
    golden_check(ctx, ctx.pick(60, 200), 'trees', 'Trace')
    for profile in ('facts', 'remarks', 'trees', None):
        golden_check(ctx, ctx.pick(2, 5), profile, 'Trace', lengths=(30, 45))
    if ctx.thorough():
        for k in range(4):
            ctx.seed += 1000
            golden_check(ctx, 150, None, 'Trace', lengths=(5, 8, 12))
        ctx.seed -= 4000


def c17(ctx):
    g = Gen(ctx.seed * 217645177 + 17)
    jobs = [randomised(ctx, g, ctx.pick(90, 400), [4, 6, 9, 12, 16], k, every=0.6, views='g') for k in (None, 'roots', 'trees', 'facts')]
    jobs.append(enumerated(ctx, g, 4, views='g', each=True))
    texts = Texts()
    jobs.append(job(texts, long_runs(ctx, g, texts, ctx.pick(50, 120), lambda i: obs('g') if i > 5 else [], storages) + busy_runs(ctx, g, texts)))
    ctx.check('Trace', merge(jobs))

    def batch(n, lengths):
        n *= ctx.scale
        texts = Texts()
        runs, pairs = [], []
        for i in range(n):
            ops = g.history(texts, g.r.choice(lengths), 'roots', 'hgnk')
            roots = tree_of(ops)
            runs.append({'storage': storages(i), 'steps': [dict(s, m=k + 1) for k, s in enumerate(ops)] + [dict(obs('g')[0], m=9999)]})
            a = len(runs)
            if i < 3:
                sample(ctx, texts, ops)
            # every tree told alone
            for root in set(roots):
                own = [k for k in range(len(ops)) if roots[k] == root]
                alone = []
                for k in own:
                    s = dict(ops[k], m=k + 1)
                    if 'h' in s:
                        s['h'] = own.index(s['h'] - 1) + 1
                    alone.append(s)
                runs.append({'storage': dict(MEM), 'steps': alone + [dict(obs('g')[0], m=9999)]})
                pairs.append({'a': a, 'b': len(runs), 'map': [k + 1 for k in own]})
        twins(ctx, pairs, texts, runs)
        twins_half_told(ctx, g, texts, runs, pairs, n // 3)
    batch(ctx.pick(100, 300), [5, 8, 12, 16])
    batch(ctx.pick(4, 12), [60, 100])
    if ctx.thorough():
        for _ in range(5):
            batch(200, [10, 16, 24])
            ctx.check('Trace', randomised(ctx, g, 250, [8, 14, 20], 'roots', every=0.5, views='g'))


def c18(ctx):
    g = Gen(ctx.seed * 236887691 + 18)

    def runs(n, lengths, every):
        n *= ctx.scale
        texts = Texts()
        out = []
        for i in range(n):
            steps = []
            for s in g.history(texts, g.r.choice(lengths), None, 'hgnk'):
                steps.append(s)
                if g.r.random() < every:
                    steps.append({'c': 'dump'})
                if g.r.random() < 0.1:
                    steps.append({'c': 'reopen'})
            out.append({'storage': shapes(i), 'steps': steps + [{'c': 'dump'}]})
            if i < 3:
                sample(ctx, texts, steps)
        ctx.add('random_histories', n)
        return job(texts, out)
    j = runs(ctx.pick(60, 150), [1, 2, 4, 6, 9], 0.15)
    texts = Texts()
    n = ctx.pick(70, 200)
    long = long_runs(ctx, g, texts, n, lambda i: [{'c': 'dump'}] if i in (n // 2, n - 1) else [], shapes)
    bad = with_malformed(ctx, g, ctx.pick(40, 150))
    for r in bad['runs']:
        r['storage'] = shapes(g.r.randrange(7))
        r['steps'] = [x for s in r['steps'] if s['c'] != 'obs' for x in [s] + ([{'c': 'dump'}] if s['c'] in OPS and g.r.random() < 0.3 else [])] + [{'c': 'dump'}]
    # words, phrases, objects and children that go on in many ways
    wide = wide_base(texts, ctx.pick(20, 40))
    long.append({'storage': dict(MEM, shuffle=5), 'steps': wide + [dict(s, c='cs', o=s['o'] or s['p']) for s in wide[::3]] + [{'c': 'dump'}]})
    ctx.check('LayoutTrace', merge([bad, j, job(texts, long), half_told(ctx, g, j, ctx.pick(40, 120))]))
    texts = Texts()
    out = []
    for sk in ctx.histories(ctx.pick(3, 4)):
        g.fresh()
        g.alphabet = [1, 2, 3]
        out.append({'storage': dict(MEM), 'steps': g.dress(texts, sk, 'hgnk') + [{'c': 'dump'}]})
    ctx.add('enumerated_histories', len(out))
    ctx.check('LayoutTrace', job(texts, out))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('LayoutTrace', runs(100, [6, 10, 16], 0.1))


def c19(ctx):
    g = Gen(ctx.seed * 256203161 + 19)

    def batch(n, lengths):
        n *= ctx.scale
        texts = Texts()
        runs, pairs = [], []
        for i in range(n):
            steps = marked(scripts(g, texts, g.r.choice(lengths), every=0.2))
            runs.append({'storage': storages(i), 'steps': steps})
            a = len(runs)
            if i < 3:
                sample(ctx, texts, steps)
            for k in (2, 4):
                again = []
                # all graphs opened on the empty storage, or one after the other
                if g.r.random() < 0.5:
                    for x in range(1, k + 1):
                        again.append({'c': 'graph', 'g': x})
                for s in steps:
                    again.append({'c': 'graph', 'g': g.r.randrange(1, k + 1)})
                    again.append(s)
                runs.append({'storage': storages(i), 'steps': again})
                pairs.append({'a': a, 'b': len(runs), 'map': []})
        twins(ctx, pairs, texts, runs)
        twins_half_told(ctx, g, texts, runs, pairs, n // 3)
    batch(ctx.pick(140, 300), [2, 4, 6, 9, 12])
    texts = Texts()
    runs, pairs = [], []
    for r in long_runs(ctx, g, texts, ctx.pick(80, 200), lambda i: obs('g') if i % 25 == 24 else [], storages) + busy_runs(ctx, g, texts):
        runs.append(dict(r, steps=marked(r['steps'] + obs('g'))))
        a = len(runs)
        for k, p in ((2, 1.0), (3, 0.1)):
            again = [{'c': 'graph', 'g': x} for x in range(1, k + 1)]
            for s in runs[a - 1]['steps']:
                again += ([{'c': 'graph', 'g': g.r.randrange(1, k + 1)}] if g.r.random() < p else []) + [s]
            runs.append(dict(r, steps=again))
            pairs.append({'a': a, 'b': len(runs), 'map': []})
    twins(ctx, pairs, texts, runs)
    if ctx.thorough():
        for _ in range(6):
            batch(250, [6, 10, 16, 24])


def c20_public(ctx, g):
    """Through the public interface only, when the layers cannot be reached from outside."""
    ctx.add('through_public_interface_only', 1)
    jobs = [with_malformed(ctx, g, ctx.pick(150, 400), lengths=(3, 6, 10)), randomised(ctx, g, ctx.pick(100, 300), [3, 8, 14], None)]
    j = merge(jobs)
    trace = ctx.drive(j)
    for inv in ('Inv_C01', 'Inv_C02', 'Inv_C03'):
        found = ctx.judge('Trace', trace, inv, count=inv == 'Inv_C01')
        if found:
            raise harness.Violation(ctx.prop, '%s %s' % (found['invariant'], found['at']), ctx.replay_file(found, trace))
    j = randomised(ctx, g, ctx.pick(60, 200), [3, 8, 14], None, every=0)
    for r in j['runs']:
        r['steps'] = [x for s in r['steps'] for x in ([s, {'c': 'count'}] if s['c'] in OPS else [s])]
    ctx.check('Vocab', j, 'Inv_C04')


def c20(ctx):
    g = Gen(ctx.seed * 275604541 + 20)
    try:
        ctx.build('layers')
    except CheckError:
        return c20_public(ctx, g)

    def runs(n, lengths):
        n *= ctx.scale
        out = []
        for i in range(n):
            g.fresh()
            steps = []
            for _ in range(g.r.choice(lengths)):
                k = g.r.random()
                if k < 0.3:
                    c = g.r.choice(g.alphabet + [g.r.choice(BOUNDARY)])
                    steps.append({'c': 'char', 'r': -c - 1 if g.r.random() < 0.1 else c})
                elif k < 0.55:
                    w = list(g.word())
                    if g.r.random() < 0.15:
                        w.insert(g.r.randrange(len(w) + 1), 32)
                    steps.append({'c': 'word', 't': w})
                elif k < 0.8:
                    steps.append({'c': 'phrase', 't': list(g.text() if g.r.random() < 0.85 else g.malformed())})
                else:
                    steps.append({'c': 'detail', 't': list(g.text()), 'u': list(g.text() if g.r.random() < 0.9 else g.malformed())})
                if g.r.random() < 0.1:
                    steps.append({'c': 'reopen'})
            if g.r.random() < 0.5:
                steps += g.r.sample(steps, min(3, len(steps)))
            out.append({'alloc': ['seq', 'gap', 'seq', 'desc', 'perm'][i % 5], 'seed': i, 'shuffle': [0, -1][i % 2], 'steps': steps})
        ctx.add('random_histories', n)
        if len(ctx.samples) < 3:
            ctx.samples.append(out[0]['steps'][:8])
        return {'runs': out}
    sysruns = []
    for seq in (BOUNDARY, BOUNDARY[::-1]):
        sysruns.append({'alloc': 'seq', 'steps': [{'c': 'char', 'r': c} for c in seq + seq[:5]]})
    sysruns.append({'alloc': 'seq', 'steps': [{'c': 'char', 'r': c} for c in range(0, 300)]})
    sysruns.append({'alloc': 'seq', 'steps': [{'c': 'char', 'r': c} for c in range(300, -1, -1)]})
    odd = [-1, -2, -3, -0x61, -0x80, -0x100, -0x10000, -0x10ffff, -0x7fffffff, -0x80000000]
    sysruns.append({'alloc': 'seq', 'steps': [{'c': 'char', 'r': c} for c in odd + [0x61, 0, 1] + odd + [0x61, 2, 3]]})
    sysruns.append({'alloc': 'seq', 'steps': [{'c': k, 't': list(x)} for x in ((32,), (32, 32), (97, 32), (32, 97), (97, 32, 97), (97, 32, 32, 97)) for k in ('word', 'phrase')]})
    sysruns.append({'alloc': 'seq', 'steps': [{'c': 'word', 't': []}, {'c': 'phrase', 't': []}, {'c': 'char', 'r': 0x61},
                                              {'c': 'word', 't': [0x61]}, {'c': 'phrase', 't': [0x61]}]})
    # many continuations of one beginning, one text in many pairs
    n = ctx.pick(130, 300)
    many = [tuple(97 + ((i >> b) & 1) for b in range(1 + i % 7)) for i in range(n)]
    for steps in ([{'c': 'word', 't': [97, c]} for c in range(0x100, 0x100 + n)], [{'c': 'phrase', 't': [97, 32, c]} for c in range(0x100, 0x100 + n)],
                  [{'c': 'detail', 't': [120], 'u': list(w)} for w in many], [{'c': 'detail', 't': list(w), 'u': [120]} for w in many]):
        sysruns.append({'alloc': 'seq', 'steps': steps + steps[::-9]})
    texts = Texts()
    for ops in large_vocabularies(ctx, texts):
        steps = [{'c': 'detail', 't': list(texts.list[s['o'] - 1]), 'u': list(texts.list[s['p'] - 1])} for s in ops]
        sysruns.append({'alloc': 'seq', 'steps': steps + steps[::-4]})
    # long words and phrases
    for n in ctx.pick([65, 257, 700], [65, 257, 700, 1500]):
        w, ph = [97 + (i * i + i // 7) % 5 for i in range(n)], [[97, 98, 32][i % 3] for i in range(n - 1 if n % 3 == 0 else n)]
        steps = [{'c': 'word', 't': w}, {'c': 'word', 't': w[:-1] + [122]}, {'c': 'phrase', 't': ph}, {'c': 'phrase', 't': ph + [99]}, {'c': 'detail', 't': ph, 'u': w}]
        sysruns.append({'alloc': 'seq', 'steps': steps * 2})
        for bad in long_malformed(min(n, 65 + n // 8)):
            sysruns.append({'alloc': 'seq', 'steps': [{'c': 'phrase', 't': list(bad)}, {'c': 'detail', 't': [97], 'u': list(bad)}, {'c': 'phrase', 't': [97]},
                                                      {'c': 'detail', 't': list(bad), 'u': [97]}]})
    ctx.add('systematic_runs', len(sysruns))
    j = runs(ctx.pick(200, 500), [3, 8, 14, 25])
    ctx.check('Lex', {'runs': sysruns + j['runs'], 'texts': []}, name='layers')
    if ctx.thorough():
        for _ in range(6):
            ctx.check('Lex', dict(runs(400, [8, 20, 40]), texts=[]), name='layers')


def several_job(ctx, g, n, lengths):
    """Two or three graphs in one process, whose nodes have the same numbers."""
    n *= ctx.scale
    texts = Texts()
    runs = []
    for i in range(n):
        mode = ['turn', 'mesh', 'mesh', 'par'][i % 4]
        k = 2 if g.r.random() < 0.7 else 3
        length = g.r.choice(lengths)
        kind = g.r.random()
        first = g.history(texts, length, None, 'hgnk')
        scripts = [first]
        while len(scripts) < k:
            if kind < 0.4:
                # the same history with other texts: every number means something else
                g.recent, g.words = [], []
                other = [dict(s) for s in first]
                for s in other:
                    o, p = g.pair()
                    s['o'], s['p'] = 0 if s['c'] == 'ar' else texts.id(o), texts.id(p)
            elif kind < 0.6:
                other = first
            else:
                other = g.history(texts, g.r.choice(lengths), None, 'hgnk')
            scripts.append(other)
        queues = []
        for w, ops in enumerate(scripts):
            q = []
            for s in ops:
                q.append([s] + (obs(g.r.choice('hgnk')) if g.r.random() < 0.35 else []) + ([{'c': 'reopen'}] if g.r.random() < 0.05 else []))
            if g.r.random() < 0.3:
                q.append(obs('g') + [dict(g.r.choice(ops), p=texts.id(g.malformed()))])
            q.append(obs('h', 'g'))
            if g.r.random() < 0.3:
                q.append([{'c': 'probe'}])
            queues.append([dict(s, **{'in': w + 1}) for part in q for s in part])
        steps = []
        at = [0] * k
        while any(at[w] < len(queues[w]) for w in range(k)):
            w = g.r.choice([w for w in range(k) if at[w] < len(queues[w])])
            for _ in range(g.r.choice([1, 1, 2, 5])):
                if at[w] < len(queues[w]):
                    steps.append(queues[w][at[w]])
                    at[w] += 1
        same = [dict(MEM), dict(MEM, shuffle=-1), dict(MEM, alloc='gap', seed=7), dict(MEM, alloc='desc')][i % 4]
        worlds = [dict(same) for _ in range(k)]
        if i % 5 == 0:
            worlds[-1] = dict(MEM, wide=True)
        runs.append({'worlds': worlds, 'mode': mode, 'seed': i + 1, 'readers': 2 if mode != 'turn' else 0, 'steps': steps})
        if i < 3:
            sample(ctx, texts, steps)
    ctx.add('several_graphs', n)
    return job(texts, runs)


def c24(ctx):
    g = Gen(ctx.seed * 393342739 + 24)
    ctx.check('Several', several_job(ctx, g, ctx.pick(120, 400), [1, 2, 4, 6, 9]))
    if ctx.thorough():
        for _ in range(5):
            ctx.check('Several', several_job(ctx, g, 300, [4, 8, 14]))


def inner_job(ctx, g, texts, runs, what):
    """Scripts for the layers below the interface: looked at between and after operations."""
    out = []
    for i, ops in enumerate(runs):
        steps = []
        for s in ops:
            steps.append({'c': s['c'], 'h': s.get('h', 0), 'o': s['o'], 'p': s['p']})
            if g.r.random() < (0.3 if len(ops) < 20 else 0.02):
                steps.append({'c': what})
            if g.r.random() < 0.1:
                steps.append({'c': 'reopen'})
        out.append({'storage': [dict(MEM), dict(MEM, shuffle=-1), dict(MEM, alloc='gap', seed=i + 1), dict(MEM, alloc='desc'), dict(MEM, alloc='perm', seed=i + 1)][i % 5],
                    'steps': steps + [{'c': what}]})
    return job(texts, out)


def c22(ctx):
    g = Gen(ctx.seed * 373587883 + 22)
    try:
        ctx.build('inner')
    except CheckError:
        # the fact layer cannot be reached from outside any more: what the storage says of it
        ctx.add('through_stored_layout_only', 1)
        j = randomised(ctx, g, ctx.pick(100, 300), [3, 6, 9], 'trees', every=0)
        for r in j['runs']:
            r['storage'], r['steps'] = dict(MEM), [s for s in r['steps'] if s['c'] != 'obs'] + [{'c': 'dump'}]
        ctx.check('LayoutTrace', j, 'Inv_C18')
        return
    texts = Texts()
    runs = []
    for sk in ctx.histories(ctx.pick(4, 5)):
        g.fresh()
        runs.append(g.dress(texts, sk, 'g'))
    ctx.add('enumerated_histories', len(runs))
    for i in range(ctx.pick(500, 2500)):
        g.fresh()
        runs.append(g.history(texts, g.r.choice([3, 5, 8, 12, 18]), [None, 'trees', 'facts', 'remarks', 'roots'][i % 5], 'g'))
    ctx.add('random_histories', ctx.pick(500, 2500))
    sample(ctx, texts, runs[-1])
    long = [long_ops(g, texts, k, ctx.pick(150, 400)) for k in LONG]
    ctx.add('long_histories', len(long))
    ctx.check('Inner', inner_job(ctx, g, texts, runs + long, 'look'), name='inner')


def c23(ctx):
    g = Gen(ctx.seed * 393342739 + 23)
    try:
        ctx.build('inner')
    except CheckError:
        # the class layer cannot be reached from outside any more
        ctx.add('through_public_interface_only', 1)
        j = randomised(ctx, g, ctx.pick(60, 200), [3, 6, 9], None, every=0, views='g', storage=shapes)
        ctx.check('Vocab', dict(j, runs=[dict(r, steps=r['steps'] + [{'c': 'count'}]) for r in j['runs']]), 'Inv_C04')
        for r in j['runs']:
            r['steps'] = r['steps'] + [{'c': 'probe'}]
        ctx.check('Trace', j, 'Inv_C09')
        return
    texts = Texts()
    runs = []
    for sk in ctx.histories(ctx.pick(3, 4)):
        g.fresh()
        runs.append(g.dress(texts, sk, 'g'))
    ctx.add('enumerated_histories', len(runs))
    for i in range(ctx.pick(250, 1200)):
        g.fresh()
        runs.append(g.history(texts, g.r.choice([2, 4, 7, 12]), [None, 'trees', 'facts', 'remarks', 'roots'][i % 5], 'g'))
    ctx.add('random_histories', ctx.pick(250, 1200))
    sample(ctx, texts, runs[-1])
    long = [long_ops(g, texts, k, ctx.pick(60, 150)) for k in LONG]
    ctx.add('long_histories', len(long))
    ctx.check('Inner', inner_job(ctx, g, texts, runs + long, 'kinds'), name='inner')


def c25(ctx):
    g = Gen(ctx.seed * 413158511 + 25)
    texts = Texts()
    runs, pairs = [], []

    def pair(storage, steps, more=()):
        """The same script without the calls that are made while the storage fails."""
        steps = marked(steps)
        runs.append(dict(more, storage=storage, steps=[s for s in steps if s['c'] != 'flaky']))
        runs.append(dict(more, storage=storage, steps=steps))
        pairs.append({'a': len(runs) - 1, 'b': len(runs), 'map': []})

    def some(most=12):
        return {'c': 'flaky', 'v': '', 'modes': g.r.choice(['err', 'part', 'from', 'err,part,from']), 'max': most, 'seed': g.r.randrange(1 << 30), 'warm': g.r.random() < 0.5}

    def one(v, h, most, warm):
        return {'c': 'flaky', 'v': v, 'h': h, 'modes': 'err,part,from', 'max': most, 'seed': g.r.randrange(1 << 30), 'warm': warm}

    # every reading call on every kind of remark, at every storage call
    a, b, ab = texts.id(t('a')), texts.id(t('b')), texts.id(t('a b'))
    base = [{'c': 'cs', 'o': a, 'p': b, 'v': 'g'}, {'c': 'af', 'h': 1, 'o': b, 'p': a, 'v': 'g'}, {'c': 'af', 'h': 2, 'o': ab, 'p': a, 'v': 'g'},
            {'c': 'ar', 'h': 2, 'o': 0, 'p': b, 'v': 'g'}, {'c': 'cc', 'h': 1, 'o': a, 'p': ab, 'v': 'g'}, {'c': 'cc', 'h': 2, 'o': b, 'p': b, 'v': 'g'},
            {'c': 'cc', 'h': 5, 'o': b, 'p': ab, 'v': 'g'}, {'c': 'cs', 'o': a, 'p': b, 'v': 'g'}]
    for warm in (False, True):
        for h in range(1, 9):
            for v in READS:
                pair(shapes(len(pairs)), base + [one(v, h, ctx.pick(40, 0), warm)] + obs('g', 'n'))
    ctx.add('systematic_runs', len(pairs))
    # in the middle of histories that go on
    n = ctx.pick(70, 250) * ctx.scale
    for i in range(n):
        steps = []
        ops = g.history(texts, g.r.choice([1, 2, 4, 6, 9, 12]), None, 'hgnk')
        for k, s in enumerate(ops):
            steps.append(s)
            if g.r.random() < 0.45:
                steps.append(some() if g.r.random() < 0.6 else one(g.r.choice(READS), g.r.randrange(1, k + 2), 10, g.r.random() < 0.5))
            if g.r.random() < 0.2:
                steps += obs(g.r.choice('hgnk'))
        pair(shapes(i), steps + [some()] + obs('h', 'g', 'k'))
        if i < 3:
            sample(ctx, texts, steps)
    ctx.add('random_histories', n)
    # what the specification wrote, read through a storage that fails at times
    twins_half_told(ctx, g, texts, runs, pairs, ctx.pick(60, 250))
    # larger graphs
    for i, r in enumerate(long_runs(ctx, g, texts, ctx.pick(40, 90), lambda i: [some(6)] if i % 13 == 12 else [], shapes)):
        pair(r['storage'], r['steps'] + [some(ctx.pick(10, 40))] + obs('g'))
    # every history of the specification
    for i, sk in enumerate(ctx.histories(ctx.pick(3, 4))):
        g.fresh()
        pair(shapes(i), g.dress(texts, sk, 'hgnk') + [some(8)] + obs('g', 'k'))
    twins(ctx, pairs, texts, runs)


def c26(ctx):
    g = Gen(ctx.seed * 433494437 + 26)
    try:
        ctx.build('items')
    except CheckError:
        # the storage layers cannot be reached from outside any more: what is read through them
        ctx.add('through_stored_layout_only', 1)
        j = randomised(ctx, g, ctx.pick(100, 300), [3, 6, 9], None, every=0)
        for r in j['runs']:
            r['storage'], r['steps'] = dict(MEM), [s for s in r['steps'] if s['c'] != 'obs'] + [{'c': 'dump'}]
        ctx.check('LayoutTrace', j, 'Inv_C18')
        return
    texts = Texts()
    runs = []
    for sk in ctx.histories(ctx.pick(3, 4)):
        g.fresh()
        runs.append(g.dress(texts, sk, 'g'))
    ctx.add('enumerated_histories', len(runs))
    for i in range(ctx.pick(250, 1200)):
        g.fresh()
        runs.append(g.history(texts, g.r.choice([2, 4, 7, 12]), [None, 'trees', 'facts', 'remarks', 'roots'][i % 5], 'g'))
    ctx.add('random_histories', ctx.pick(250, 1200))
    sample(ctx, texts, runs[-1])
    long = [long_ops(g, texts, k, ctx.pick(60, 200)) for k in LONG]
    ctx.add('long_histories', len(long))
    ctx.check('Items', inner_job(ctx, g, texts, runs + long, 'items'), name='items')


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}

ASSUMED = {
    '': ['texts are valid UTF-8', 'the storage conforms to its interface: it reads as written, Create gives a number never given before, each write is atomic',
         'TLC, the Go toolchain, the driver and its storages are right'],
    'serial': ['calls on the graph do not overlap in time'],
    'C12': ['a removal or redirection is a write the storage interface offers (or the loss of something observed)'],
    'C13': ['a failing storage call gives an error; what it gives besides is anything'],
    'C14': ['a stop or a failure happens at a storage call, before or after its effect, not inside it'],
    'C18': ['the classes are the nodes 1 to 8, as documented'],
    'C21': ['the loaded stores are those Golden.tla writes, renumbered and shuffled'],
    'C24': ['goroutines interleave at storage calls; in parallel runs as the Go scheduler has it'],
    'C25': ['a failing storage call gives an error; what it gives besides is anything'],
}


def assumptions(prop):
    return ASSUMED[''] + ([] if prop == 'C24' else ASSUMED['serial']) + ASSUMED.get(prop, [])


if __name__ == '__main__':
    if sys.argv[1] == 'design':
        sys.exit(selftest.design(harness.Ctx('C14', 'quick', 1)))
    if sys.argv[1] == 'laws':
        sys.exit(selftest.all_laws(harness.Ctx('C05', 'quick', 1), int((sys.argv + [6])[2])))
    if sys.argv[1] == 'binding':
        sys.exit(1 if [m for p in sys.argv[2:] or sorted(CHECKS) for m in selftest.binding(CHECKS[p], p)] else 0)
    if sys.argv[1] == 'replay':
        sys.exit(selftest.replay(sys.argv[2]))
    sys.exit(harness.main(CHECKS, lambda p: 'model_checking', assumptions, selftest.hold_laws))
