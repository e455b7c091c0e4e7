"""Checks of the machinery itself: the design model, the binding of traces, replays.
None of this is a verdict about the code: it never prints VIOLATION."""
import copy
import json
import os
import random
import time

import harness
from harness import CheckError

INVARIANTS = 'Refines Accepted OnlyAdded StoredOnce Classed LaidOut'
BUGS = ['classes', 'bits', 'head', 'tail', 'detail', 'unslotted', 'fork', 'early', 'sibling', 'tree']


def explore(ctx, depth, crashes, small=True, bug='', newest=False, timeout=850):
    """TLC on Design.tla; returns the name of the violated invariant, if any."""
    cfg = ('SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d Crashes = %d Small = %s Bug = "%s" Newest = %s\n'
           % (INVARIANTS, depth, crashes, str(small).upper(), bug, str(newest).upper()))
    rc, out = ctx.run_tlc('Design', cfg, timeout=timeout)
    for inv in INVARIANTS.split():
        if 'Invariant %s is violated' % inv in out:
            return inv
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('TLC failed on Design:\n' + out[-3000:])
    return None


def design_holds(ctx, bounds):
    """Part of C14: the design itself, before the code is looked at."""
    before = ctx.states
    for depth, crashes, small, newest in bounds:
        inv = explore(ctx, depth, crashes, small, '', newest)
        if inv:
            raise CheckError('Design.tla does not refine Semnet.tla: ' + inv)
    ctx.cov['design_states'] = ctx.states - before
    ctx.cov['design_bounds'] = [{'operations': d, 'interruptions': c, 'texts': 3 if s else 6, 'newest_first': n} for d, c, s, n in bounds]


def design(ctx):
    for bounds in ((2, 1, True), (1, 2, True), (3, 0, False)):
        for newest in (False, True):
            t = time.time()
            n = ctx.states
            print('design %s newest=%s: %s, %d states, %.0f s' % (bounds, newest, explore(ctx, *bounds, newest=newest) or 'refines', ctx.states - n, time.time() - t))
    bad = []
    for bug in BUGS:
        found = None
        for bounds in ((2, 1), (3, 1)):
            found = explore(ctx, *bounds, bug=bug, newest=bug == 'tree')
            if found:
                break
        print('planted %-10s %s' % (bug, 'found by %s with %d operations, %d interruptions' % (found, *bounds) if found else 'NOT FOUND'))
        bad += [] if found else [bug]
    return 1 if bad else 0


def as_designed(ctx, job):
    """Does the code write what Impl.tla designs?  Information only."""
    small = [r for r in job['runs'] if r['storage']['kind'] == 'mem' and not r['storage'].get('load') and r['storage'].get('alloc', 'seq') == 'seq'
             and sum(len(job['texts'][s[k] - 1]) for s in r['steps'] for k in ('o', 'p') if s.get(k)) < 120][:60]
    if not small:
        return
    runs = [dict(r, storage={'kind': 'mem', 'log': True}, steps=[s for s in r['steps'] if s['c'] in ('cs', 'ar', 'af', 'cc', 'reopen')]) for r in small]
    ops = sum(s['c'] != 'reopen' for r in runs for s in r['steps'])
    try:
        trace = ctx.drive({'texts': job['texts'], 'runs': runs})
        found = ctx.judge('ImplTrace', trace, 'AsDesigned', constants='CONSTANTS Bug = "" Newest = FALSE\n', count=False, post=False)
        ctx.cov['writes_as_designed'] = {'operations_compared': ops, 'same': not found}
        if found:
            print('note: the code writes differently from Impl.tla (%s); C12 does not depend on it' % found['at'])
    except (CheckError, harness.Violation) as err:
        ctx.cov['writes_as_designed'] = {'operations_compared': 0, 'error': str(err)[:200]}


# laws ------------------------------------------------------------------------

LAWS = {'C01': 'Law_C01', 'C02': 'Law_C02', 'C05': 'Law_C05', 'C06': 'Law_C06', 'C07': 'Law_C07', 'C08': 'Law_C08', 'C09': 'Law_C09',
        'C12': 'PropC12', 'C16': 'Law_C16', 'C17': 'Law_C17 PropC17 Law_Handles', 'C22': 'Law_C22'}
# the specification spoiled: (what, by what); some law has to notice
SPOILED = [
    ('NewStory(s, StoryOf(s, h), o, p)', 'NewStory(s, Tree(s, h), o, p)'),
    ('IN IF n = 0 THEN 0 ELSE FirstRemark(s, n)', 'IN IF n = 0 THEN 0 ELSE s.fact[n].rems[Len(s.fact[n].rems)]'),
    ('== FirstOfStory(s, StoryOf(s, r))', '== FirstOfStory(s, Tree(s, r))'),
    ('o |-> s.rem[h].o, p |-> p', 'o |-> s.rem[h].p, p |-> p'),
    ('n == IF up = 0 THEN 0 ELSE After(s.story[up].kids, t)', 'n == IF up = 0 THEN 0 ELSE IF s.story[t].kids = <<>> THEN After(s.story[up].kids, t) ELSE 0'),
    ('fact  |-> [s.fact EXCEPT ![f].rems = Append(@, r)]', 'fact  |-> [s.fact EXCEPT ![f].rems = <<@[1], r>> \\o Tail(@)]'),
    ('ELSE [s.story EXCEPT ![parent].kids = Append(@, t)]', 'ELSE [s.story EXCEPT ![parent].kids = <<t>> \\o @]'),
    ('![t].facts = Append(@, f)]]', '![t].facts = IF Len(@) > 2 THEN <<@[1], f>> \\o Tail(@) ELSE Append(@, f)]]'),
]


def laws(ctx, depth, which=None):
    """TLC on Laws.tla: is Semnet.tla what the listed properties ask for?  Returns the law that is broken, if any."""
    names = ' '.join(which or sorted(LAWS.values())).split()
    props = [n for n in names if n.startswith('Prop')]
    cfg = 'SPECIFICATION Spec\nINVARIANTS Law_C09 %s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n' % (
        ' '.join(n for n in names if n not in props and n != 'Law_C09'), 'PROPERTIES %s\n' % ' '.join(props) if props else '', depth)
    rc, out = ctx.run_tlc('Laws', cfg)
    for n in names + ['Law_C09']:
        if n + ' is violated' in out or n[4:] in props and 'Action property' in out and 'is violated' in out:
            return n
    if rc != 0 or 'No error has been found' not in out:
        return 'broken: ' + out[-1500:]
    return None


def hold_laws(ctx):
    """Part of a property's check: its law, on every history of the specification up to a depth."""
    if ctx.prop not in LAWS:
        return
    before = ctx.states
    depth = ctx.pick(5, 6)
    bad = laws(ctx, depth, [LAWS[ctx.prop]])
    if bad:
        raise CheckError('Semnet.tla does not obey ' + bad)
    ctx.cov['law_histories'] = ctx.states - before
    ctx.cov['law_depth'] = depth


def all_laws(ctx, depth=6):
    t = time.time()
    n = ctx.states
    bad = laws(ctx, depth)
    print('laws to depth %d: %s, %d histories, %.0f s' % (depth, bad or 'all hold', ctx.states - n, time.time() - t))
    path = os.path.join(ctx.dir, 'spec', 'Semnet.tla')
    spec = open(path).read()
    left = []
    for a, b in SPOILED:
        assert spec.count(a) == 1, a
        open(path, 'w').write(spec.replace(a, b))
        found = laws(ctx, 4)
        print('spoiled: %-70s %s' % (b.replace('\n', ' ')[:70], (found or 'NOT NOTICED')[:40]))
        left += [] if found else [b]
    open(path, 'w').write(spec)
    return 1 if bad or left else 0


# binding ---------------------------------------------------------------------

COLUMNS = ['object', 'property', 'has next fact', 'next fact', 'first fact', 'has next story', 'next story',
           'has next remark', 'next remark', 'rendering', 'identifier']
WATCHES = {'C01': [1, 2], 'C05': [3, 4], 'C06': [5], 'C07': [6, 7], 'C08': [10], 'C09': [11], 'C16': [8, 9],
           'C10': range(1, 12), 'C15': range(1, 12), 'C17': range(1, 12), 'C19': range(1, 12), 'C21': range(1, 12)}


def corruptions(prop, data, rnd):
    """(what, corrupted trace) pairs: each changes one recorded answer."""
    def events(k, want=lambda e: True):
        return [(i, j) for i, r in enumerate(data['runs']) for j, e in enumerate(r['ev']) if e.get('k') == k and want(e)]

    def edit(where, fn):
        d = copy.deepcopy(data)
        fn(d, d['runs'][where[0]]['ev'][where[1]])
        return d
    obs = events('obs', lambda e: any(e['rows']))
    later = [w for w in obs if w[1] > 0]
    for col in WATCHES.get(prop, []):
        if not obs:
            break
        where = rnd.choice([w for w in later if data['runs'][w[0]]['ev'][w[1]].get('m')] or later)

        def change(d, e, col=col):
            k = rnd.choice([i for i, x in enumerate(e['rows']) if x])
            row = list(d['rows'][e['rows'][k] - 1])
            # (for C16 the recorded finding may not excuse it: a wrong successor, not a missing one)
            row[col - 1] = (1 - row[col - 1] if row[col - 1] in (0, 1) else 0) if col in (3, 6, 8) else (row[col - 1] % max(2, len(d['texts']) if col in (1, 2, 10) else len(e['rows']))) + 1
            d['rows'].append(row)
            e['rows'][k] = len(d['rows'])
        yield COLUMNS[col - 1], edit(where, change)
    ops = events('op', lambda e: e['r'] > 0)
    if prop in ('C02', 'C10', 'C15', 'C17', 'C19', 'C21') and ops:
        w = [x for x in ops if prop not in ('C10', 'C15', 'C17', 'C19') or data['runs'][x[0]]['ev'][x[1]].get('m')]
        if w:
            yield 'refused', edit(rnd.choice(w), lambda d, e: e.update(r=0))
    bad = events('op', lambda e: e['r'] == 0)
    if prop == 'C03' and bad:
        yield 'accepted', edit(rnd.choice(bad), lambda d, e: e.update(r=1, id=424242))
    more = [w for w in ops if w[1] > 1 and any(e['k'] == 'op' and e['r'] > 0 for e in data['runs'][w[0]]['ev'][:w[1]])]
    if prop == 'C09' and more:
        w = rnd.choice(more)
        before = [e for e in data['runs'][w[0]]['ev'][:w[1]] if e['k'] == 'op' and e['r'] > 0]
        yield 'repeated identifier', edit(w, lambda d, e: e.update(id=before[0]['id']))
        pr = events('probe')
        if pr:
            yield 'stray identifier', edit(rnd.choice(pr), lambda d, e: e.update(unk=1))
            yield 'forgotten identifier', edit(rnd.choice([p for p in pr if data['runs'][p[0]]['ev'][p[1]]['acc']]), lambda d, e: e['acc'].pop())
    if prop == 'C11':
        yield 'a write while reading', edit(rnd.choice(obs), lambda d, e: e.update(a=e['b'] + 1))
    if prop == 'C12':
        w = [x for x in ops if data['runs'][x[0]]['ev'][x[1]].get('w')]
        yield 'a reference moved', edit(rnd.choice(w), lambda d, e: e['w'].append([2, 2, 4]))
        yield 'a deletion', edit(rnd.choice(w), lambda d, e: e['w'].append([4, 9, 10]))
        yield 'an edge to nowhere', edit(rnd.choice(w), lambda d, e: e['w'].append([3, 9, 99999]))
        yield 'a lost node', edit(rnd.choice([x for x in w if [1] == [y[0] for y in data['runs'][x[0]]['ev'][x[1]]['w']][:1]]), lambda d, e: e['w'].pop(0))
    if prop == 'C13':
        fl = events('fl', lambda e: e['res'])
        for v in (1, -2, -3):
            yield 'result %d' % v, edit(rnd.choice(fl), lambda d, e, v=v: e['res'].__setitem__(rnd.randrange(len(e['res'])), v))
    if prop == 'C14':
        cr = events('cr', lambda e: e['res'] <= 0)
        for f in ('ta', 'ra', 'tb', 'fb', 'ub'):
            def change(d, e, f=f):
                if f == 'ta':
                    e[f][-1].append(-99)
                elif f == 'ra':
                    e[f] = -99
                else:
                    e[f].append(-99)
            yield 'field ' + f, edit(rnd.choice(cr), change)
    if prop == 'C04':
        ct = events('count')
        for i in (1, 2, 3, 4):
            yield 'count of class %d' % (i + 1), edit(rnd.choice(ct), lambda d, e, i=i: e['n'].__setitem__(i, e['n'][i] + 1))
    if prop == 'C18':
        dumps = events('dump')

        def change(d, e, f):
            s = e['s']
            x = rnd.choice([i for i, v in enumerate(s[f]) if v and i > 8])
            if f in ('tgt', 'src'):
                s[f][x] = s[f][x][1:]
            else:
                s[f][x] = 0
        last = [w for w in dumps if w[1] == len(data['runs'][w[0]]['ev']) - 1
                and any(e['k'] == 'op' and e['r'] > 0 for e in data['runs'][w[0]]['ev'])]
        for f in ('tgt', 'next', 'prev'):
            yield 'dump %s' % f, edit(rnd.choice(last), lambda d, e, f=f: change(d, e, f))
    if prop == 'C22':
        looks = events('look', lambda e: any(len(x) > 4 and x[3] for x in e['rows']))
        for i in range(8):
            def change(d, e, i=i):
                row = rnd.choice(e['rows'])
                at = rnd.choice([x for x in row if x])
                at[i] = at[i] % max(2, len(e['rows'])) + 1 if i not in (0, 2, 5) else 1 - at[i]
            yield 'answer %d' % (i + 1), edit(rnd.choice(looks), change)
        yield 'a write while looking', edit(rnd.choice(looks), lambda d, e: e.update(wrote=1))
    if prop == 'C23':
        kinds = events('kinds', lambda e: all(e['is']))
        for i in range(8):
            yield 'a node not of kind %d' % (i + 1), edit(rnd.choice(kinds), lambda d, e, i=i: e['is'][i].pop())
            yield 'a stray node of kind %d' % (i + 1), edit(rnd.choice(kinds), lambda d, e, i=i: e['is'][i].append(424242))
        yield 'two remarks changed', edit(rnd.choice(kinds), lambda d, e: e['is'][5].__setitem__(0, 424242))
    if prop == 'C26':
        items = events('items', lambda e: {x['k'] for x in e['items']} == set(range(1, 9)))
        for k in range(1, 9):
            def change(d, e, f, k=k):
                f(rnd.choice([x for x in e['items'] if x['k'] == k]))

            def node(x):
                rnd.choice([t for t in x['reads'] if len(t) > 1]).__setitem__(-1, 424242)

            def answer(x):
                a = rnd.choice(x['asks'])
                a['v'] = [y + 1 for y in a['v']] or [1]
                a['r'] = 1
            yield 'an item of kind %d' % k, edit(rnd.choice(items), lambda d, e, c=change: c(d, e, node))
            yield 'an answer of kind %d' % k, edit(rnd.choice(items), lambda d, e, c=change: c(d, e, lambda x: [answer(x) for _ in range(6)]))
        yield 'a bit', edit(rnd.choice(items), lambda d, e: e['bits'].append(424242))
        yield 'a digit', edit(rnd.choice(items), lambda d, e: e.update(digits=[1, 1]))
        yield 'a write', edit(rnd.choice(items), lambda d, e: e.update(wrote=1))
    if prop == 'C24':
        for i in (1, 2, 3, 10):
            def change(d, e, i=i):
                k = rnd.choice([j for j, x in enumerate(e['rows']) if x])
                row = list(d['rows'][e['rows'][k] - 1])
                row[i - 1] = 1 - row[i - 1] if i == 3 else row[i - 1] % len(d['texts']) + 1
                d['rows'].append(row)
                e['rows'][k] = len(d['rows'])
            yield COLUMNS[i - 1], edit(rnd.choice(obs), change)
        # (statements that nothing refers to later, or the specification could not take the run)
        final = [w for w in ops if not any(e['k'] == 'op' and e['in'] == data['runs'][w[0]]['ev'][w[1]]['in'] for e in data['runs'][w[0]]['ev'][w[1] + 1:])]
        yield 'refused', edit(rnd.choice(final), lambda d, e: e.update(r=0))
        final = [w for w in final if data['runs'][w[0]]['ev'][w[1]]['c'] == 'cs' and len({e['in'] for e in data['runs'][w[0]]['ev']}) > 1]
        yield 'the other graph', edit(rnd.choice(final), lambda d, e: e.update({'in': ({x['in'] for r in d['runs'] if any(y is e for y in r['ev']) for x in r['ev']} - {e['in']}).pop()}))
    if prop == 'C25':
        fk = events('flaky', lambda e: e['tries'])
        yield 'written', edit(rnd.choice(fk), lambda d, e: e.update(a=e['b'] + 1))
        yield 'another row', edit(rnd.choice(fk), lambda d, e: rnd.choice(e['tries'])['rows'].__setitem__(0, 0))
        yield 'a row less', edit(rnd.choice(fk), lambda d, e: rnd.choice(e['tries'])['rows'].pop())
        yield 'the same handle', edit(rnd.choice(fk), lambda d, e: rnd.choice(e['tries']).update(same=-1))
    if prop == 'C20':
        for k in ('char', 'word', 'phrase', 'detail'):
            ev = events(k, lambda e: e.get('res') == 1)
            if not ev:
                continue
            yield k + ' read back', edit(rnd.choice(ev), lambda d, e: e['out'].__setitem__(0, e['out'][0] + 1))
            yield k + ' refused', edit(rnd.choice(ev), lambda d, e: e.update(res=0))
            for i in range(5):
                yield '%s stored %d' % (k, i), edit(rnd.choice(ev), lambda d, e, i=i: e['n'].__setitem__(i, e['n'][i] + 7))


class Enough(Exception):
    pass


def binding(check, prop, seed=1, rounds=2):
    """Run the property's first check at a small scale; TLC has to reject every corrupted recording."""
    ctx = harness.Ctx(prop, 'quick', seed)
    ctx.scale = 1
    rnd = random.Random(seed)
    judge, missed, tried = ctx.judge, {}, 0

    def spoiled(module, trace, invariant=None, meta=None, env=None, **kw):
        nonlocal tried
        if judge(module, trace, invariant, meta, env, **kw):
            raise CheckError('the unchanged trace is rejected')
        data = json.load(open(trace))
        # (C17 exempts the stories that were extended: several attempts)
        for _ in range(rounds if prop != 'C17' else 4):
            for what, d in corruptions(prop, data, rnd):
                json.dump(d, open(trace + '.bad', 'w'))
                tried += 1
                try:
                    found = judge(module, trace + '.bad', invariant, meta, env, **dict(kw, count=False))
                except CheckError:
                    # (no step of the specification could have made such a recording)
                    found = {'at': 'no step'}
                print('  %-24s %s' % (what, 'rejected at %s' % found['at'] if found else 'NOT REJECTED'), flush=True)
                missed[what] = missed.get(what, True) and not found
        if tried:
            raise Enough()
        return None
    ctx.judge = spoiled
    try:
        check(ctx)
    except Enough:
        pass
    finally:
        ctx.close()
    missed = [w for w in missed if missed[w]]
    print('%s: %d corrupted recordings, kinds never rejected: %s' % (prop, tried, missed or 'none'))
    return missed


def replay(path):
    doc = json.load(open(path))
    found = doc.get('found')
    ctx = harness.Ctx(doc['property'], 'quick', doc['seed'])
    try:
        try:
            trace = ctx.drive({'texts': doc['texts'], 'runs': doc['scripts']}, doc.get('name', 'core'))
        except harness.Violation as v:
            print('reproduced: ' + v.what)
            return 1
        if not found:
            print('not reproduced')
            return 0
        again = ctx.judge(found['module'], trace, found['invariant'], doc.get('meta'), doc.get('env'))
        print('reproduced: %s %s\n%s' % (again['invariant'], again['at'], again['state']) if again else 'not reproduced')
        return 1 if again else 0
    finally:
        ctx.close()
