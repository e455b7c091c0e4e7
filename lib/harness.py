"""Builds the driver from /repo, runs it, and lets TLC judge what it recorded."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEMNET_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
BASE = os.environ.get('VERIF_SCRATCH', '/tmp')


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, prop, what, replay):
        super().__init__(what)
        self.prop, self.what, self.replay = prop, what, replay


def go_env():
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '')
    env.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GONOSUMDB='*', GOSUMDB='off')
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix='semnet-%s-' % prop, dir=BASE)
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.scale = 2 if prop == 'C14' or tier == 'thorough' else 3
        self.cov = {}
        self.n = 0
        self.bin = {}
        shutil.copytree(os.path.join(VERIF, 'spec'), os.path.join(self.dir, 'spec'))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    # the real code ---------------------------------------------------------

    def build(self, name):
        """Compile a driver together with the working tree of /repo."""
        if name in self.bin:
            return self.bin[name]
        src = os.path.join(self.dir, 'driver')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'driver'), src)
            if REPO != '/repo':
                mod = os.path.join(src, 'go.mod')
                text = open(mod).read().replace('=> /repo', '=> ' + REPO)
                open(mod, 'w').write(text)
        out = os.path.join(self.dir, name)
        if name in ('layers', 'inner', 'items'):
            # these see the layers below the public interface
            overlay = os.path.join(self.dir, name + '.overlay.json')
            at = REPO + '/verif_' + name
            json.dump({'Replace': {at + '/main.go': src + '/' + name + '/main.go.txt', at + '/mem/mem.go': src + '/mem/mem.go'}}, open(overlay, 'w'))
            cmd, cwd = ['go', 'build', '-overlay', overlay, '-o', out, './verif_' + name], REPO
        else:
            cmd, cwd = ['go', 'build', '-o', out, './' + name], src
        p = subprocess.run(cmd, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if '/mem/mem.go:' in p.stdout:
                # not for want of a layer of the repository: no check may go on with less
                print('the storage of the drivers does not build:\n' + p.stdout[-4000:])
                sys.exit(2)
            raise CheckError('cannot build the driver %s:\n%s' % (name, p.stdout[-4000:]))
        self.bin[name] = out
        return out

    def drive(self, job, name='core', timeout=600, serial=False):
        """Run scripts against the real code; returns the recorded trace file."""
        self.n += 1
        inp = os.path.join(self.dir, 'job%d.json' % self.n)
        out = os.path.join(self.dir, 'trace%d.json' % self.n)
        json.dump(job, open(inp, 'w'))
        exe = self.build(name)
        self.last_job = job
        for one in ('1',) if serial else ('', '1'):
            env = dict(os.environ, SERIAL=one)
            try:
                p = subprocess.run([exe, inp, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=timeout, env=env, errors='replace')
            except subprocess.TimeoutExpired:
                raise CheckError('the driver did not finish in %d s' % timeout)
            # the driver runs histories side by side, which the code need not support
            if 'fatal error: concurrent map' not in p.stdout or self.prop == 'C24':
                break
        m = re.search(r'STUCK run=(\d+) step=(\d+)', p.stdout)
        shared = self.prop == 'C24' and 'fatal error: concurrent map' in p.stdout
        if m or shared or 'goroutine stack exceeds' in p.stdout:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            doc = {'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'driver': p.stdout[:4000], 'texts': job.get('texts')}
            doc['scripts'] = [job['runs'][int(m.group(1)) - 1]] if m else job['runs']
            json.dump(doc, open(path, 'w'), indent=1)
            raise Violation(self.prop, 'graphs over different storages change the same map' if shared else 'a call of the real code did not come back', path)
        if p.returncode != 0:
            raise CheckError('the driver died:\n' + p.stdout[:4000])
        return out

    # TLC ---------------------------------------------------------------------

    def run_tlc(self, module, cfg, env=None, timeout=850, workers=8, extra=()):
        self.n += 1
        cfgf = os.path.join(self.dir, 'spec', 'cfg%d.cfg' % self.n)
        open(cfgf, 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        meta = os.path.join(self.dir, 'meta%d' % self.n)
        cmd = ['java', '-Xss64m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfgf, *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=os.path.join(self.dir, 'spec'), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish in %d s on %s' % (timeout, module))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return p.returncode, p.stdout

    def judge(self, module, trace, invariant=None, meta=None, env=None, count=True, constants='', post=True):
        """Let TLC decide whether the recorded runs satisfy the invariant."""
        inv = invariant or 'Inv_' + self.prop
        cfg = 'SPECIFICATION %s\nINVARIANT %s\n%sCHECK_DEADLOCK FALSE\n%s' % ('SeveralSpec' if module == 'Several' else 'Spec', inv, 'POSTCONDITION AllConsumed\n' if post else '', constants)
        e = {'TRACE': trace}
        if meta is not None:
            mf = trace + '.meta'
            json.dump(meta, open(mf, 'w'))
            e['META'] = mf
        e.update(env or {})
        rc, out = self.run_tlc(module, cfg, e)
        if 'is violated.' in out and 'Invariant %s is violated' % inv in out:
            return self.violated(module, inv, out)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('TLC failed on %s (%d):\n%s' % (module, rc, out[-3000:]))
        if count:
            self.traces += len(self.last_job['runs'])
        return None

    def violated(self, module, inv, out):
        last = out[out.rindex('State '):] if 'State ' in out else out
        last = last[:last.index('\n\n')] if '\n\n' in last else last
        var = dict(re.findall(r'/\\ (run|pair|l|k|phase) = (\d+)', last))
        return {'module': module, 'invariant': inv, 'at': {k: int(v) for k, v in var.items()}, 'state': last[:3000]}

    def replay_file(self, found, trace, meta=None, env=None, name='core'):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
        data = json.load(open(trace))
        at = found['at']
        doc = {'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'found': found}
        runs = []
        if 'pair' in at and meta:
            pr = meta['pairs'][at['pair'] - 1]
            runs = [pr['a'], pr['b']]
        elif 'run' in at:
            runs = [at['run']]
        doc['scripts'] = [self.last_job['runs'][r - 1] for r in runs if r - 1 < len(self.last_job['runs'])]
        doc['texts'] = self.last_job['texts']
        doc['name'], doc['env'] = name, env
        if 'pair' in at and meta:
            doc['meta'] = {'pairs': [dict(pr, a=1, b=2)]}
        ev = [data['runs'][r - 1]['ev'] for r in runs]
        if ev and 'l' in at and at['l'] > 0 and at['l'] <= len(ev[-1]):
            doc['event'] = ev[-1][at['l'] - 1]
            rows = data.get('rows', [])
            if 'rows' in doc['event']:
                doc['rows'] = {r: rows[r - 1] for r in doc['event']['rows'] if isinstance(r, int) and r > 0}
        doc['observed_texts'] = [''.join(map(chr, x)) if all(0 <= c < 0x110000 for c in x) else x
                                 for x in data.get('texts', [])][:400]
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        return path

    def check(self, module, job, invariant=None, meta=None, env=None, name='core', constants=''):
        """Drive and judge; raise Violation when the real code broke the property."""
        trace = self.drive(job, name)
        found = self.judge(module, trace, invariant, meta, env, constants=constants)
        if found:
            path = self.replay_file(found, trace, meta, env, name)
            if self.prop == 'C24' or self.confirmed(path, job, found, meta, env, name, constants):
                raise Violation(self.prop, '%s %s' % (found['invariant'], found['at']), path)
            # only when histories run side by side: C24 is about that
            self.add('only_side_by_side')
        if not os.environ.get('KEEP_TRACES'):
            os.unlink(trace)
        return trace

    def confirmed(self, path, job, found, meta, env, name, constants):
        """Whether a violation shows when nothing else runs in the process."""
        doc = json.load(open(path))
        try:
            if doc['scripts']:
                trace = self.drive({'texts': doc['texts'], 'runs': doc['scripts']}, name, serial=True)
                if self.judge(found['module'], trace, found['invariant'], doc.get('meta'), env, count=False, constants=constants, post=False):
                    return True
            trace = self.drive(job, name, serial=True)
            return bool(self.judge(found['module'], trace, found['invariant'], meta, env, constants=constants))
        except Violation as v:
            os.replace(v.replay, path) if v.replay != path else None
            return True
        except CheckError:
            return True
        finally:
            self.last_job = job

    def golden(self, texts, told):
        """Stores written by the specification for these histories."""
        self.n += 1
        inp = os.path.join(self.dir, 'told%d.json' % self.n)
        out = os.path.join(self.dir, 'golden%d.json' % self.n)
        json.dump({'texts': texts, 'runs': [{'ops': o} for o in told]}, open(inp, 'w'))
        rc, text = self.run_tlc('Golden', 'SPECIFICATION Spec\nINVARIANT Faithful\nCHECK_DEADLOCK FALSE\n',
                                {'HISTORIES': inp, 'GOLDEN': out})
        if rc != 0 or 'No error has been found' not in text:
            raise CheckError('Golden failed:\n' + text[-3000:])
        stores = []
        for i in range(len(told)):
            name = '%s.%d' % (out, i + 1)
            stores.append(json.load(open(name)))
            os.unlink(name)
        return stores

    def histories(self, depth):
        """All histories of the specification of that length, from TLC."""
        rc, out = self.run_tlc('Gen', 'SPECIFICATION Spec\nINVARIANT Emit\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n' % depth,
                               workers=1)
        hs = []
        for line in out.splitlines():
            if line.startswith('"HIST '):
                hs.append(json.loads(json.loads(line)[5:]))
        if rc != 0 or not hs:
            raise CheckError('Gen failed:\n' + out[-2000:])
        return hs


def evidence(ctx, level, violations, assumptions):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(ctx.cov)
    cov.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples[:5] or ['(none)'])
    doc = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
           'assumptions': assumptions, 'wall_s': round(time.time() - ctx.start, 2), 'violations': violations}
    json.dump(doc, open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w'), indent=1)


def main(checks, level_of, assumptions_of, before):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    try:
        before(ctx)
        checks[prop](ctx)
        evidence(ctx, level_of(prop), 0, assumptions_of(prop))
        print('%s held on everything explored (%d recorded runs, %d TLC states, %.1f s)'
              % (prop, ctx.traces, ctx.states, time.time() - ctx.start))
        return 0
    except Violation as v:
        evidence(ctx, level_of(prop), 1, assumptions_of(prop))
        print('%s: %s' % (prop, v.what))
        print('VIOLATION property=%s replay=%s' % (v.prop, v.replay))
        return 1
    except CheckError as err:
        print('ERROR %s: %s' % (prop, err))
        return 2
    except Exception:
        # a failure of the machinery says nothing about the code
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
