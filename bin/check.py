#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  check.py ID [--tier quick|thorough] [--seed N]   exit 0: held; 1: VIOLATION printed; 2: the check itself failed
  check.py --replay FILE                           re-runs one recorded scenario and prints what differs

Steps: build the driver from /repo; model check the specification (spec/*.tla) for the property's invariants;
generate scenarios (random families and every behaviour TLC enumerated); run them on the real library; replay the
recorded calls on the specification (TLC, spec/SVTrace.tla); report differences that concern the property.
"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen      # noqa: E402
import props    # noqa: E402

REPO = os.environ.get('REPO', '/repo')
JOBS = max(1, min(8, os.cpu_count() or 4))
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tlc(work, module, cfg, env=None, workers=1, heap='3g', timeout=3600, extra=()):
    """Runs TLC in |work| (a directory with the specification); returns its output."""
    md = tempfile.mkdtemp(dir=work, prefix='md')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-cp', JAR,
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, cwd=work, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ''
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        shutil.rmtree(md, ignore_errors=True)
        return -1, out
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def spec_copy(tmp, name='spec'):
    d = os.path.join(tmp, name)
    if not os.path.isdir(d):
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), d)
    return d


def build(tmp, variant=''):
    out = os.path.join(tmp, 'build' + variant)
    r = sh(['bash', os.path.join(ROOT, 'harness', 'build.sh'), out] + ([variant] if variant else []),
           env=dict(os.environ, REPO=REPO))
    if r.returncode:
        raise CheckError('the driver does not build from %s:\n%s' % (REPO, r.stdout[-3000:]))
    return out


def version():
    """The version the library claims to be, from its own header."""
    for base, _, files in os.walk(os.path.join(REPO, 'lib', 'src')):
        for f in files:
            if f.endswith('.h'):
                m = re.search(r'#define\s+SIGNED_VIDEO_VERSION\s+"([^"]+)"', open(os.path.join(base, f)).read())
                if m:
                    return m.group(1)
    return 'v0.0.0'


# ---------------------------------------------------------------- driver and trace validation
def split(lines):
    """Events of a recording, grouped by scenario: [(id, [event lines])]"""
    out = []
    for ln in lines:
        if ln.startswith('{"op":"scn"'):
            out.append((json.loads(ln)['id'], [ln]))
        elif out:
            out[-1][1].append(ln)
    return out


def drive(binary, scns, limit=40):
    """Runs scenarios [(name, text)] on the library. Returns ([(id, events)], [(name, 'crash'|'hang', info)])."""
    recs, bad = [], []
    todo = list(scns)
    while todo:
        p = subprocess.run([binary, os.path.join(ROOT, 'keys'), str(limit)], input=''.join(t for _, t in todo).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', MALLOC_PERTURB_='165'))
        lines = [x for x in p.stdout.decode(errors='replace').split('\n') if x]
        # an event that was being written when the process died
        if lines and p.returncode != 0 and not lines[-1].endswith('}'):
            lines.pop()
        got = split(lines)
        if p.returncode == 0:
            if len(got) != len(todo):
                raise CheckError('driver: %d scenarios in, %d out' % (len(todo), len(got)))
            recs += got
            return recs, bad
        if p.returncode in (2, 3, 4):
            raise CheckError('driver: exit %d %s' % (p.returncode, p.stderr.decode(errors='replace')[-500:]))
        k = len(got) - 1
        recs += got[:k]
        err = p.stderr.decode(errors='replace')
        m = re.search(r'ERROR: AddressSanitizer: (\S+).*', err)
        info = m.group(0)[:200] if m else 'signal %d' % -p.returncode
        if m:
            fr = re.findall(r'#\d+ 0x\w+ in (\w+)', err)
            info += ' in ' + '<'.join(fr[:6])
        bad.append((todo[max(k, 0)][0], 'hang' if p.returncode == -14 else 'crash', info))
        todo = todo[max(k, 0) + 1:]
        if len(bad) > 12 or sum(b[1] == 'hang' for b in bad) > 1:
            break
    return recs, bad


MM = re.compile(r'^<<"MISMATCH", "([^"]*)", (\d+), "([^"]*)", "([^"]*)", (.*)>>$')


def parse_mm(out):
    res = []
    # a PrintT of a long tuple is broken over several lines
    joined = re.sub(r'\n\s+', ' ', out)
    for ln in joined.split('\n'):
        ln = ln.strip()
        if not ln.startswith('<<"MISMATCH"') and not ln.startswith('<< "MISMATCH"'):
            continue
        ln = re.sub(r'^<<\s+', '<<', ln)
        ln = re.sub(r'\s+>>$', '>>', ln)
        m = MM.match(ln)
        if not m:
            raise CheckError('cannot parse: ' + ln[:300])
        vals = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(5))
        want, have = (vals + ['', ''])[:2]
        res.append(dict(scn=m.group(1), n=int(m.group(2)), op=m.group(3), cat=m.group(4),
                        want=want.replace('\\"', '"'), got=have.replace('\\"', '"')))
    return res


def validate(work, recs, tag, module='SVTrace.tla', cfg='SVTrace.cfg'):
    """Replays recordings on the specification. Returns (mismatches, states)."""
    out, states = [], 0
    todo = list(recs)
    rejects = 0
    while todo:
        tr = os.path.join(work, 'trace.%s.ndjson' % tag)
        with open(tr, 'w') as f:
            for _, ev in todo:
                f.write('\n'.join(ev) + '\n')
        n = sum(len(ev) for _, ev in todo)
        rc, txt = tlc(work, module, cfg, env=dict(TRACE=tr, SVVERSION=version()), timeout=1500)
        os.unlink(tr)
        m = re.search(r'"TRACEDONE", (\d+), (\d+)', txt)
        if rc == 0 and m and int(m.group(1)) == n and int(m.group(2)) == n + 1:
            states += n
            return out + parse_mm(txt), states
        # The specification has no answer for some event: find the scenario and go on with the others.
        steps = [int(x) for x in re.findall(r'^(?:/\\ )?i = (\d+)', txt, re.M)]
        if not steps:
            raise CheckError('TLC failed on a trace:\n' + txt[-3000:])
        at, acc, k = steps[-1], 0, None
        for j, (_, ev) in enumerate(todo):
            if acc < at <= acc + len(ev):
                k = j
                break
            acc += len(ev)
        if k is None:
            raise CheckError('TLC failed on a trace, at event %d of %d:\n%s' % (at, n, txt[-3000:]))
        why = re.findall(r'(?:Error: |Reason: )(.*)', txt)
        done = {i for i, _ in todo[:k]}
        out += [x for x in parse_mm(txt) if x['scn'] in done or x['scn'] == todo[k][0]]
        out.append(dict(scn=todo[k][0], n=at - acc - 1, op='', cat='trace.reject', want='explained by the specification',
                        got=' '.join(why)[:160]))
        states += at
        todo = todo[k + 1:]
        rejects += 1
        if rejects > 6:
            break
    return out, states


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='svv.')
        self.builds = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, samples=[])
        self.samples = []
        self.quick = tier == 'quick'

    def bin(self, name='svh', variant=''):
        if variant not in self.builds:
            self.builds[variant] = build(self.tmp, variant)
        return os.path.join(self.builds[variant], name)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def run_scenarios(ctx, scns, binary):
    """All scenarios, in parallel shards. Returns mismatches, crashes included."""
    work = spec_copy(ctx.tmp)
    scns = list(scns)
    shards = [[] for _ in range(JOBS * (1 if len(scns) < 6000 else 4))]
    # balance by size
    load = [0] * len(shards)
    for nm, t in scns:
        k = load.index(min(load))
        shards[k].append((nm, t))
        load[k] += t.count('\n')
    ctx.shards = shards

    def one(k):
        if not shards[k]:
            return [], 0, 0
        recs, bad = drive(binary, shards[k])
        mm, st = validate(work, recs, 's%d' % k) if recs else ([], 0)
        mm += [dict(scn=n, n=0, op='', cat=c, want='returns', got=i) for n, c, i in bad]
        return mm, st, len(recs)

    out = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for mm, st, n in ex.map(one, range(len(shards))):
            out += mm
            ctx.cov['events'] += st
            ctx.cov['traces_validated_against_impl'] += n
    return out


# ---------------------------------------------------------------- model checking
def tla_set(x):
    return '{' + ', '.join(tla_val(v) for v in x) + '}'


def tla_val(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, tuple):
        return '<<' + ', '.join(tla_val(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset, list)):
        return tla_set(v)
    raise ValueError(v)


def model_check(ctx, name, mc, emit=False):
    """Exhaustive TLC run of one bounded instance. Returns emitted lines."""
    work = spec_copy(ctx.tmp)
    mod = 'MC_' + name
    defs, cons = [], []
    for k, v in mc['consts'].items():
        defs.append('mc%s == %s' % (k, tla_val(v)))
        cons.append('  %s <- mc%s' % (k, k))
    with open(os.path.join(work, mod + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (mod, mc['module'], '\n'.join(defs)))
    invs = list(mc['invariants']) + (['Emit'] if emit else [])
    with open(os.path.join(work, mod + '.cfg'), 'w') as f:
        f.write('CONSTANTS\n%s\nSPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join(cons), mc.get('spec', 'Spec')))
        if invs:
            f.write('INVARIANT %s\n' % ' '.join(invs))
        if mc.get('properties'):
            f.write('PROPERTY %s\n' % ' '.join(mc['properties']))
        if mc.get('alias'):
            f.write('ALIAS %s\n' % mc['alias'])
    rc, out = tlc(work, mod + '.tla', mod + '.cfg', workers=JOBS, heap='12g', timeout=mc.get('timeout', 3000))
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ', ').replace(',  ', ', ')) or \
        re.findall(r'([\d]+) states generated, ([\d]+) distinct states found', out)
    if rc == -1:
        # bounded by time: what was explored held
        m2 = re.findall(r'Progress\(\d+\)[^:]*: ([\d,]+) states generated[^,]*, ([\d,]+) distinct', out)
        if 'is violated' in out or 'Error:' in out or not m2:
            raise CheckError('model %s: no result within the time limit\n%s' % (name, out[-2000:]))
        g, d = (int(x.replace(',', '')) for x in m2[-1])
        ctx.cov['transitions'] += g
        ctx.cov['states'] += d
        log('model %s: %d states (time limit reached), invariants %s hold on them' % (name, d, ' '.join(mc['invariants'])))
        return [x for x in out.split('\n') if x.startswith('"BEH ') or x.startswith('BEH ')]
    if rc != 0 or not m:
        raise CheckError('model %s: the specification does not satisfy its invariants, or TLC failed:\n%s'
                         % (name, '\n'.join(x for x in out.split('\n') if 'BEH ' not in x)[-3500:] + '\n' + '; '.join(re.findall(r'Error: .*', out))))
    ctx.cov['transitions'] += int(m[-1][0])
    ctx.cov['states'] += int(m[-1][1])
    log('model %s: %s distinct states, invariants %s hold' % (name, m[-1][1], ' '.join(mc['invariants'])))
    return [x for x in out.split('\n') if x.startswith('"BEH ') or x.startswith('BEH ')]


# ---------------------------------------------------------------- one property
def known_findings():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\w+) match=(\S+) (.*)', ln)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return out


def key(mm):
    return '%s:%s:%s' % (mm['scn'].split('.')[0], mm['op'], mm['cat'])


def confirm(ctx, binary, name, text, pred):
    """Runs one scenario alone, again: a violation counts only if it repeats."""
    work = spec_copy(ctx.tmp)
    recs, bad = drive(binary, [(name, text)], limit=60)
    mm, _ = validate(work, recs, 'confirm') if recs else ([], 0)
    mm += [dict(scn=n, n=0, op='', cat=c, want='returns', got=i) for n, c, i in bad]
    return [x for x in mm if pred(x)]


def confirm_after(ctx, binary, name, pred):
    """A difference that does not appear when the scenario is alone in a process may be due to what the library was
    used for before it. Returns (text, differences), the text with as few as possible of those scenarios in front."""
    work = spec_copy(ctx.tmp)
    for sh in getattr(ctx, 'shards', []):
        k = next((k for k, (nm, _) in enumerate(sh) if nm == name), None)
        if k is None:
            continue
        for n in sorted({n for n in (1, 4, 16, 64, k) if 0 < n <= k}):
            part = sh[k - n:k + 1]
            recs, bad = drive(binary, part)
            recs = [r for r in recs if r[0] == name]
            mm, _ = validate(work, recs, 'confirm') if recs else ([], 0)
            mm += [dict(scn=nm, n=0, op='', cat=c, want='returns', got=i) for nm, c, i in bad if nm == name]
            mm = [x for x in mm if pred(x)]
            if mm:
                return ''.join(t for _, t in part), mm
    return '', []


def run_property(pid, tier, seed):
    t0 = time.time()
    P = props.PROPS[pid]
    ctx = Ctx(pid, tier, seed)
    viol = []
    try:
        if 'runner' in P:
            viol = P['runner'](ctx, sys.modules[__name__])
        else:
            scns = {}
            part = 0 if ctx.quick else 1
            beh = []
            for nm, mc in P.get('models', {}).items():
                inst = mc['quick'] if ctx.quick else mc['thorough']
                for j, one in enumerate(inst if isinstance(inst, list) else [inst]):
                    lines = model_check(ctx, '%s%d' % (nm, j), one, emit=one.get('emit', False))
                    if one.get('emit'):
                        beh += gen.behaviours(lines, ctx.seed, one.get('max', 10 ** 9))
            for nm, t in beh:
                scns[nm] = t
            ctx.cov['behaviours_from_model'] = sum(t.count('\nnew 1 V') for _, t in beh)
            for fam, n in P['families'].items():
                for sc in gen.make(fam, ctx.seed, n[part]):
                    scns[sc.name] = sc.text()
            binary = ctx.bin(P.get('binary', 'svh'), P.get('variant', ''))
            mms = run_scenarios(ctx, list(scns.items()), binary)
            wrong = [x for x in mms if x['cat'].startswith('driver.')]
            if wrong:
                raise CheckError('the driver builds something else than asked for: %s' % wrong[0])
            rng = random.Random(ctx.seed)
            names = sorted(scns)
            ctx.cov['samples'] = [scns[x] for x in rng.sample(names, min(2, len(names)))]
            pred = P['pred']
            hits = {}
            for x in mms:
                if pred(x):
                    hits.setdefault(x['scn'], []).append(x)
            others = [x for x in mms if not pred(x)]
            if others:
                log('note: %d differences that do not concern %s, e.g. %s' % (len(others), pid, others[0]))
            for s in sorted(hits, key=lambda s: len(scns[s]))[:8]:
                again = confirm(ctx, binary, s, scns[s], pred)
                if again:
                    viol.append((s, scns[s], again))
                    if len(viol) >= 3:
                        break
                    continue
                text, again = confirm_after(ctx, binary, s, pred)
                if again:
                    viol.append((s, text, again))
                    if len(viol) >= 3:
                        break
                else:
                    log('note: a difference in %s did not repeat' % s)
            ctx.cov['scenarios'] = len(scns)
        known = known_findings()
        rest = []
        for s, text, mm in viol:
            k = [d for p, rx, d in known if p == pid and all(rx.search(key(x)) for x in mm)]
            if k:
                log('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
            else:
                rest.append((s, text, mm))
        for s, text, mm in rest[:3]:
            d = os.path.join(ROOT, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.%s.txt' % (pid, re.sub(r'[^\w.]', '_', s)))
            with open(path, 'w') as f:
                for x in mm[:12]:
                    f.write('# %s\n' % json.dumps(x))
                f.write(text)
            log('%s: %s' % (s, json.dumps(mm[0])[:700]))
            log('VIOLATION property=%s replay=%s' % (pid, path))
        if not ctx.cov['samples']:
            ctx.cov['samples'] = ['none']
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=ctx.cov,
                  wall_s=round(time.time() - t0, 1), violations=len(rest), assumptions=P.get('assumptions', props.ASSUME))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s %s: %d model states, %d traces (%d events) checked against the specification, %.0f s: %s' % (
            pid, tier, ctx.cov['states'], ctx.cov['traces_validated_against_impl'], ctx.cov['events'], time.time() - t0,
            'VIOLATED' if rest else 'held'))
        return 1 if rest else 0
    finally:
        ctx.close()


def replay(path):
    text = ''.join(x for x in open(path) if not x.startswith('#'))
    tmp = tempfile.mkdtemp(prefix='svv.')
    try:
        if '# plugin ' in open(path).read():
            import plugin
            return plugin.replay(sys.modules[__name__], tmp, path, text)
        b = build(tmp)
        recs, bad = drive(os.path.join(b, 'svhm' if 'plug ' in text else 'svh'), [
            (x.split()[1], x) for x in re.split(r'(?m)^(?=scn )', text) if x.strip()])
        mm, _ = validate(spec_copy(tmp), recs, 'r') if recs else ([], 0)
        for _, ev in recs:
            print('\n'.join(ev))
        for x in mm + bad:
            print(x)
        return 1 if mm or bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        return run_property(a.id, a.tier, a.seed)
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
