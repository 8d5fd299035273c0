"""P22: the signing plugins. Scenarios (programs of caller threads and schedules), and the check."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess

SIZES = [32, 48, 64]


class Sc:
    def __init__(self, name, **opt):
        self.name, self.opt, self.progs, self.h = name, opt, [], 0
        self.cnt = {}
        self.fails = []

    def op(self, t, *a):
        self.progs.append('prog %d %s' % (t, ' '.join(str(x) for x in a)))
        self.cnt[t] = self.cnt.get(t, 0) + 1

    def hash(self, rng, pf=0.1):
        self.h += 1
        h = self.h * 10 + (9 if rng.random() < pf else rng.randint(0, 8))
        if h % 10 == 9:
            self.fails.append(h)
        return h

    def text(self):
        o = dict(self.opt)
        if self.fails:
            o['fail'] = ','.join(str(x) for x in self.fails[:60])
        return 'scn %s %s\n%s\nend\n' % (self.name, ' '.join('%s=%s' % x for x in o.items() if x[1] != ''), '\n'.join(self.progs))


def opts(rng):
    return dict(seed=rng.randint(1, 10 ** 9), fine=rng.choice([0, 0, 1]), spur=rng.choice([0, 0, 1]))


def session(sc, rng, t, s, key, n, size, pf, finish=True, pget=0.5, rsa=False):
    rsa = rsa or key == 'R'
    sc.op(t, 'setup', s, key)
    out = 0
    for _ in range(n):
        x = rng.random()
        if x < 1 - pget:
            y = rng.random()
            if y < 0.03:
                sc.op(t, 'sign', s, 1, rng.choice([0, -1]))
            elif y < 0.05 and not rsa:
                sc.op(t, 'sign', s, sc.hash(rng, pf), rng.choice(SIZES))
            else:
                sc.op(t, 'sign', s, sc.hash(rng, pf), size)
            out += 1
        else:
            sc.op(t, 'get', s, rng.choice([0, 0, 0, 0, 0, 0, 8, 600]), rng.choice([0, 0, 0, 1]))
    if finish:
        for _ in range(rng.randint(0, out + 2)):
            sc.op(t, 'get', s)
        if rng.random() < 0.85:
            sc.op(t, 'drop', s)
            if rng.random() < 0.1:
                sc.op(t, 'sign', s, sc.hash(rng), size)
                sc.op(t, 'get', s)


def f_local(rng, i):
    sc = Sc('local.%d' % i, **opts(rng))
    s = 0
    for t in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 2)):
            s += 1
            key = rng.choice('AAABR')
            session(sc, rng, t, s, key, rng.randint(1, 14), 32 if key == 'R' else rng.choice(SIZES), 0.12, pget=rng.choice([0.2, 0.5, 0.7]))
    return sc


def f_central(rng, i):
    sc = Sc('central.%d' % i, **opts(rng))
    key = rng.choice('AAABR')
    size = 32 if key == 'R' else rng.choice(SIZES)
    sc.op(0, rng.choice(['init', 'initold']), key)
    if rng.random() < 0.1:
        sc.op(0, 'init', 'B')
    s, nt = 0, rng.randint(1, 3)
    first = sc.cnt[0]
    for t in range(1, nt + 1):
        sc.op(t, 'wait', 0, first)
        for _ in range(rng.choice([1, 1, 2])):
            s += 1
            session(sc, rng, t, s, rng.choice(['-', 'A', 'B']), rng.randint(1, 12), size, 0.12, pget=rng.choice([0.2, 0.5, 0.7]), rsa=key == 'R')
    for t in range(1, nt + 1):
        sc.op(0, 'wait', t, sc.cnt[t])
    if rng.random() < 0.8:
        sc.op(0, 'exit')
        if rng.random() < 0.3:
            sc.op(0, 'exit')
        if rng.random() < 0.3:
            sc.op(0, 'init', key)
            session(sc, rng, 0, s + 1, '-', 5, size, 0.1, rsa=key == 'R')
            sc.op(0, 'exit')
    return sc


def f_stale(rng, i):
    """The central engine is ended while sessions are open and hashes are being signed; sessions are closed afterwards."""
    sc = Sc('stale.%d' % i, **opts(rng))
    sc.op(0, 'init', 'A')
    for s in (1, 2):
        sc.op(0, 'setup', s)
    for _ in range(rng.randint(1, 8)):
        s = rng.choice((1, 2))
        sc.op(0, *(('sign', s, sc.hash(rng), 32) if rng.random() < 0.7 else ('get', s)))
    sc.op(0, 'exit')
    for s in (1, 2):
        if rng.random() < 0.5:
            sc.op(0, 'sign', s, sc.hash(rng), 32)
            sc.op(0, 'get', s)
        sc.op(0, 'drop', s)
    return sc


def f_init(rng, i):
    """Starting and ending the central engine, with keys that are none and threads that do not start."""
    sc = Sc('init.%d' % i, **dict(opts(rng), nothread=rng.choice([0, 0, 1, 2])))
    s = 0
    for _ in range(rng.randint(2, 5)):
        x = rng.random()
        if x < 0.4:
            sc.op(0, rng.choice(['init', 'initold']), rng.choice(['A', 'B', 'x', 'A']))
        elif x < 0.6:
            sc.op(0, 'exit', rng.choice([0, 0, 1]))
        elif s < 7:
            s += 1
            session(sc, rng, 0, s, rng.choice(['A', 'B', 'x', '-']), rng.randint(0, 5), 32, 0.1)
            if not sc.progs[-1].split()[2] == 'drop':
                sc.op(0, 'drop', s)
    return sc


def f_full(rng, i):
    """Buffers run full: nobody collects, or signing is held up."""
    central = rng.random() < 0.7
    sc = Sc('full.%d' % i, **dict(opts(rng), spur=0))
    tok, t0 = '', 0
    n = rng.randint(55, 66)
    if central:
        sc.op(0, 'init', 'A')
        two = rng.random() < 0.6
        for s in (1, 2):
            sc.op(0, 'setup', s)
        tok = '0a' * 3 + '00'
        for k in range(n):
            sc.op(0, 'sign', (1 if k < n // 2 else 2) if two else rng.choice((1, 2)), sc.hash(rng, 0), 32)
    else:
        sc.op(0, 'setup', 1, 'A')
        tok = '0a' * 2 + '0'
        for k in range(n):
            sc.op(0, 'sign', 1, sc.hash(rng, 0), 32)
    # the worker runs in step, or not at all until everything was handed in
    how = rng.choice(['step', 'late', 'behind'])
    if how == 'step':
        tok += '0a' * n + 'a' * 3
    elif how == 'late':
        tok += '0' * n
    else:
        tok += ''.join(rng.choice(['0a', '0', '0a']) for _ in range(n))
    if rng.random() < 0.7:
        extra = rng.randint(1, 64)
        for k in range(extra):
            sc.op(0, 'sign', rng.choice((1, 2)) if central else 1, sc.hash(rng, 0), 32)
        tok += rng.choice(['0a', '0', 'a' * 70 + '0']) * extra
    tok += rng.choice(['', 'a' * 130])
    for k in range(rng.choice([3, 30, 140])):
        sc.op(0, 'get', (1 if k % 2 else 2) if central else 1)
        tok += rng.choice(['0', '0a', '0aa'])
    if central and rng.random() < 0.5:
        sc.op(0, 'drop', 1)
    for k in range(rng.randint(0, 5)):
        sc.op(0, 'sign', 2 if central else 1, sc.hash(rng, 0), 32)
    for k in range(rng.choice([0, 70])):
        sc.op(0, 'get', 2 if central else 1)
        tok += '0aa'
    if rng.random() < 0.5:
        sc.op(0, 'drop', 2 if central else 1)
    sc.opt['sched'] = tok
    return sc


def f_unthr(rng, i):
    sc = Sc('unthr.%d' % i, **opts(rng))
    if rng.random() < 0.3:
        sc.op(0, 'init', 'A')
    for s in range(1, rng.randint(2, 4)):
        key = rng.choice(['A', 'B', 'R', 'A', 'x', '-'])
        session(sc, rng, 0, s, key, rng.choice([3, 10, 20, 90]), 32, 0.1, pget=rng.choice([0.1, 0.5]))
    sc.op(0, 'exit')
    return sc


FAM = dict(local=f_local, central=f_central, stale=f_stale, init=f_init, full=f_full, unthr=f_unthr)


def make(fam, seed, n):
    return [(x.name, x.text()) for x in (FAM[fam](random.Random('%s/%d/%d' % (fam, seed, i)), i) for i in range(n))]


def behaviours(lines, seed, limit):
    """BEH <<<<"init", 0, 0>>, <<"sign", 1, 100>>, <<"w", 0, 0>>, ...>> as programs and schedule, one thread per session."""
    uniq = sorted(set(lines))
    random.Random(seed).shuffle(uniq)
    out = []
    for k, ln in enumerate(uniq[:limit]):
        steps = re.findall(r'<<\\?"(\w+)\\?", (\d+), (\d+)>>', ln)
        sc = Sc('beh.%d' % k, seed=k + 1)
        tok = ''
        central = any(f == 'init' for f, _, _ in steps)
        workers = {0: 'a'} if central else {}
        ended, told = False, set()
        for f, s, h in steps:
            s, h = int(s), int(h)
            if f == 'w':
                tok += workers.get(s, '')
                continue
            if f == 'init':
                sc.op(0, 'init', 'A')
                tok += '00a0'
            elif f == 'exit':
                # by contract nobody else is within a call then
                for o in (1, 2):
                    if o in sc.cnt:
                        sc.op(0, 'wait', o, sc.cnt[o])
                sc.op(0, 'exit')
                tok += '0'
                ended = True
            else:
                if ended and s not in told:
                    told.add(s)
                    sc.op(s, 'wait', 0, sc.cnt[0])
                if f == 'setup' and central:
                    sc.op(s, 'wait', 0, 1)
                    tok += str(s)
                if f == 'setup' and not central:
                    workers[s] = chr(ord('a') + len(workers))
                if f == 'sign':
                    sc.op(s, 'sign', s, h, 32)
                    if h % 10 == 9:
                        sc.fails.append(h)
                elif f == 'setup':
                    sc.op(s, 'setup', s, '-' if central else 'A')
                else:
                    sc.op(s, f, s)
                tok += '%d' % s + (workers[s] + '%d' % s if f == 'setup' and not central else '')
        sc.opt['sched'] = tok
        if not any(p.startswith('prog 0 ') for p in sc.progs):
            sc.op(0, 'wait', 0, 0)
        out.append((sc.name, sc.text()))
    return out


# ---------------------------------------------------------------- running
ENV = dict(TSAN_OPTIONS='report_thread_leaks=0:exitcode=0:atexit_sleep_ms=0', ASAN_OPTIONS='detect_leaks=0')


def drive(chk, binary, scns):
    p = subprocess.run([binary, os.path.join(chk.ROOT, 'keys'), '40'], input=''.join(t for _, t in scns).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=dict(os.environ, **ENV))
    if p.returncode:
        raise chk.CheckError('plugin driver: exit %d %s' % (p.returncode, p.stderr.decode(errors='replace')[-500:]))
    recs = chk.split([x for x in p.stdout.decode(errors='replace').split('\n') if x])
    if len(recs) != len(scns):
        raise chk.CheckError('plugin driver: %d scenarios in, %d out' % (len(scns), len(recs)))
    return recs


def validate(chk, work, recs, tag, plugin):
    """Which recordings the specification cannot explain: [(name, event number, event)], number of events."""
    bad, events, todo = [], 0, list(recs)
    while todo and len(bad) < 6:
        tr = os.path.join(work, 'ptrace.%s.ndjson' % tag)
        with open(tr, 'w') as f:
            for _, ev in todo:
                f.write('\n'.join(ev) + '\n')
        n = sum(len(ev) for _, ev in todo)
        rc, txt = chk.tlc(work, 'SPTrace.tla', 'SPTrace.cfg', env=dict(TRACE=tr, PLUGIN=plugin), timeout=1500)
        os.unlink(tr)
        m = re.search(r'"REACHED", (\d+), (\d+)', txt)
        if rc != 0 or not m or int(m.group(2)) != n:
            raise chk.CheckError('TLC failed on a plugin trace:\n' + txt[-3000:])
        at = int(m.group(1))
        events += at
        if at == n:
            break
        acc = 0
        for j, (nm, ev) in enumerate(todo):
            if at < acc + len(ev):
                bad.append((nm, at - acc, ev[at - acc]))
                todo = todo[j + 1:]
                break
            acc += len(ev)
    return bad, events


def category(ev):
    e = json.loads(ev)
    return {'race': 'race', 'dead': 'deadlock', 'misuse': 'misuse', 'crash': 'crash', 'hang': 'hang', 'quiet': 'stuck'}.get(e['op'], 'plugin.' + e['op'])


CONF = dict(quick=[dict(consts=dict(MaxBuf=1, Sessions={1, 2}, Central={True}, Hashes=2, Depth=0, Exits={True})),
                   dict(consts=dict(MaxBuf=1, Sessions={1, 2}, Central={False}, Hashes=2, Depth=0, Exits={False}))],
            thorough=[dict(consts=dict(MaxBuf=2, Sessions={1, 2}, Central={True}, Hashes=3, Depth=0, Exits={True})),
                      dict(consts=dict(MaxBuf=2, Sessions={1, 2}, Central={False}, Hashes=3, Depth=0, Exits={False})),
                      dict(consts=dict(MaxBuf=1, Sessions={1, 2, 3}, Central={True}, Hashes=1, Depth=0, Exits={False}))])
INV = ['InOrder', 'NothingLost', 'Bounded', 'NoStrangers']


def runner(ctx, chk):
    q = ctx.quick
    for k, c in enumerate(CONF['quick' if q else 'thorough']):
        chk.model_check(ctx, 'sp%d' % k, dict(module='SPSystem', spec='Fair', invariants=INV, properties=['Served'], **c))
    beh = []
    for k, cen in enumerate((True, False)):
        lines = chk.model_check(ctx, 'spb%d' % k, dict(module='SPSystem', invariants=INV, consts=dict(
            MaxBuf=60, Sessions={1, 2}, Central={cen}, Hashes=2, Depth=(7 if cen else 6) + (0 if q else 1), Exits={cen})), emit=True)
        beh += [(n.replace('beh', 'behc' if cen else 'behl'), t.replace('beh.', 'behc.' if cen else 'behl.', 1))
                for n, t in behaviours(lines, ctx.seed, 600 if q else 20000)]
    ctx.cov['behaviours_from_model'] = len(beh)
    out = os.path.join(ctx.tmp, 'pbuild')
    r = chk.sh(['bash', os.path.join(chk.ROOT, 'harness', 'build_plugin.sh'), out], env=dict(os.environ, REPO=chk.REPO))
    if r.returncode:
        raise chk.CheckError('the plugin driver does not build:\n' + r.stdout[-3000:])
    f = 1 if q else 10
    thr = beh[:]
    for fam, n in (('local', 400), ('central', 700), ('stale', 100), ('init', 150), ('full', 60)):
        thr += make(fam, ctx.seed, n * f)
    unt = make('unthr', ctx.seed, 200 * f)
    work = chk.spec_copy(ctx.tmp)
    J = chk.JOBS
    jobs = []
    random.Random(ctx.seed).shuffle(thr)
    for k in range(J - 1):
        jobs.append(('svp' if k % 2 else 'svpt', 't', thr[k::J - 1]))
    jobs.append(('svpu', 'u', unt))
    if not q:
        split = []
        for b, pl, s in jobs:
            m = 4
            split += [(b, pl, s[x::m]) for x in range(m)]
        jobs = split

    def one(a):
        k, (b, pl, scns) = a
        recs = drive(chk, os.path.join(out, b), scns)
        bad, events = validate(chk, work, recs, 'p%d' % k, pl)
        return b, pl, dict(scns), bad, events, len(recs)

    viol = []
    with cf.ThreadPoolExecutor(J) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    for b, pl, scns, bad, events, n in res:
        ctx.cov['events'] += events
        ctx.cov['traces_validated_against_impl'] += n
        for nm, at, e in bad:
            if len(viol) >= 3:
                break
            again, _ = validate(chk, work, drive(chk, os.path.join(out, b), [(nm, scns[nm])]), 'confirm', pl)
            if again:
                nm, at, e = again[0]
                viol.append((nm, '# plugin %s\n' % b + scns[nm],
                             [dict(scn=nm, n=at, op=json.loads(e)['op'], cat=category(e), want='explained by spec/SigningPlugin.tla', got=e)]))
            else:
                chk.log('note: %s did not repeat' % nm)
    ctx.cov['samples'] = [thr[0][1], thr[1][1]]
    ctx.cov['scenarios'] = len(thr) + len(unt)
    return viol


def replay(chk, tmp, path, text):
    b = re.search(r'^# plugin (\w+)', open(path).read(), re.M).group(1)
    out = os.path.join(tmp, 'pbuild')
    chk.sh(['bash', os.path.join(chk.ROOT, 'harness', 'build_plugin.sh'), out], env=dict(os.environ, REPO=chk.REPO))
    recs = drive(chk, os.path.join(out, b), [('replay', text)])
    for _, ev in recs:
        print('\n'.join(ev))
    bad, _ = validate(chk, chk.spec_copy(tmp), recs, 'r', 'u' if b == 'svpu' else 't')
    print(bad)
    return 1 if bad else 0
