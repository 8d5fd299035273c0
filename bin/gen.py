"""Scenario generation: scripts for the driver (harness/svh.c), one scenario = one list of lines.

The scenarios are inputs only.  What must happen in each is decided by the TLA+ specification, against
which the recorded events are replayed (spec/SVTrace.tla), never by this file.
"""
import random
import re


class Signer:
    """Tracks how many SEIs a user would get, to be able to lay out a stream in advance."""

    def __init__(self, sc, oid):
        self.sc, self.oid = sc, oid
        self.gen = False
        self.buf = 0          # generated, not fetched
        self.ready = 0        # of those, signed
        self.k = 0            # fetched so far
        self.hold = False
        self.stream = []      # what is transmitted: ('N', t, c, opts) or ('S', oid, k, opts)
        self.nopts = {}


class Sc:
    def __init__(self, name, algo='sha256', h265=0, mon=''):
        self.name = name
        self.mon = mon
        self.lines = ['scn %s algo=%s h265=%d' % (name, algo, h265)]
        self.algo, self.h265 = algo, h265
        self.c = 0

    def op(self, *a):
        self.lines.append(' '.join(str(x) for x in a))

    def fresh(self):
        self.c += 1
        return self.c

    def text(self):
        if self.mon:
            self.lines[0] += ' mon=' + self.mon
            self.mon = ''
        return '\n'.join(self.lines) + '\n'

    # ---- signing side
    def signer(self, oid=0, key='A', **cfg):
        self.op('new', oid, 'S')
        s = Signer(self, oid)
        s.key = key
        if key:
            self.op('cfg', oid, 'key', key)
        if self.algo != 'sha256':
            self.op('cfg', oid, 'hash', self.algo)
        for k, v in cfg.items():
            self.op('cfg', oid, k, v)
        return s

    def opts(self, rng, t, plain=False):
        o = {}
        if plain or rng is None:
            return o
        if rng.random() < 0.2:
            o['parts'] = rng.randint(2, 5)
        if rng.random() < 0.1:
            o['tz'] = rng.randint(1, 4)
        if rng.random() < 0.1:
            o['sc'] = rng.choice([0, 3])
        if t in 'IPip' and rng.random() < 0.2:
            o['style'] = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5])
        return o

    @staticmethod
    def fmt(o, only=None):
        return ' '.join('%s=%s' % (k, v) for k, v in o.items() if only is None or k in only)

    def fetch(self, s, peek=None, maxn=99, probe=False):
        """Fetch everything available; the SEIs go into the stream here."""
        n = 0
        while n < maxn:
            self.op('get', s.oid, *( ['peek=' + peek] if peek else []), *(['probe=1'] if probe else []))
            n += 1
            if probe or s.ready == 0 or (peek and peek not in 'IP'):
                return
            s.ready -= 1
            s.buf -= 1
            s.stream.append(('S', s.oid, s.k, {}))
            s.k += 1

    def prep(self, s, before=0):
        """get_nalu_to_prepend until nothing is left; |before|: position from the end."""
        while True:
            self.op('prep', s.oid)
            if s.ready == 0:
                return
            s.ready -= 1
            s.buf -= 1
            s.stream.insert(len(s.stream) - before, ('S', s.oid, s.k, {}))
            s.k += 1

    def add(self, s, t, c=None, rng=None, ts=None, **kw):
        c = self.fresh() if c is None else c
        o = self.opts(rng, t)
        o.update(kw)
        if ts is not None:
            o['ts'] = ts
        self.op('add', s.oid, t, c, self.fmt(o))
        so = {k: v for k, v in o.items() if k in ('style', 'hd')}
        s.stream.append(('N', t, c, so))
        if t == 'I':
            if s.gen:
                self.sei(s)
            s.gen = True
        return c

    def sei(self, s):
        s.buf += 1
        if not s.hold:
            s.ready += 1

    def eos(self, s):
        self.op('eos', s.oid)
        self.sei(s)

    def gold(self, s):
        self.op('gold', s.oid)
        self.sei(s)

    def reset(self, s):
        self.op('reset', s.oid)
        s.gen = False

    # ---- validating side
    def validator(self, oid=1, pubkey=None):
        self.op('new', oid, 'V')
        if pubkey:
            self.op('cfg', oid, 'pubkey', pubkey)
        return oid

    def feed(self, v, item, rng=None):
        kind, a, b, o = item
        o = dict(o)
        if rng is not None and kind == 'N':
            if rng.random() < 0.08:
                o['tz'] = rng.randint(1, 3)
            if rng.random() < 0.08:
                o['sc'] = rng.choice([0, 3])
        if rng is not None and not self.mon and rng.random() < 0.03:
            o['norep'] = 1
        self.op('feed' if kind == 'N' else 'feeds', v, a, b, self.fmt(o))

    def feed_all(self, v, stream, rng=None):
        for it in stream:
            self.feed(v, it, rng)


# ------------------------------------------------------------------ building blocks
PROD = ['-', 'e', 'HW1', 'fw~2.0', 'x*254', 'y*255', 'z*300', 'Acme~Inc.']


def config(rng, golden_ok=True, small=False):
    cfg = {}
    if rng.random() < 0.35:
        cfg['level'] = 0
    if rng.random() < 0.4:
        cfg['recur'] = rng.choice([2, 3, 5, 8, 300])
    if rng.random() < 0.25:
        cfg['epb'] = 0
    if rng.random() < 0.2:
        cfg['addpk'] = 0
    if rng.random() < 0.2:
        cfg['maxsei'] = rng.choice([1, 200, 300, 500, 600, 700, 1000])
    if rng.random() < 0.4:
        # The manufacturer decides on vendor specifics; keep it neutral.
        cfg['prod'] = ' '.join(rng.choice(PROD) for _ in range(5))
    return cfg


def algo(rng):
    return rng.choice(['sha256', 'sha256', 'sha512', 'sha384'])


def gop_types(rng, n, slices=0.25, other=0.2):
    ts = ['I']
    if rng.random() < slices:
        ts += ['i'] * rng.randint(1, 2)
    for _ in range(n):
        ts.append('P')
        if rng.random() < slices:
            ts += ['p'] * rng.randint(1, 2)
    out = []
    for t in ts:
        if rng.random() < other:
            out.append(rng.choice(['v', 'z', 'Z', 'y', 'o', '_', 'U']))
        out.append(t)
    return out


def tricky_ts(rng):
    """A timestamp whose bytes are those that matter to emulation prevention."""
    return int.from_bytes(bytes(rng.choice([0, 0, 0, 1, 2, 3, 3, 4, 255]) for _ in range(8)), 'big', signed=True)


def sign_stream(sc, s, rng, ngops, maxlen=4, fetch='peek', eos=None, slices=0.25, other=0.2, ts=0.3, add_rng=True,
                first='I'):
    """Sign a stream the way an integrator does; returns the transmitted stream."""
    gold = False
    types = []
    for g in range(ngops):
        types += gop_types(rng, rng.randint(0, maxlen), slices, other)
    if first != 'I':
        types = ['P'] * rng.randint(1, 3) + types
    for t in types:
        if fetch == 'peek':
            sc.fetch(s, peek=t)
        elif fetch == 'nopeek':
            sc.fetch(s)
        tsv = rng.choice([0, 1, -5, 1700000000000000, 256, 65536, 2 ** 62, -2 ** 63, tricky_ts(rng)]) if rng.random() < ts else None
        sc.add(s, t, rng=rng if add_rng else None, ts=tsv)
        if fetch == 'prep':
            sc.prep(s, before=1)
        elif fetch == 'after':
            sc.fetch(s)
    if eos if eos is not None else rng.random() < 0.5:
        if fetch == 'peek' or fetch == 'nopeek':
            sc.fetch(s)
        sc.eos(s)
        if fetch == 'prep':
            sc.prep(s)
        else:
            sc.fetch(s)
    elif fetch in ('peek', 'nopeek'):
        sc.fetch(s)
    return s.stream


FETCH = ['peek', 'nopeek', 'prep', 'after']
SEIMUT = ['gop+1', 'gop-1', 'gop+5', 'num+1', 'num-1', 'ver9.9.9', 'ver0.0.1', 'ts', 'link', 'goph', 'list0', 'list1',
          'droplist', 'sig', 'sigder', 'prod', 'pkA', 'pkB', 'pkR', 'res0', 'badtag']


def attack(sc, rng, stream, kinds=None, muts=None):
    """One manipulation of a transmitted stream."""
    st = list(stream)
    kinds = kinds or ['drop', 'dropn', 'swap', 'dup', 'replace', 'insert', 'dropsei', 'mut', 'head', 'tail', 'move',
                      'dropgop', 'seidup', 'insertI']
    k = rng.choice(kinds)
    pics = [i for i, x in enumerate(st) if x[0] == 'N' and x[1] in 'IiPp']
    seis = [i for i, x in enumerate(st) if x[0] == 'S']
    if not pics:
        return st
    i = rng.choice(pics)
    if k == 'drop':
        del st[i]
    elif k == 'dropn':
        del st[i:i + rng.randint(2, 6)]
    elif k == 'swap':
        j = rng.choice(pics)
        st[i], st[j] = st[j], st[i]
    elif k == 'dup':
        st.insert(rng.randint(0, len(st)), st[i])
    elif k == 'replace':
        st[i] = ('N', st[i][1], sc.fresh(), {})
    elif k == 'insert':
        st.insert(i, ('N', rng.choice('PpiP'), sc.fresh(), {}))
    elif k == 'insertI':
        st.insert(i, ('N', 'I', sc.fresh(), {}))
    elif k == 'dropsei' and seis:
        del st[rng.choice(seis)]
    elif k == 'seidup' and seis:
        st.insert(rng.randint(0, len(st)), st[rng.choice(seis)])
    elif k == 'mut' and seis:
        j = rng.choice(seis)
        ms = rng.sample(muts or SEIMUT, rng.choice([1, 1, 2]))
        if rng.random() < 0.5:
            ms.append('resign' + rng.choice('ABR'))
        st[j] = st[j][:3] + ({'mut': ','.join(ms)},)
    elif k == 'head':
        del st[:rng.randint(1, max(1, len(st) // 2))]
    elif k == 'tail':
        del st[len(st) - rng.randint(1, max(1, len(st) // 2)):]
    elif k == 'swapadj':
        j = min(len(st) - 1, i + 1)
        st[i], st[j] = st[j], st[i]
    elif k == 'swapin':
        # another picture of the same stream in place of this one
        st[i] = st[rng.choice(pics)]
    elif k == 'replay':
        a, b = sorted((rng.randint(0, len(st)), rng.randint(0, len(st))))
        at = rng.randint(b, len(st))
        st[at:at] = st[a:b]
    elif k == 'seimove' and seis:
        x = st.pop(rng.choice(seis))
        st.insert(rng.randint(0, len(st)), x)
    elif k == 'seilate' and seis:
        d = rng.randint(1, 4)
        late, out = [], []
        for n, x in enumerate(st):
            if x[0] == 'S':
                late.append((n + d, x))
            else:
                out.append(x)
            while late and late[0][0] <= n and rng.random() < 0.8:
                out.append(late.pop(0)[1])
        st = out + [x for _, x in late]
    elif k == 'move':
        x = st.pop(i)
        st.insert(rng.randint(0, len(st)), x)
    elif k == 'dropgop':
        firsts = [q for q in pics if st[q][1] == 'I']
        if len(firsts) >= 2:
            a = rng.randrange(len(firsts) - 1)
            del st[firsts[a]:firsts[min(len(firsts) - 1, a + rng.choice([1, 1, 2]))]]
    return st


# ------------------------------------------------------------------ scenario families
def fam_authentic(rng, name):
    """An untouched stream, from its start."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), rng.choice(['ok', 'ok', 'ok', '']))
    key = rng.choice('AABR') if sc.algo == 'sha256' else rng.choice('AAB')
    cfg = config(rng)
    golden = rng.random() < 0.15
    if golden:
        cfg['golden'] = 1
    s = sc.signer(0, key, **cfg)
    if golden:
        sc.gold(s)
        sc.fetch(s)
    sign_stream(sc, s, rng, rng.randint(1, 6), rng.choice([1, 3, 6]), rng.choice(FETCH))
    v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.2) else None)
    sc.feed_all(v, s.stream, rng)
    sc.op('report', v)
    return sc


def fam_attack(rng, name):
    sc = Sc(name, algo(rng) if rng.random() < 0.3 else 'sha256', rng.randint(0, 1))
    key = rng.choice('AAABR') if sc.algo == 'sha256' else rng.choice('AAB')
    cfg = config(rng)
    s = sc.signer(0, key, **cfg)
    sign_stream(sc, s, rng, rng.randint(2, 6), rng.choice([1, 3, 5]), rng.choice(FETCH), other=0.08, ts=0.1)
    st = s.stream
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        st = attack(sc, rng, st)
    if not any(re.search('resign|res0', x[3].get('mut', '')) for x in st):
        sc.mon = 'adv'
    v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.1) else None)
    for it in st:
        sc.feed(v, it, rng)
        if rng.random() < 0.02:
            sc.op('report', v)
    sc.op('report', v)
    return sc


def fam_splice(rng, name):
    """Two signers (other key, other stream) mixed into one."""
    sc = Sc(name, 'sha256', rng.randint(0, 1), 'adv')
    k1, k2 = rng.choice(['AB', 'BA', 'AA', 'AR', 'RA'])
    c1, c2 = config(rng), config(rng)
    c1.pop('addpk', 0)
    s1 = sc.signer(0, k1, **c1)
    sign_stream(sc, s1, rng, rng.randint(2, 5), 3, rng.choice(FETCH), other=0.05, ts=0)
    s2 = sc.signer(2, k2, **c2)
    sign_stream(sc, s2, rng, rng.randint(2, 5), 3, rng.choice(FETCH), other=0.05, ts=0)
    a, b = s1.stream, s2.stream
    m = rng.choice(['concat', 'seis', 'mid', 'back'])
    if m == 'concat':
        st = a + b
    elif m == 'seis':
        bs = [x for x in b if x[0] == 'S']
        st = [rng.choice(bs) if x[0] == 'S' and bs and rng.random() < 0.5 else x for x in a]
    else:
        i, j = rng.randint(0, len(a)), rng.randint(0, len(b))
        st = a[:i] + b[j:]
        if m == 'back':
            st += a[rng.randint(0, len(a)):]
    v = sc.validator(1, rng.choice([None, None, None, k1]))
    sc.feed_all(v, st, rng)
    sc.op('report', v)
    return sc


def fam_signer(rng, name):
    """The signing API in any order, with all configuration calls."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    s = sc.signer(0, rng.choice(['A', 'A', 'B', 'R', '']))
    pending_part = False
    n = rng.randint(8, 50)
    cur = 'sha256'
    started = False
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            t = rng.choice('IIPPPpivz_oU')
            kw = {}
            if rng.random() < 0.03:
                kw['null'] = 1
            tsv = rng.choice([None, None, 1, 2, 3])
            sc.add(s, t, rng=rng, ts=tsv, **kw)
        elif r < 0.65:
            sc.op('get', 0, rng.choice(['', '', 'peek=' + rng.choice('IPipvz_')]), rng.choice(['', '', 'probe=1']))
        elif r < 0.70:
            sc.op('prep', 0)
        elif r < 0.74:
            sc.op('eos', 0)
        elif r < 0.77:
            sc.op('gold', 0)
        elif r < 0.80:
            sc.op('reset', 0)
        elif r < 0.82:
            sc.add(s, rng.choice('IP'), parts=3, stop=rng.randint(1, 2))
            sc.op('reset', 0)
        else:
            nm = rng.choice(['level', 'recur', 'addpk', 'epb', 'golden', 'maxsei', 'prod', 'hash', 'key', 'level'])
            if nm == 'hash':
                sc.op('cfg', 0, 'hash', rng.choice(['sha256', 'nosuch', 'md4x']))
            elif nm == 'key':
                if s.key == '' or rng.random() < 0.2:
                    s.key = rng.choice('ABR') if s.key == '' else 'x'
                    sc.op('cfg', 0, rng.choice(['key', 'key']), s.key)
                    s.key = s.key if s.key != 'x' else 'A'
            elif nm == 'prod':
                sc.op('cfg', 0, 'prod', *[rng.choice(PROD) for _ in range(5)])
            else:
                v = {'level': rng.choice([0, 1, 1, 2, -1, 7]), 'recur': rng.choice([0, 1, 2, 3, 300]),
                     'addpk': rng.randint(0, 1), 'epb': rng.randint(0, 1), 'golden': rng.randint(0, 1),
                     'maxsei': rng.choice([0, 0, 300, 600, 1200])}[nm]
                sc.op('cfg', 0, nm, v)
    for _ in range(3):
        sc.op('get', 0)
    return sc


def fam_unsigned(rng, name):
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    v = sc.validator(1, rng.choice([None, None, 'A']))
    for _ in range(rng.randint(3, 40)):
        sc.feed(v, ('N', rng.choice('IIPPPpivz_oUXZy'), sc.fresh(), {}), rng)
        if rng.random() < 0.05:
            sc.op('report', v)
    sc.op('report', v)
    return sc


def fam_reset(rng, name):
    """Resets on both sides at arbitrary points."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    key = rng.choice('AB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    for _ in range(rng.randint(1, 3)):
        sign_stream(sc, s, rng, rng.randint(1, 4), 3, rng.choice(['peek', 'after', 'prep']), other=0.05)
        if rng.random() < 0.3:
            sc.add(s, rng.choice('IP'), parts=3, stop=rng.randint(1, 2))
            s.stream.pop()
        sc.fetch(s)
        sc.reset(s)
        s.stream.append(('R', 0, 0, {}))
    v = sc.validator(1)
    for it in s.stream:
        if it[0] == 'R':
            if rng.random() < 0.7:
                sc.op('report', v)
                sc.op('reset', v)
        else:
            sc.feed(v, it, rng)
            if rng.random() < 0.03:
                sc.op('reset', v)
    sc.op('report', v)
    return sc

def attacked(kinds, ndist=(1, 1, 1, 2, 3), algos=0.3, muts=None, resign=0.5):
    """Streams manipulated by the given kinds of attacks."""
    def fam(rng, name):
        sc = Sc(name, algo(rng) if rng.random() < algos else 'sha256', rng.randint(0, 1))
        key = rng.choice('AAABR') if sc.algo == 'sha256' else rng.choice('AAB')
        cfg = config(rng)
        s = sc.signer(0, key, **cfg)
        sign_stream(sc, s, rng, rng.randint(2, 6), rng.choice([0, 1, 3, 5]), rng.choice(FETCH), other=0.06, ts=0.1)
        st = s.stream
        for _ in range(rng.choice(ndist)):
            st = attack(sc, rng, st, kinds)
        if not any(re.search('resign|res0', x[3].get('mut', '')) for x in st):
            sc.mon = 'adv'
        v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.15) else None)
        for it in st:
            sc.feed(v, it, rng)
            if rng.random() < 0.02:
                sc.op('report', v)
        sc.op('report', v)
        return sc
    return fam


TAMPER = ['replace', 'replace', 'insert', 'insertI', 'replace', 'drop', 'swapin']
LOSS = ['drop', 'dropn', 'dropsei', 'dropgop', 'head', 'tail', 'drop']
REORDER = ['swap', 'move', 'dup', 'seidup', 'replay', 'swapadj']
SEI = ['mut', 'mut', 'mut', 'seidup', 'dropsei']


def fam_segment(rng, name):
    """A part of an untouched stream."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'seg')
    key = rng.choice('AABR') if sc.algo == 'sha256' else rng.choice('AAB')
    cfg = config(rng)
    s = sc.signer(0, key, **cfg)
    fetch = rng.choice(FETCH)
    sign_stream(sc, s, rng, rng.randint(2, 7), rng.choice([1, 3, 5]), fetch, other=0.08)
    st = s.stream
    # Players and exports start at an I-frame, possibly with the SEI in front of it.
    at = [i for i, x in enumerate(st) if x[1] == 'I']
    if fetch == 'prep':
        at += [i - 1 for i in at if i > 0 and st[i - 1][0] == 'S']
    for _ in range(rng.randint(1, 3)):
        i = rng.choice(at)
        j = rng.randint(i, len(st))
        v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.2) else None)
        sc.feed_all(v, st[i:j] if rng.random() < 0.5 else st[i:], rng)
        sc.op('report', v)
    return sc


def fam_algo(rng, name):
    """All hash algorithms, on both sides."""
    sc = Sc(name, rng.choice(['sha256', 'sha384', 'sha512']), rng.randint(0, 1), 'adv')
    key = 'R' if sc.algo == 'sha256' and rng.random() < 0.3 else rng.choice('AB')
    cfg = {}
    if rng.random() < 0.5:
        cfg['level'] = 0
    if rng.random() < 0.5:
        cfg['recur'] = rng.choice([2, 3, 6, 12])
    if rng.random() < 0.3:
        cfg['epb'] = 0
    sc.op('new', 0, 'S')
    s = Signer(sc, 0)
    order = ['key', 'hash']
    rng.shuffle(order)
    for o in order:
        if o == 'key':
            sc.op('cfg', 0, 'key', key)
        else:
            if rng.random() < 0.3:
                sc.op('cfg', 0, 'hash', rng.choice(['nosuch', 'sha512', 'sha384', 'sha256', 'foo']))
            sc.op('cfg', 0, 'hash', sc.algo)
            if rng.random() < 0.3:
                sc.op('cfg', 0, 'hash', 'nosuch')
    for k, v in cfg.items():
        sc.op('cfg', 0, k, v)
    sign_stream(sc, s, rng, rng.randint(2, 4), 3, rng.choice(FETCH), other=0.05, ts=0)
    sc.op('cfg', 0, 'hash', rng.choice(['sha256', 'sha384', 'sha512', 'nosuch']))
    v = sc.validator(1, key if rng.random() < 0.4 else None)
    st = s.stream
    if rng.random() < 0.5:
        st = attack(sc, rng, st, TAMPER + LOSS)
    else:
        sc.mon = 'ok'
    sc.feed_all(v, st, None)
    sc.op('report', v)
    return sc


def fam_meta(rng, name):
    """Product information and time stamps, changed on the way."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'ok')
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    cfg.pop('maxsei', 0)
    cfg['prod'] = ' '.join(rng.choice(PROD) for _ in range(5))
    s = sc.signer(0, key, **cfg)
    first = True
    for _ in range(rng.randint(2, 6)):
        for t in gop_types(rng, rng.randint(0, 3), 0.15, 0.05):
            sc.fetch(s, peek=t)
            r = rng.random()
            ts = None if r < 0.3 else rng.choice([tricky_ts(rng), tricky_ts(rng), 0, 1, -1, 255, 256, 65535, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63,
                                                  rng.randint(-2 ** 63, 2 ** 63 - 1), 1700000000000000 + rng.randint(0, 10 ** 9)])
            sc.add(s, t, rng=rng, ts=ts)
        if rng.random() < 0.3:
            sc.op('cfg', 0, 'prod', *[rng.choice(PROD + ['w*253', 'a', '"q"', 'b*1']) for _ in range(5)])
    sc.fetch(s)
    if rng.random() < 0.6:
        sc.eos(s)
        sc.fetch(s)
    v = sc.validator(1)
    st = s.stream
    if rng.random() < 0.3:
        st = attack(sc, rng, st, LOSS + ['mut'])
        sc.mon = ''
    for it in st:
        sc.feed(v, it, rng)
        if rng.random() < 0.05:
            sc.op('report', v)
    sc.op('report', v)
    return sc


def vstr(rng):
    return rng.choice(['v%d.%d.%d' % tuple(rng.choice([0, 1, 2, 9, 10, 29, 30, 255]) for _ in range(3)),
                       'v1.1.%d' % rng.randint(26, 32), 'v1.%d.%d' % (rng.randint(0, 3), rng.randint(0, 40))])


def fam_version(rng, name):
    """Signed with other versions of the framework (a SEI with another version, signed with the signer's key)."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    sign_stream(sc, s, rng, rng.randint(2, 5), 3, rng.choice(FETCH), other=0.05, ts=0.1)
    v = sc.validator(1)
    ver = vstr(rng)[1:]
    st = []
    for it in s.stream:
        if it[0] == 'S' and (rng.random() < 0.8):
            it = ('S', it[1], it[2], {'mut': 'ver%s,resign%s' % (ver, key)})
        st.append(it)
    if rng.random() < 0.3:
        st = attack(sc, rng, st, TAMPER + LOSS)
    sc.feed_all(v, st, rng)
    sc.op('report', v)
    if rng.random() < 0.3:
        sc.op('reset', v)
        sc.feed_all(v, s.stream, rng)
    for _ in range(rng.randint(3, 10)):
        a = vstr(rng) if rng.random() < 0.9 else rng.choice(['1.2.3', 'v1.2', 'x', 'v1..2'])
        b = a if rng.random() < 0.2 else vstr(rng) if rng.random() < 0.9 else rng.choice(['1.2.3', 'v1.2', 'x', 'v'])
        sc.op('cmpver', 0, a, b)
    return sc


def fam_parts(rng, name):
    """The same NAL Units, passed in parts, with and without start codes and trailing zeros."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'ok')
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    fetch = rng.choice(['peek', 'after'])
    for _ in range(rng.randint(1, 4)):
        for t in gop_types(rng, rng.randint(0, 4), 0.2, 0.15):
            if fetch == 'peek':
                sc.fetch(s, peek=t)
            kw = {'parts': rng.choice([1, 1, 2, 2, 3, 4, 6])}
            if rng.random() < 0.4:
                kw['tz'] = rng.randint(1, 6)
            if rng.random() < 0.4:
                kw['sc'] = rng.choice([0, 3, 4])
            if t in 'IPip' and rng.random() < 0.5:
                kw['style'] = rng.choice([1, 1, 2, 2, 3, 3, 4])
            if kw['parts'] == 2 and rng.random() < 0.6:
                kw['cut'] = rng.randint(1, 3 + kw.get('tz', 0))
            sc.add(s, t, ts=rng.choice([None, None, 5]), **kw)
            if fetch == 'after':
                sc.fetch(s)
    sc.fetch(s)
    if rng.random() < 0.5:
        sc.eos(s)
        sc.fetch(s)
    v = sc.validator(1)
    for it in s.stream:
        o = dict(it[3])
        if rng.random() < 0.3:
            o['tz'] = rng.randint(1, 5)
        if rng.random() < 0.3 and it[0] == 'N':
            o['sc'] = rng.choice([0, 3])
        sc.feed(v, it[:3] + (o,))
    sc.op('report', v)
    return sc


def fam_size(rng, name):
    """Limits: the payload size of a SEI and the number of hashes it can hold."""
    sc = Sc(name, rng.choice(['sha256', 'sha512']), 0, 'ok')
    key = rng.choice('AAB')
    cfg = {'level': rng.choice([1, 1, 1, 0])}
    if rng.random() < 0.6:
        cfg['maxsei'] = rng.choice([1, 150, 200, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 800, 1000, 1500, 3000])
    if rng.random() < 0.5:
        cfg['recur'] = rng.choice([2, 3, 10])
    if rng.random() < 0.5:
        cfg['prod'] = ' '.join(rng.choice(PROD) for _ in range(5))
    if rng.random() < 0.2:
        cfg['epb'] = 0
    tight = rng.random() < 0.4
    if tight:
        # SEIs of exactly the maximum size, or around a multiple of 255 (where the size field grows)
        cfg.pop('recur', 0)
        cfg['level'] = 1
        n0, hs = rng.choice([0, 1, 2, 3, 5, 9]), 32 if sc.algo == 'sha256' else 64
        pad = [rng.randint(1, 200) for _ in range(5)]
        size = lambda: 17 + 13 + 2 * hs + 182 + 4 + sum(2 + x for x in pad) + 15 + 4 + (n0 + 1) * hs + 80
        if rng.random() < 0.5:
            pad[0] = 1
            pad[0] = 1 + (rng.choice([254, 255, 256]) - size()) % 255
            if pad[0] > 254:
                pad[0] -= 100
                pad[1] += 100 if pad[1] < 150 else -155
        cfg['prod'] = ' '.join('w*%d' % x for x in pad)
        cfg['maxsei'] = rng.choice([0, size(), size(), size() - 1, size() + 1])
    s = sc.signer(0, key, **cfg)
    big = not tight and rng.random() < 0.06
    cap = 600 if sc.algo == 'sha256' else 300
    for g in range(rng.randint(2, 4)):
        n = rng.choice([n0, n0, n0, n0 + 1]) if tight else rng.choice([0, 1, 2, 5, 9, 12, 20, 35])
        if big and g == 0:
            n = cap + rng.choice([-2, -1, 0, 1, 5])
        for t in ['I'] + ['P'] * n:
            sc.add(s, t)
            sc.fetch(s)
    if rng.random() < 0.5:
        sc.eos(s)
        sc.fetch(s)
    v = sc.validator(1)
    st = s.stream
    if not big and rng.random() < 0.4:
        sc.mon = 'adv'
        st = attack(sc, rng, st, TAMPER + LOSS)
    sc.feed_all(v, st)
    sc.op('report', v)
    return sc


def fam_long(rng, name):
    """Long GOPs, many GOPs and many frames: every counter passes the limits of one byte and more."""
    sc = Sc(name, rng.choice(['sha256', 'sha256', 'sha512']), rng.randint(0, 1), 'ok')
    key = rng.choice('AAB')
    cfg = {}
    kind = rng.choice(['gop', 'gop', 'gops', 'frames'])
    if rng.random() < 0.3:
        cfg['level'] = 0
    if kind == 'gop':
        lens = [rng.randint(0, 3), rng.choice([254, 255, 256, 257, 300, 510, 511, 512, 513, 600, 770]), rng.randint(0, 3)]
    elif kind == 'gops':
        lens = [rng.choice([0, 0, 1])] * rng.randint(254, 270)
        cfg['recur'] = rng.choice([1, 100, 250])
    else:
        cfg['recur'] = rng.choice([100, 250, 255, 256, 257, 300])
        lens = [rng.choice([7, 24, 49])] * 3
        while sum(lens) + len(lens) < rng.choice([260, 530]):
            lens.append(lens[0])
    s = sc.signer(0, key, **cfg)
    for n in lens:
        for i, t in enumerate(['I'] + ['P'] * n):
            sc.add(s, t, rng=rng if i < 3 else None)
            sc.fetch(s)
    sc.eos(s)
    sc.fetch(s)
    v = sc.validator(1)
    st = s.stream
    if rng.random() < 0.3:
        sc.mon = 'adv'
        st = attack(sc, rng, st, TAMPER + LOSS)
    sc.feed_all(v, st)
    sc.op('report', v)
    return sc


def fam_interleave(rng, name):
    """Several sessions at the same time; each must behave as if it were alone."""
    h265 = [rng.randint(0, 1), rng.randint(0, 1)]
    algos = [rng.choice(['sha256', 'sha256', 'sha512']), rng.choice(['sha256', 'sha512', 'sha512'])]
    parts = []
    for q in range(2):
        sub = Sc('x', algos[q], h265[q])
        sub.c = 1000 * q
        key = rng.choice('AB') if q or algos[q] != 'sha256' else rng.choice('ABR')
        cfg = config(rng)
        cfg.pop('addpk', 0)
        s = sub.signer(4 * q, key, **cfg)
        sign_stream(sub, s, rng, rng.randint(1, 4), 3, rng.choice(FETCH), other=0.1)
        st = s.stream if rng.random() < 0.5 else attack(sub, rng, s.stream)
        v = sub.validator(4 * q + 1)
        sub.feed_all(v, st, rng)
        if rng.random() < 0.3:
            sub.op('reset', v)
            sub.feed_all(v, st[:10], rng)
        parts.append(sub.lines[1:])
    sc = Sc(name, algos[0], h265[0])
    sc.lines[0] += ' algo2=%s codec2=%d' % (algos[1], h265[1])
    a, b = parts
    while a or b:
        src = a if (a and (not b or rng.random() < 0.5)) else b
        for _ in range(rng.randint(1, 3)):
            if src:
                sc.lines.append(src.pop(0))
    if rng.random() < 0.3:
        sc.op('free', 0)
        sc.op('report', 5)
    return sc


def fam_golden(rng, name):
    """Golden SEIs: before the stream, and in it."""
    sc = Sc(name, algo(rng), rng.randint(0, 1))
    key = rng.choice('AAB')
    cfg = {}
    if rng.random() < 0.8:
        cfg['golden'] = 1
    if rng.random() < 0.5:
        cfg['recur'] = rng.choice([1, 2, 4, 9])
    if rng.random() < 0.2:
        cfg['addpk'] = 0
    if rng.random() < 0.3:
        cfg['epb'] = 0
    if rng.random() < 0.4:
        cfg['prod'] = ' '.join(rng.choice(PROD) for _ in range(5))
    s = sc.signer(0, key, **cfg)
    # With golden SEIs a validator gets the golden SEI first.
    gfirst = 'golden' in cfg or rng.random() < 0.5
    if gfirst:
        sc.gold(s)
        sc.fetch(s)
        sc.mon = 'ok'
    if rng.random() < 0.3:
        sc.op('cfg', 0, 'level', 0)
    sign_stream(sc, s, rng, rng.randint(1, 4), 3, rng.choice(['peek', 'after']), eos=False, other=0.05, ts=0)
    if rng.random() < 0.3:
        sc.mon = ''
        sc.fetch(s)
        sc.gold(s)
        sc.fetch(s)
        sign_stream(sc, s, rng, rng.randint(1, 3), 3, rng.choice(['peek', 'after']), eos=False, other=0.05, ts=0)
    sc.fetch(s)
    for k in range(min(s.k, 5)):
        sc.op('isgold', 0, 0, k)
    st = s.stream
    if gfirst and st and st[0][0] == 'S' and rng.random() < 0.5:
        # the golden SEI has to be the first SEI, but not the first NAL Unit
        n = next((i for i, x in enumerate(st) if i and x[0] == 'S'), len(st))
        if rng.random() < 0.3:
            # ... or comes late
            sc.mon = ''
            n = len(st)
        k = rng.randint(1, n)
        st = st[1:k] + st[:1] + st[k:]
    if rng.random() < 0.4:
        n = 1 + next((i for i, x in enumerate(st) if x[0] == 'S'), len(st) - 1)
        sc.mon = ''
        st = st[:n] + attack(sc, rng, st[n:])
    v = sc.validator(1, key if cfg.get('addpk') == 0 or rng.random() < 0.2 else None)
    sc.feed_all(v, st, rng)
    sc.op('report', v)
    return sc


def fam_noise(rng, name):
    """NAL Units that are not pictures, anywhere in a signed stream: they are neither signed nor judged."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'ok')
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    sign_stream(sc, s, rng, rng.randint(1, 4), 3, rng.choice(FETCH), other=rng.choice([0, 0.2, 0.5]))
    v = sc.validator(1)
    st = s.stream
    if rng.random() < 0.4:
        st = attack(sc, rng, st)
        sc.mon = ''
    for it in st:
        while rng.random() < 0.35:
            sc.feed(v, ('N', rng.choice('vzZyo_U'), sc.fresh(), {}), rng)
        if it[0] == 'N' and it[1] not in 'IiPp' and rng.random() < 0.4:
            continue
        sc.feed(v, it, rng)
    sc.op('report', v)
    return sc


def nalu_class(h265, b):
    """The driver's name of a NAL Unit that starts with |b|; spec/Nalu.tla says what it is, and both have to agree."""
    bad = dict(zip('IiPpv_oz', 'AaXxV-OY'))
    if len(b) < (2 if h265 else 1):
        return 'U'
    if not h265:
        ref, ty, first = (b[0] >> 5) & 3, b[0] & 31, len(b) > 1 and b[1] >= 128
        t, ok = {1: ('P' if first else 'p', 1), 5: ('I' if first else 'i', ref), 6: ('z', not ref), 9: ('_', 1)}.get(
            ty, ('o', 1) if 2 <= ty <= 4 else ('v', ref) if ty in (7, 8, 13, 15) else ('o', not ref) if 10 <= ty <= 12 else ('U', 0))
    else:
        ty, layer, tid, first = (b[0] >> 1) & 63, (b[0] & 1) << 5 | b[1] >> 3, (b[1] & 7) - 1, len(b) > 2 and b[2] >= 128
        if tid < 0:
            return 'U'
        t, ok = (('P' if first else 'p', 1) if ty < 2 else ('o', tid) if ty < 4 or 6 <= ty < 10 else ('o', layer or tid) if ty < 6 else
                 ('I' if first else 'i', not tid) if 16 <= ty < 22 else ('v', not tid) if ty in (32, 33) else ('v', 1) if ty == 34 else
                 ('_', 1) if ty == 35 else ('o', not tid and not layer) if ty in (36, 37) else ('o', 1) if ty == 38 else
                 ('z', 1) if ty in (39, 40) else ('U', 0))
    return t if ok and b[0] < 128 else bad.get(t, t)


def odd_nalu(rng, h265):
    """(type, hd): a NAL Unit with a header of any kind; sometimes very short."""
    if h265:
        ty = rng.choice([0, 1, 2, 5, 6, 9, 10, 16, 18, 19, 20, 21, 22, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 63, rng.randrange(64)])
        b = [ty << 1 | (rng.random() < 0.1) | (0x80 if rng.random() < 0.1 else 0), rng.choice([1, 1, 1, 1, 2, 3, 7, 0, 8, 9, 0xf9, rng.randrange(256)])]
    else:
        b = [rng.choice([1, 1, 5, 5, 6, 7, 8, 9, 12, rng.randrange(32)]) | rng.choice([0, 0x20, 0x40, 0x60]) | (0x80 if rng.random() < 0.1 else 0)]
    b.append(rng.choice([0x80, 0xf0, 0xff, 0x7f, 0x10, 0x01, 0x05, rng.randrange(1, 256)]))
    r = rng.random()
    if r < 0.1 and b[0]:
        b = b[:1]
    elif r < 0.2 and b[-2]:
        b = b[:-1]
    elif r < 0.4:
        b += [rng.choice([1, 5, 0x10, 0x11, 0x80, 0xff, rng.randrange(1, 256)]) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    else:
        t = nalu_class(h265, b)
        return (t, ''.join('%02x' % x for x in (b[:-1] if t == 'z' else b)))
    if not b[0] or b[-1] == 0:
        b.append(0x80)
    return nalu_class(h265, b), ''.join('%02x' % x for x in b) + '!'


HDRS = (['06', '06', '26', '46', '66', '86', 'e6', '07', '67', '65', '41', '0c', '09', '1f'],
        ['4e01', '5001', '5001', '4e02', '4e09', '4f01', '4e00', 'ce01', '4001', '0201', '2601', '4601', '7e01'])


def fam_header(rng, name):
    """NAL Units with headers of all kinds, also incomplete ones, and SEIs with another header."""
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'ok')
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    k = rng.choice([0.2, 0.5])
    for g in range(rng.randint(2, 5)):
        for t in ['I'] + [rng.choice('PPPpi') for _ in range(rng.randint(0, 3))]:
            sc.fetch(s, peek=t)
            sc.add(s, t, rng=rng)
            while rng.random() < k:
                sc.fetch(s)
                t, hd = odd_nalu(rng, sc.h265)
                sc.add(s, t, hd=hd)
    sc.fetch(s)
    mode = rng.choice(['ok', 'noise', 'sei', 'attack'])
    if mode in ('sei', 'attack'):
        sc.mon = 'adv'
    pk = rng.choice([None, None, None, key]) if mode != 'ok' else None
    v = sc.validator(1, pk)
    st = s.stream
    if mode == 'attack':
        st = attack(sc, rng, st)
        sc.mon = ''
    for it in st:
        if mode == 'noise' and rng.random() < 0.3:
            t, hd = odd_nalu(rng, sc.h265)
            if t not in 'IiPp':
                sc.feed(v, ('N', t, sc.fresh(), {'hd': hd}))
        if mode == 'sei' and it[0] == 'S' and rng.random() < 0.4:
            m = 'hdr:' + rng.choice(HDRS[sc.h265])
            x = ('S', it[1], it[2], {'mut': m})
            if rng.random() < 0.3:
                x[3]['mut'] += ',resign' + key
                sc.mon = ''
            sc.feed(v, x)
            if rng.random() < 0.5:
                continue
        sc.feed(v, it, rng if '!' not in str(it[3].get('hd', '')) else None)
    sc.op('report', v)
    return sc


def hostile_edits(r, tlv_only):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random() * (0.65 if tlv_only else 1)
        tag = r.choice([1, 2, 3, 4, 5, 6, 7, 129])
        if k < .22:
            out.append('L:%d:%d' % (tag, r.choice([-300, -64, -33, -32, -10, -5, -2, -1, 1, 2, 5, 32, 64, 200, 255, 1000, 30000])))
        elif k < .37:
            out.append('R:%d:%d' % (tag, r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 32, 33, 64, 75, 76, 100, 200, 255])))
        elif k < .59:
            off = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, r.randrange(200)])
            # (a number of pictures in the ten thousands takes its time)
            out.append('V:%d:%d:%d' % (tag, off, r.choice([0, 1] if (tag, off) == (1, 5) else
                                                         [0, 1, 2, 3, 9, 10, 16, 32, 64, 127, 128, 255, r.randrange(256)])))
        elif k < .65:
            out.append('T:%d:%d' % (tag, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 50, 127, 128, 129, 130, 131, 200, 255])))
        elif k < .73:
            out.append('c:%d' % r.choice([1, 2, 3, 4, 5, 10, 50, 100, 200, 300, r.randrange(600)]))
        elif k < .82:
            out.append('k:%d' % r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 40, 60]))
        elif k < .9:
            out.append('x:%d:%d' % (r.choice([0, 1, 2, 3, 4, 5, 6, 20, 21, 22, r.randrange(600)]),
                                    r.choice([0, 1, 2, 3, 5, 16, 17, 18, 64, 128, 254, 255, r.randrange(256)])))
        elif k < .94:
            out.append('f:%d:%d' % (r.randrange(600), r.randrange(8)))
        elif k < .97:
            out.append('d:%d:%d' % (r.randrange(40), r.choice([1, 2, 5, 20])))
        else:
            out.append('i:%d:%d' % (r.randrange(40), r.choice([0, 1, 3, 255])))
    if not tlv_only and r.random() < .1:
        out.append('nosc')
    return ','.join(out)


LEGACY = ['B:128,', 'B:128,V:1:0:2,R:1:11,resignA,', 'B:128,V:1:0:1,R:1:10,resignA,', 'B:0,V:1:0:2,R:1:11,resignA,']


def forged_sei(rng, h265):
    """A SEI with the right UUID, made from scratch: no data at all, cut anywhere, or TLVs of any kind."""
    body = b''
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        tag = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 129, 130])
        data = bytes(rng.choice([0, 1, 2, 3, 4, 32, 65, 255]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 40])))
        n = len(data) + rng.choice([0, 0, 0, 1, -1])
        if n < 0:
            n = 255
        body += bytes([tag]) + (bytes([n >> 8, n & 255]) if tag in (2, 3, 4, 5, 6, 129) else bytes([n])) + data
    if rng.random() < 0.2:
        body = body[:rng.randrange(len(body) + 1)]
    res = rng.choice([0, 0, 0x80, 0x40, 0xc0])
    size = 17 + len(body) + rng.choice([0, 0, 0, 0, -1, -2, 1])
    out = bytes.fromhex('00000001') + (bytes([78, 1]) if h265 else b'\x06') + bytes([5, size])
    return (out + b'Signed Video...0' + bytes([res]) + body + b'\x80').hex()


def fam_hostile(rng, name):
    """SEIs, and other NAL Units, with damaged or forged bytes: whatever they hold, the session survives and does not
    accept what was not signed. A second session, with the untouched stream, is not affected."""
    adv = rng.random() < 0.5
    sc = Sc(name, algo(rng), rng.randint(0, 1), 'adv' if adv else '')
    cfg = config(rng)
    cfg['prod'] = 'HW fw SER1 %s addr' % rng.choice(['Axis~Communications~AB', 'Other'])
    s = sc.signer(0, 'A', **cfg)
    if rng.random() < 0.4:
        sc.op('cfg 0 attest a1A1 T1')
    sign_stream(sc, s, rng, rng.randint(2, 5), 3, 'nopeek', other=0.1)
    v = sc.validator(1, rng.choice([None, None, None, 'A']))
    w = None if adv else sc.validator(2, None if cfg.get('addpk', 1) else 'A')
    legacy = not adv and rng.random() < 0.4
    for it in s.stream:
        if it[0] == 'S' and rng.random() < 0.5:
            e = hostile_edits(rng, adv)
            if legacy:
                # the general data of old signers
                e = rng.choice(LEGACY) + ','.join(x for x in e.split(',') if not x.startswith(('T:', 'V:1:')))
            elif not adv and rng.random() < 0.2:
                e = 'resign%s,%s' % (rng.choice('AB'), ','.join(x for x in e.split(',') if not x.startswith('T:')))
            sc.op('feedb', v, 0, it[2], e.strip(','))
            if rng.random() < 0.4:
                sc.feed(v, it)
        elif rng.random() < 0.85:
            sc.feed(v, it)
        if rng.random() < 0.1:
            sc.op('feedb', v, rng.choice('IPpiv_zZyo'), rng.randint(1, 12), hostile_edits(rng, False))
        if rng.random() < 0.1:
            sc.op('feedb', v, 'x', bytes(rng.randrange(256) if rng.random() < .5 else rng.choice([0, 0, 0, 1, 5, 6, 0x4e, 255])
                                         for _ in range(rng.randrange(1, 12))).hex())
        if rng.random() < 0.06:
            sc.op('feedb', v, 'x', forged_sei(rng, sc.h265))
        if rng.random() < 0.04:
            sc.op('reset', v)
        if w:
            sc.feed(w, it)
    sc.op('report', v)
    return sc


def fam_async(rng, name):
    """Signatures that come later, or not at all (the driver with a scripted signing plugin)."""
    sc = Sc(name, algo(rng), rng.randint(0, 1))
    key = rng.choice('AAB') if sc.algo != 'sha256' else rng.choice('AABR')
    cfg = config(rng)
    s = sc.signer(0, key, **cfg)
    fails = rng.random() < 0.4
    mode = rng.choice(['get', 'get', 'prep', 'mix'])
    n = rng.randint(12, 60)
    if rng.random() < 0.05:
        n = 250
    pi = rng.choice([0.25, 0.5, 0.8])
    held = True
    sc.op('plug', 0, 'hold', 1)
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            t = 'I' if rng.random() < pi else rng.choice('PPPpv')
            sc.add(s, t, rng=rng, ts=rng.choice([None, None, 7]))
            if rng.random() < (0.02 if n == 250 else 0.6):
                sc.op('get', 0, rng.choice(['', 'peek=I', 'peek=P']))
        elif r < 0.75:
            if fails and rng.random() < 0.3:
                sc.op('plug', 0, rng.choice(['fail', 'signfail']), 1)
            elif n != 250 or rng.random() < 0.1:
                sc.op('plug', 0, 'release', rng.randint(1, 3))
        elif r < 0.80:
            sc.op('plug', 0, 'hold', rng.randint(0, 1))
        elif r < 0.83:
            sc.op('eos', 0)
        elif r < 0.84 and cfg.get('golden'):
            sc.op('gold', 0)
        elif n != 250 or rng.random() < 0.1:
            for _ in range(rng.randint(1, 3)):
                sc.op('prep' if mode == 'prep' or (mode == 'mix' and rng.random() < 0.3) else 'get', 0)
    sc.op('plug', 0, 'hold', 0)
    sc.op('plug', 0, 'release', 99)
    for _ in range(12 if n != 250 else 70):
        sc.op('get', 0)
    return sc


ATTS = ['a1A1', 'a1A1', 'a1A1', 'a1B1', 'a1A2', 'a2A1', 'a2A2', 'a2B2', 'sig', 'der', 'ts', 'list2', 'list0', 'len', 'len2', 'trail',
        'short', 'one', 'max', 'hdr']
CHAINS = ['T1', 'T1', 'T1', 'T2', 'S2', 'U1', 'CN', 'NOCN', 'NOSER', 'PFX', 'SHORT', 'EXP', 'DIR', 'RSA', 'BRK', 'BRK2', 'SELF', 'REV', 'CRLF']
AXIS = 'Axis~Communications~AB'


def fam_vendor(rng, name):
    """What a stream says about the origin of its public key: attestation, certificates, manufacturer, serial number."""
    sc = Sc(name, algo(rng) if rng.random() < 0.15 else 'sha256', rng.randint(0, 1))
    honest = rng.random() < 0.35
    key = 'A' if honest else rng.choice('AAAB' if sc.algo != 'sha256' else 'AAABR')

    def cfg(k, full):
        if full:
            at, ch = rng.choice([('a1A1', 'T1'), ('a2A2', 'T2'), ('a1A1', 'S2'), ('hdr', 'DIR'), ('a1A1', 'CRLF')] if k == 'A' else
                                [('a1B1', 'T1'), ('a2B2', 'T2')])
        else:
            at, ch = rng.choice(ATTS + ['-', '0']), rng.choice(CHAINS + ['-', 'e'])
        ser = {'T2': 'SER2', 'S2': 'SER2'}.get(ch, 'SER1') if full or rng.random() < 0.6 else rng.choice(['SER1', 'SER2', 'Unknown', ''])
        man = AXIS if full or rng.random() < 0.85 else rng.choice(['Other', 'Axis', AXIS + 'x', ''])
        c = dict(prod='%s %s %s %s %s' % (rng.choice(PROD), rng.choice(PROD), ser or '""', man or '""', rng.choice(PROD)))
        r = rng.random()
        a = '%s %s%s%s' % (at, ch, '' if full or rng.random() < 0.9 else ' cut=1', '' if rng.random() < 0.8 else ' nl=0')
        if r < 0.8 or full:
            c['attest'] = a
        elif r < 0.95:
            c['attest'] = at + ' -'
            c['attest2'] = '- ' + ch
        return c
    c = config(rng)
    c.pop('prod', None)
    if honest:
        c.pop('maxsei', None)
    v = cfg(key, honest)
    if '""' in v['prod']:
        v['prod'] = v['prod'].replace('""', '-')
    c.update(v)
    late = c.pop('attest2', None)
    order = list(c.items())
    rng.shuffle(order)
    s = sc.signer(0, key, **dict(order))
    if late:
        sc.op('cfg', 0, 'attest', late)
    if rng.random() < 0.15:
        sc.op('cfg', 0, 'attest', rng.choice(ATTS), rng.choice(CHAINS))
    sign_stream(sc, s, rng, rng.randint(2, 4), 2, rng.choice(FETCH), other=0.05, ts=0.05, slices=0.1)
    if rng.random() < 0.15:
        sc.op('cfg', 0, 'attest', rng.choice(ATTS + ['-']), rng.choice(CHAINS + ['-', 'e']))
        sign_stream(sc, s, rng, 2, 2, 'nopeek')
    st = s.stream
    if rng.random() < 0.2:
        # somebody else's stream follows
        k2 = rng.choice('AB')
        s2 = sc.signer(2, k2, **{k: x for k, x in cfg(k2, True).items() if k != 'attest2'})
        sign_stream(sc, s2, rng, 3, 2, 'nopeek', other=0.05, ts=0, slices=0)
        cut = rng.randint(0, len(st))
        st = (st[:cut] + s2.stream) if rng.random() < 0.6 else s2.stream[:rng.randint(1, len(s2.stream))] + st[cut:]
    if not honest:
        for j in [i for i, x in enumerate(st) if x[0] == 'S']:
            if rng.random() < 0.45:
                ms = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ms.append(rng.choice([
                        'ven:%s:%s' % (rng.choice(ATTS), rng.choice(CHAINS)), 'ven:a1A1:T1', 'ven:a1B1:T1', 'ven::T1', 'ven:a1A1:',
                        'venx:' + rng.choice(['', '01', '0100', '010000', '01ff00', '02', '0201aabb', '000141', '0105aabbccddee', '0104aabbccddee',
                                              '0101414142', '01014141420a']),
                        'vencut:%d' % rng.choice([1, 2, 100, 500, 1200, 5000]),
                        'dropven', 'droppk', 'pkA', 'pkB', 'pf3:Other', 'pf3:' + AXIS, 'pf2:SER1', 'pf2:SER2', 'pf2:Unknown', 'pf2:']))
                if rng.random() < 0.2:
                    ms.append('venlast')
                if rng.random() < 0.85:
                    ms.append('resign' + rng.choice('AAB'))
                st[j] = st[j][:3] + ({'mut': ','.join(ms)},)
    vo = sc.validator(1, key if (c.get('addpk') == 0 or rng.random() < 0.1) else rng.choice([None] * 9 + ['B']))
    for it in st:
        sc.feed(vo, it, rng)
        if not honest and rng.random() < 0.03:
            sc.op('reset', vo)
    sc.op('report', vo)
    return sc


def fam_contract(rng, name):
    """Configuration and calls in the wrong order, at the wrong time, or on the wrong side."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    s = sc.signer(0, rng.choice(['A', 'A', '']))
    names = ['level', 'recur', 'addpk', 'epb', 'golden', 'maxsei', 'prod', 'hash', 'attest']

    def cfgcall():
        nm = rng.choice(names)
        v = {'level': rng.choice([0, 1, 2, -1, 3]), 'recur': rng.choice([0, 1, 2, 300]), 'addpk': rng.randint(0, 1),
             'epb': rng.randint(0, 1), 'golden': rng.randint(0, 1), 'maxsei': rng.choice([0, 500]),
             'prod': 'a b c d e', 'hash': rng.choice(['sha256', 'nosuch']),
             'attest': rng.choice(['a1A1', '-', '0', 'a2A2']) + ' ' + rng.choice(['T1', '-', 'e', 'T2', 'T1 cut=1'])}[nm]
        sc.op('cfg', 0, nm, v)

    for _ in range(rng.randint(10, 40)):
        r = rng.random()
        if r < 0.4:
            cfgcall()
        elif r < 0.5 and s.key == '':
            s.key = 'A'
            sc.op('cfg', 0, 'key', rng.choice(['A', 'x', 'A']))
        elif r < 0.55:
            sc.op('reset', 0)
        elif r < 0.85:
            sc.add(s, rng.choice('IIPPpiv'), **({'null': 1} if rng.random() < 0.1 else {}))
            if rng.random() < 0.7:
                sc.op('get', 0)
        else:
            sc.op(rng.choice(['eos', 'gold', 'get', 'prep']), 0)
    for _ in range(3):
        sc.op('get', 0)
    v = sc.validator(1, rng.choice([None, 'A']))
    if rng.random() < 0.5:
        sc.op('cfg', 1, 'pubkey', rng.choice('AB'))
    for k in range(rng.randint(1, 6)):
        sc.feed(v, ('N', rng.choice('IIPPv'), sc.fresh(), {}))
        if rng.random() < 0.2:
            sc.op('cfg', 1, 'pubkey', rng.choice('AB'))
        if rng.random() < 0.15:
            sc.op('reset', 1)
    sc.op('report', 1)
    # Keys that are refused leave no trace: a stream of another session is validated afterwards.
    key = rng.choice('AB')
    s2 = sc.signer(2, key, **({'addpk': 0} if rng.random() < 0.5 else {}))
    sign_stream(sc, s2, rng, rng.randint(2, 4), 2, 'peek')
    v2 = sc.validator(3)
    for _ in range(rng.randint(0, 4)):
        sc.op('cfg', 3, 'pubkey', rng.choice(['x', 'y', 'z', 'c', 'y', 'c', key, key, 'A', 'B']))
    for it in s2.stream:
        sc.feed(v2, it, rng)
        if rng.random() < 0.05:
            sc.op('cfg', 3, 'pubkey', rng.choice('xyzcAB'))
    sc.op('report', 3)
    return sc


FAMILIES = {f.__name__[4:]: f for f in
            [fam_authentic, fam_attack, fam_splice, fam_signer, fam_unsigned, fam_reset, fam_segment, fam_algo, fam_meta,
             fam_version, fam_parts, fam_size, fam_interleave, fam_golden, fam_noise, fam_header, fam_hostile, fam_contract, fam_async, fam_vendor]}
FAMILIES.update(tamper=attacked(TAMPER), loss=attacked(LOSS), reorder=attacked(REORDER), seimut=attacked(SEI, (1, 1, 2)))


def signer_behaviours(lines, seed, limit):
    """Scenarios from call sequences that TLC printed (SignerSystem!Emit)."""
    rng = random.Random(seed)
    if len(lines) > limit:
        lines = rng.sample(lines, limit)
    out = []
    for i, ln in enumerate(lines):
        ops = re.findall(r'"([^"]*)"', ln.strip().strip('"').replace('\\\\"', '"').replace('\\"', '"'))
        sc = Sc('calls.%d' % i, 'sha256', i % 2)
        for o in ops:
            sc.op(o)
        if any(o.startswith('plug') for o in ops):
            sc.op('plug', 0, 'release', 9)
        for _ in range(3):
            sc.op('get', 0)
        out.append((sc.name, sc.text()))
    return out


def vendor_behaviours(lines, seed, limit):
    """Behaviours of VendorSystem: what each SEI says about the origin of the key."""
    bs = []
    for ln in sorted(lines):
        bs.append(re.findall(r'"([^"]*)"', ln.strip().strip('"').replace('\\"', '"')))
    rng = random.Random(seed)
    rng.shuffle(bs)
    bs = bs[:limit]
    out = []
    for at in range(0, len(bs), 10):
        sc = Sc('ven.%d' % at, 'sha256', 0)
        s = sc.signer(0, 'A', prod='HW fw SER1 Axis~Communications~AB addr', attest='a1A1 T1')
        num = max(sum(x != 'reset' for x in b[1:]) for b in bs[at:at + 10])
        for k in range(1, 2 * num + 2):
            sc.op('add', 0, 'IP'[(k + 1) % 2], k)
            sc.op('get', 0)
        for b in bs[at:at + 10]:
            sc.validator(1, b[0] or None)
            sc.op('feed', 1, 'I', 1)
            sc.op('feed', 1, 'P', 2)
            k = 0
            pend = False
            for x in b[1:]:
                if x == 'reset':
                    sc.op('reset', 1)
                    pend = True
                    continue
                if k:
                    sc.op('feed', 1, 'P', 2 * k + 2)
                key, maker, ser, ven, sign = x.split()
                m = ['droppk' if key == '-' else 'pk' + key]
                m += ['pf3:' + ('Axis~Communications~AB' if maker == 'A' else 'Other'), 'pf2:' + ser]
                m += ['dropven' if ven == '-' else 'ven:' + ven, 'resign' + sign]
                sc.op('feeds', 1, 0, k, 'mut=' + ','.join(m))
                k += 1
                sc.op('feed', 1, 'I', 2 * k + 1)
            sc.op('report', 1)
        out.append((sc.name, sc.text()))
    return out


def nalu_behaviours(lines, seed, limit):
    """Cases of NaluSystem: a NAL Unit that starts with given bytes, somewhere in a stream, changed, dropped or repeated."""
    groups, mix = {}, {}
    for ln in sorted(lines):
        w = ln.strip().strip('"').replace('\\"', '').replace('<<', '').replace('>>', '').split(' ', 2)[2].split(', ')
        cx, man, where, level, cls, more = int(w[0]), w[1], int(w[2]), int(w[3]), w[4], w[5] == 'TRUE'
        hd = ''.join('%02x' % int(x) for x in w[6:])
        if more and cls in 'zY':
            hd = hd[:-2]
        if not more:
            if man == 'change':
                continue
            hd += '!'
        groups.setdefault((cx, where, level, cls, hd), []).append(man)
        mix.setdefault((cx, level), set()).add((cls, hd))
    rng = random.Random(seed)
    out = []
    # every header at least once, many in one stream
    for (cx, level), hs in sorted(mix.items()):
        hs = sorted(hs)
        rng.shuffle(hs)
        for at in range(0, len(hs), 24):
            sc = Sc('nalm.%d.%d.%d' % (cx, level, at), 'sha256', cx, 'ok')
            sc.signer(0, 'A', level=level)
            sc.validator(1)
            st = [('I', 1, '')]
            for j, (cls, hd) in enumerate(hs[at:at + 24]):
                st.append((cls, 2 + j, ' hd=' + hd))
                if rng.random() < 0.3:
                    st.append((rng.choice('PPpI'), 40 + j, ''))
            st += [('I', 2, ''), ('P', 3, ''), ('I', 4, '')]
            k = 0
            for j, (t, c, o) in enumerate(st):
                sc.op('add', 0, t, c, o.strip())
                if t == 'I' and j:
                    sc.op('get', 0)
                    sc.op('feeds', 1, 0, k)
                    k += 1
                sc.op('feed', 1, t, c, o.strip())
            sc.op('report', 1)
            out.append((sc.name, sc.text()))
    keys = sorted(groups)
    rng.shuffle(keys)
    for (cx, where, level, cls, hd) in keys[:limit]:
        pics = cls in 'IiPp'
        sc = Sc('nal.%d.%d.%d.%s' % (cx, where, level, hd.strip('!') + ('e' if '!' in hd else '')), 'sha256', cx)
        sc.signer(0, 'A', level=level)
        st = [('IP'[k % 2], k + 1, '') for k in range(7)]
        st.insert(where, (cls, 10, 'hd=' + hd))
        for t, c, o in st:
            sc.op('add', 0, t, c, o)
            sc.op('get', 0)
        for man in sorted(groups[cx, where, level, cls, hd]):
            sc.validator(1)
            k = 0
            for j, (t, c, o) in enumerate(st):
                if t == 'I' and j:
                    sc.op('feeds', 1, 0, k)
                    k += 1
                if not o or man == 'none' or man == 'twice':
                    sc.op('feed', 1, t, c, o)
                if o and man == 'twice':
                    sc.op('feed', 1, t, c, o)
                if o and man == 'change':
                    sc.op('feed', 1, t, 11, o)
            sc.op('report', 1)
        out.append((sc.name, sc.text()))
    return out


def behaviours(lines, seed, limit):
    """Scenarios from complete behaviours that TLC printed (SVSystem!Emit); several with the same signer share one."""
    if lines and 'new 0 S' in lines[0]:
        return signer_behaviours(lines, seed, limit)
    if lines and 'BEH NAL' in lines[0]:
        return nalu_behaviours(lines, seed, limit)
    if lines and 'BEH VEN' in lines[0]:
        return vendor_behaviours(lines, seed, limit)
    groups = {}
    for ln in lines:
        m = re.match(r'"?BEH <<(<<.*?>>), (\d+), (\d+), (TRUE|FALSE), (TRUE|FALSE), (TRUE|FALSE), "(new|leg)", (\d+), <<(.*)>>>>"?$', ln.strip().replace('\\"', '"'))
        if not m:
            raise ValueError('behaviour: ' + ln[:200])
        groups.setdefault(m.group(1, 2, 3, 4, 5, 6, 7), []).append((int(m.group(8)), re.findall(r'"([^"]*)"', m.group(9))))
    out = []
    rng = random.Random(seed)
    for g in sorted(groups):
        shape, level, recur, eos, userpk, gold, fmt = g
        types = re.findall(r'"(.)"', shape)
        bs = groups[g]
        rng.shuffle(bs)
        bs = bs[:max(1, limit // len(groups))]
        for at in range(0, len(bs), 12):
            chunk = bs[at:at + 12]
            name = 'sys%s.%s.l%s.r%s.%s%s%s.%d' % ('' if fmt == 'new' else '.leg', ''.join(types), level, recur, eos[0], userpk[0], gold[0], at)
            for mon, sel in (('ok' if fmt == 'new' else 'lok', [f for n, f in chunk if n == 0]), ('adv', [f for n, f in chunk if n > 0])):
                if not sel:
                    continue
                sc = Sc(name + mon, 'sha256', 0, mon)
                need2 = any(re.search(r'^feeds 1 2 |^feed 1 . 2\d\d', x) for f in sel for x in f)
                for oid, k in ((0, 'A'), (2, 'B')):
                    if oid == 2 and not need2:
                        continue
                    sc.op('new', oid, 'S' if fmt == 'new' else 'L')
                    sc.op('cfg', oid, 'key', k)
                    sc.op('cfg', oid, 'level', level)
                    sc.op('cfg', oid, 'recur', recur)
                    if gold == 'TRUE':
                        sc.op('cfg', oid, 'golden', 1)
                        sc.op('gold', oid)
                        sc.op('get', oid)
                        sc.op('cfg', oid, 'level', level)
                    for i, t in enumerate(types):
                        sc.op('add', oid, t, 100 * oid + i + 1)
                        if fmt == 'new':
                            sc.op('get', oid)
                    if eos == 'TRUE':
                        sc.op('eos', oid)
                        sc.op('get', oid)
                for f in sel:
                    sc.validator(1, 'A' if userpk == 'TRUE' else None)
                    for x in f:
                        sc.op(x)
                    sc.op('report', 1)
                out.append((sc.name, sc.text()))
    return out



# ------------------------------------------------------------------ the format used before version 2
LEGATT = ['drop', 'dropn', 'swap', 'dup', 'replace', 'replace', 'insert', 'dropsei', 'mut', 'mut', 'head', 'tail', 'move', 'dropgop', 'seidup',
          'insertI', 'swapadj', 'swapin', 'replay', 'seimove', 'seilate']
LEGMUT = ['gop+1', 'gop-1', 'gop+3', 'num+1', 'num-1', 'num+5', 'ver1.9.9', 'ver9.9.9', 'ts', 'list0', 'list1', 'list2', 'droplist', 'sig', 'sigder',
          'ht', 'prod', 'pkA', 'pkB', 'droppk', 'badtag']


def legacy_stream(sc, rng, oid=0, key='A', other=0.1, **cfg):
    """A stream signed in the legacy format: every I-frame has the SEI of what is before it (and of itself) in front."""
    sc.op('new', oid, 'L')
    sc.op('cfg', oid, 'key', key)
    for k, v in cfg.items():
        sc.op('cfg', oid, k, v)
    st, k = [], 0
    lead = 0
    for g in range(rng.randint(1, 5)):
        ts = rng.choice([None, None, 10 * g + 5])
        c = sc.fresh()
        sc.op('add', oid, 'I', c, '' if ts is None else 'ts=%d' % ts)
        st.append(('S', oid, k, {}))
        k += 1
        st.append(('N', 'I', c, {}))
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            t = 'P' if rng.random() > 0.15 else rng.choice('ip')
            c = sc.fresh()
            sc.op('add', oid, t, c)
            st.append(('N', t, c, {}))
        if rng.random() < other:
            st.insert(rng.randint(lead, len(st)), ('N', rng.choice('v_oz'), sc.fresh(), {}))
    return st


def legacy_config(rng):
    cfg = {}
    if rng.random() < 0.6:
        cfg['level'] = rng.randint(0, 1)
    if rng.random() < 0.3:
        cfg['epb'] = rng.randint(0, 1)
    if rng.random() < 0.3:
        cfg['gver'] = rng.randint(1, 2)
    if rng.random() < 0.3:
        cfg['recur'] = rng.randint(1, 3)
    if rng.random() < 0.5:
        cfg['prod'] = 1
    if rng.random() < 0.15:
        cfg['addpk'] = 0
    return cfg


def fam_legacy(rng, name):
    """An untouched stream of the legacy format, from its start (or after pictures that are not signed)."""
    sc = Sc(name, 'sha256', rng.randint(0, 1), 'lok')
    key = rng.choice('AABR')
    cfg = legacy_config(rng)
    st = legacy_stream(sc, rng, 0, key, **cfg)
    v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.2) else None)
    sc.feed_all(v, st, rng)
    sc.op('report', v)
    return sc


def fam_legatt(rng, name):
    """Streams of the legacy format, cut, manipulated, mixed with others."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    key = rng.choice('AAABR')
    cfg = legacy_config(rng)
    st = legacy_stream(sc, rng, 0, key, **cfg)
    m = rng.random()
    if m < 0.12:
        st = st[rng.randint(0, len(st)):]
    elif m < 0.2:
        st = [('N', rng.choice('IPPi'), sc.fresh(), {}) for _ in range(rng.randint(1, 6))] + st
    elif m < 0.3:
        b = legacy_stream(sc, rng, 2, rng.choice('AB'), **legacy_config(rng))
        st = st[:rng.randint(0, len(st))] + b[rng.randint(0, len(b)):]
    elif m < 0.37:
        s2 = sc.signer(2, rng.choice('AB'), **config(rng))
        sign_stream(sc, s2, rng, rng.randint(1, 3), 3, 'peek', other=0.05, ts=0)
        b = s2.stream
        if rng.random() < 0.5:
            st = st[:rng.randint(0, len(st))] + b[rng.randint(0, len(b)):]
        else:
            st = b[:rng.randint(0, len(b))] + st[rng.randint(0, len(st)):]
    else:
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            st = attack(sc, rng, st, LEGATT, LEGMUT)
    if not any(re.search('resign|res0', x[3].get('mut', '')) for x in st):
        sc.mon = 'adv'
    v = sc.validator(1, key if (cfg.get('addpk') == 0 or rng.random() < 0.15) else None)
    for it in st:
        sc.feed(v, it, rng)
        if rng.random() < 0.02:
            sc.op('report', v)
    sc.op('report', v)
    return sc


def fam_legreset(rng, name):
    """Streams of both formats, one after the other, with a reset in between."""
    sc = Sc(name, 'sha256', rng.randint(0, 1))
    v = None
    for j in range(rng.randint(2, 4)):
        if rng.random() < 0.6:
            st = legacy_stream(sc, rng, 2 + j, rng.choice('AB'), **legacy_config(rng))
        else:
            s = sc.signer(2 + j, rng.choice('AB'), **config(rng))
            sign_stream(sc, s, rng, rng.randint(1, 3), 3, 'peek', other=0.05)
            st = s.stream
        if v is None:
            v = sc.validator(1)
        sc.feed_all(v, st[:rng.randint(0, len(st))] if rng.random() < 0.4 else st, rng)
        sc.op('report', v)
        sc.op('reset', v)
    return sc


FAMILIES.update(long=fam_long)
def fam_mem(rng, name):
    """What is left when all sessions are gone: a scenario of any kind, several times in a row."""
    f = rng.choice(MEMFAMS)
    sc = FAMILIES[f](rng, name)
    sc.lines[0] += ' rep=1'
    return sc


FAULTFAMS = ['authentic', 'authentic', 'attack', 'attack', 'signer', 'vendor', 'legatt', 'legreset', 'golden', 'contract', 'reset',
             'hostile', 'meta', 'segment', 'algo', 'splice', 'interleave', 'parts']


def fam_fault(rng, name):
    """An allocation fails somewhere: in a signing session, in a validating one, or when it is created."""
    sc = FAMILIES[rng.choice(FAULTFAMS)](rng, name)
    n = rng.choice([1, 1, 1, 2, 3])
    # The shortest histories need the fewest allocations: pick the point evenly, and the allocation from there.
    for at in sorted((rng.randrange(1, len(sc.lines)) for _ in range(n)), reverse=True):
        sc.lines.insert(at, 'fault 0 %d' % rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12]))
    if rng.random() < 0.6:
        sc.lines[0] += ' rep=1'
    return sc


def fam_steady(rng, name):
    """A recurring history: signing and validation in step, every GOP of the same shape and with the same fate."""
    sc = Sc(name, algo(rng), rng.randint(0, 1))
    key = rng.choice('AAB')
    cfg = config(rng)
    cfg.pop('addpk', 0)
    s = sc.signer(0, key, **cfg)
    v = sc.validator(1)
    shape = gop_types(rng, rng.randint(0, 5), 0.25, 0.15)
    fate = rng.choice(['ok', 'ok', 'modify', 'drop', 'add', 'sei', 'nosei', 'report', 'odd'])
    at = rng.randrange(len(shape))
    fetch = rng.choice(['peek', 'after'])
    for g in range(rng.randint(14, 24)):
        n0 = len(s.stream)
        for t in shape:
            if fetch == 'peek':
                sc.fetch(s, peek=t)
            sc.add(s, t, ts=7 if cfg.get('recur') else None)
            if fetch == 'after':
                sc.fetch(s)
        for k, it in enumerate(s.stream[n0:]):
            if fate == 'drop' and k == at and it[0] == 'N':
                continue
            if fate == 'nosei' and it[0] == 'S':
                continue
            if fate == 'modify' and k == at and it[0] == 'N':
                it = ('N', it[1], sc.fresh(), it[3])
            if fate == 'sei' and it[0] == 'S':
                it = ('S', it[1], it[2], {'mut': 'list0'})
            if fate == 'add' and k == at:
                sc.feed(v, ('N', 'P', sc.fresh(), {}))
            if fate == 'odd' and k == at:
                sc.feed(v, ('N', 'v', sc.fresh(), {}))
            sc.feed(v, it)
        if fate == 'report':
            sc.op('report', v)
        if g > 4:
            sc.op('mem', 0, 'g')
    return sc


MEMFAMS = ['authentic', 'attack', 'splice', 'signer', 'reset', 'golden', 'noise', 'header', 'hostile', 'hostile', 'contract', 'contract',
           'vendor', 'vendor', 'legacy', 'legatt', 'legreset', 'unsigned', 'interleave', 'algo']
FAMILIES.update(mem=fam_mem, steady=fam_steady, fault=fam_fault)
FAMILIES.update(legacy=fam_legacy, legatt=fam_legatt, legreset=fam_legreset)


def make(fam, seed, n):
    out = []
    for i in range(n):
        rng = random.Random('%s/%s/%d' % (fam, seed, i))
        out.append(FAMILIES[fam](rng, '%s.%s.%d' % (fam, seed, i)))
    return out


if __name__ == '__main__':
    import sys
    for sc in make(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        sys.stdout.write(sc.text())
