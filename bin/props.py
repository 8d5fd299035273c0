"""What each property's check explores, and which differences between code and specification concern it."""
import re

import plugin

ASSUME = [
    'hash functions and signatures are perfect (symbolic in the specification; real OpenSSL in the conformance runs)',
    'NAL Units handed to the API are complete or split after the first bytes of the slice header',
    'bounded: stream shapes, attack budgets and call sequences as given in coverage; random families by seed',
]
ALWAYS = r'crash|hang|trace\.reject'


def cats(*rx):
    r = re.compile('^(' + '|'.join(rx + (ALWAYS,)) + ')$')
    return lambda m: bool(r.match(m['cat']))


def either(*ps):
    return lambda m: any(p(m) for p in ps)


def only(fams, p):
    f = set(fams.split())
    return lambda m: m['scn'].split('.')[0] in f and p(m)


def accepts(m):
    """The code is more positive than the specification allows."""
    if m['cat'] in ('rep.auth', 'rep.aauth'):
        try:
            w, g = int(m['want']), int(m['got'])
        except ValueError:
            return True
        return g in (3, 4, 5) and w != g and (w < 3 or g > w) or (g in (0, 1) and w == 2)
    if m['cat'] in ('rep.vs',):
        w, g = m['want'], m['got']
        return len(w) != len(g) or any(b in '.PU' and a not in '.' and a != b for a, b in zip(w, g))
    if m['cat'] in ('rep.presence', 'feed.rc'):
        return True
    return False


REP = r'rep\..*'
SEIS = r'sei\..*'
ALLATT = ['drop', 'modify', 'insert', 'replay', 'swap', 'corrupt', 'skip', 'rewind', 'splice', 'forge']
INV = ['OnlySignedIsValid', 'OkMeansSegment', 'MissingMeansSigned', 'AuthenticIsOk', 'AuthenticIsTold']
S1 = ('I', 'P', 'I', 'P', 'P', 'I', 'I', 'P')
S2 = ('I', 'P', 'I', 'P', 'I', 'P', 'I')
S3 = ('I', 'I', 'I', 'P', 'I')
S4 = ('I', 'P', 'P', 'I', 'P', 'I')
S5 = ('I', 'p', 'P', 'I', 'i', 'P', 'p', 'I')


def sysmodel(attacks, invs, shapes=(S4,), levels=(0, 1), recurs=(1, 2), delays=(-1, 0), eoss=(False,), pks=(False,), golds=(False,),
             budget=1, emit=True, maxb=1500, timeout=3000, formats=('new',)):
    return dict(module='SVSystem', consts=dict(MaxBuffer=60, HashListBytes=19200, Shapes=set(shapes), Levels=set(levels),
                                               Recurs=set(recurs), Delays=set(delays), Eoss=set(eoss), Pks=set(pks),
                                               Golds=set(golds), Formats=set(formats), Budget=budget, Attacks=set(attacks)),
                invariants=invs, properties=['VerdictStays'], alias='Short', emit=emit, max=maxb, timeout=timeout)


def sys(attacks, invs, budget=1, **kw):
    """quick: one shape; thorough: all shapes and configurations with one manipulation, a small one with two."""
    q = sysmodel(attacks, invs, budget=budget, **kw)
    if budget == 0:
        t = [sysmodel(attacks, invs, shapes=(S1, S2, S3, S4, S5), recurs=(1, 2, 3), delays=(-1, 0, 1, 2), eoss=(False, True),
                      pks=(False, True), golds=(False, True), budget=0, maxb=20000)]
    else:
        t = [sysmodel(attacks, invs, shapes=(S1, S3, S5), recurs=(1, 3), delays=(-1, 0, 2), eoss=(False, True), pks=(False, True),
                      budget=1, maxb=20000),
             sysmodel(attacks, invs, shapes=(S4,), budget=2, levels=(0, 1), recurs=(1, 2), delays=(-1, 0), maxb=12000, timeout=2400)]
    return dict(quick=q, thorough=t)


SINV = ['EveryPictureIsSigned', 'NothingForgotten', 'NumbersAgree', 'ListIsWhatIsSigned', 'Fifo', 'Linked', 'Signed', 'Capped',
        'FirstHasKey']


def signermodel(calls, depth, invs, emit, levels=(0, 1), recurs=(1, 2), maxseis=(0, 600), golds=(False,), maxb=2500, cap=60):
    return dict(module='SignerSystem', consts=dict(MaxBuffer=cap, HashListBytes=19200, Depth=depth, Calls=set(calls), Levels=set(levels),
                                                   Recurs=set(recurs), MaxSeis=set(maxseis), Golds=set(golds)),
                invariants=invs, emit=emit, max=maxb)


def signer(calls, invs=SINV, dq=5, dt=6, **kw):
    small = signermodel(calls, dq, invs, True, **kw)
    # the same with tiny buffers, to reach their limits
    tiny = signermodel(calls, dq, invs, False, **kw)
    tiny['consts'].update(MaxBuffer=2, HashListBytes=96)
    big = signermodel(calls, dt, invs, True, **dict(kw, maxb=20000))
    btiny = signermodel(calls, dt + 1, invs, False, **kw)
    btiny['consts'].update(MaxBuffer=2, HashListBytes=96)
    return dict(quick=[small, tiny], thorough=[big, btiny])


VINV = ['OkIsTrue', 'HonestIsOk', 'NoEvidence', 'NeverRecovers', 'StaysInvalid', 'OtherKeyIsNotOk']


def vendor():
    def one(num, vens, sers=('SER1', 'SER2'), pks=('',), resets=False, keys=('A', 'B', '-'), emit=True, maxb=1200):
        return dict(module='VendorSystem', consts=dict(MaxBuffer=60, HashListBytes=19200, Num=num, Keys=set(keys), Makers={'A', 'O'},
                                                       Serials=set(sers), Vendors=set(vens), Pks=set(pks), Resets=resets),
                    invariants=VINV, emit=emit, max=maxb)
    v = [(), ('a1A1', 'T1'), ('a1B1', 'T1'), ('a1A1', 'U1'), ('a2B2', 'T2'), ('der', 'T1'), ('len', 'T1')]
    return dict(quick=[one(2, v[:6]), one(3, v[:2] + v[3:4], sers=('SER1',), keys=('A', 'B'), pks=('', 'A'))],
                thorough=[one(2, v, pks=('', 'A', 'B'), resets=True, maxb=15000), one(3, v[:5], sers=('SER1', 'SER2'), maxb=15000)])


def nalu(second, wheres, mans, levels, maxb, firsts=(0x08, 0x88), codecs=(0, 1), timeout=3000):
    return dict(module='NaluSystem', consts=dict(MaxBuffer=60, HashListBytes=19200, Codecs=set(codecs), Second=set(second), Firsts=set(firsts),
                                                 Wheres=set(wheres), Mans=set(mans), Levels=set(levels)),
                invariants=['Protected', 'Harmless', 'Answered'], emit=True, max=maxb, timeout=timeout)


def nalus():
    man = ('none', 'change', 'drop', 'twice')
    return dict(quick=[nalu((0, 1, 2, 9, 0xff), (4,), man, (1,), 250, codecs=(1,)), nalu((1,), (4,), man, (0, 1), 250, codecs=(0,))],
                thorough=[nalu((1,), (3, 4, 5), man, (0, 1), 3000, firsts=(0x00, 0x08, 0x7f, 0x80, 0xff), codecs=(0,)),
                          nalu((0, 1, 2, 3, 7, 8, 9, 10, 0xf8, 0xf9, 0xfa, 0xff), (3, 4, 5), man, (0, 1), 4000, codecs=(1,))])


PUB = ['addI', 'addP', 'addp', 'get', 'eos']
ASY = ['addI', 'addP', 'get', 'eos', 'hold', 'release', 'fail', 'signfail']

PROPS = {
    'P01': dict(families=dict(long=(6, 60), authentic=(500, 5000), parts=(150, 1500), noise=(150, 1500), size=(60, 600), meta=(80, 800)),
                models=dict(sys=sys([], ['AuthenticIsOk', 'AuthenticIsTold'], budget=0, shapes=(S4, S5), eoss=(False, True),
                                    pks=(False, True), golds=(False, True))),
                pred=either(cats(r'mon\.authentic'),
                            only('authentic parts', cats(r'feed\.rc', r'rep\.(presence|auth|aauth|vs|ns|pkc|apkc|exp|rec|pend)')))),
    'P02': dict(families=dict(tamper=(700, 8000), attack=(250, 3000), splice=(150, 2000)),
                models=dict(sys=sys(['modify', 'insert', 'forge'], INV)),
                pred=either(cats(r'mon\.(foreign|missing|segment|list)'), accepts)),
    'P03': dict(families=dict(loss=(450, 5000), reorder=(450, 5000), splice=(250, 3000)),
                models=dict(sys=sys(['drop', 'replay', 'swap', 'skip', 'rewind', 'splice'], INV)),
                pred=either(cats(r'mon\.(foreign|missing|segment|list)'), accepts)),
    'P04': dict(families=dict(seimut=(800, 8000), splice=(400, 4000)),
                models=dict(sys=sys(['corrupt', 'forge', 'splice'], INV)),
                pred=either(cats(r'mon\.(foreign|missing|segment|list)', r'rep\.(pkc|apkc)'), accepts)),
    'P05': dict(families=dict(tamper=(300, 4000), loss=(400, 4000), reorder=(300, 4000)),
                models=dict(sys=sys(['drop', 'modify', 'insert', 'swap'], ['OnlySignedIsValid'])),
                pred=cats(r'rep\.(auth|vs|ns|exp|rec|pend|presence)', r'mon\.(foreign|list)')),
    'P06': dict(families=dict(hostile=(150, 1500), attack=(400, 4000), authentic=(300, 3000), splice=(150, 1500), meta=(150, 1500), noise=(150, 1000)),
                models=dict(sys=sys(ALLATT, INV, maxb=800)),
                pred=cats(r'rep\.(aauth|apkc|anrec|anval|anpend|ahts|afts|alts|apkv|presence)', r'mon\.verdict')),
    'P07': dict(families=dict(unsigned=(500, 5000), noise=(600, 6000)),
                models=dict(sys=sys([], ['AuthenticIsOk', 'AuthenticIsTold'], budget=0)),
                pred=cats(REP, r'feed\.rc', r'mon\..*', r'sei\.(goph|num|list)')),
    'P08': dict(families=dict(reset=(1000, 10000), contract=(200, 2000), legreset=(150, 1500)),
                models={}, pred=only('reset contract', cats(REP, SEIS, r'reset\.rc', r'feed\.rc', r'(get|add|eos)\..*', r'cfg\.(golden|hash)', r'mon\..*'))),
    'P09': dict(families=dict(segment=(700, 7000)),
                models=dict(sys=dict(quick=sysmodel(['skip'], ['SegmentIsNotQuestioned', 'SegmentIsTold'], shapes=(S1, S4), pks=(False, True),
                                                    eoss=(False, True)),
                                     thorough=sysmodel(['skip'], ['SegmentIsNotQuestioned', 'SegmentIsTold'], shapes=(S1, S2, S3, S4, S5),
                                                       pks=(False, True), eoss=(False, True), recurs=(1, 2, 3, 5), maxb=30000))),
                pred=either(cats(r'mon\..*'), only('segment', cats(REP, r'feed\.rc')))),
    'P10': dict(families=dict(attack=(250, 3000), tamper=(150, 2000), loss=(150, 2000), seimut=(250, 3000), splice=(150, 1500),
                              reset=(100, 1000), golden=(100, 1000), segment=(100, 1000)),
                variant='asan', models=dict(sys=sys(ALLATT, INV, maxb=500)), pred=cats(r'feed\.rc', r'rep\.presence')),
    'P11': dict(families=dict(algo=(1000, 10000)), models=dict(sys=sys([], ['AuthenticIsOk', 'AuthenticIsTold'], budget=0)),
                pred=cats(r'cfg\.hash', SEIS, REP, r'feed\.rc', r'mon\..*')),
    'P12': dict(families=dict(meta=(800, 8000), authentic=(200, 2000)), models=dict(sys=sys([], ['AuthenticIsOk'], budget=0)),
                pred=cats(r'sei\.(prod|ts|hts|version)', r'rep\.(prod|hts|ts|ahts|afts|alts|vsign|vthis)', r'cfg\.prod')),
    'P13': dict(families=dict(version=(900, 9000)), models={}, pred=cats(r'rep\.(auth|aauth|vsign|vthis|presence)', 'cmpver', r'sei\.version', r'feed\.rc')),
    'P14': dict(families=dict(long=(10, 120), signer=(500, 5000), authentic=(200, 2000), parts=(100, 1000), reset=(100, 1000)),
                models=dict(sig=signer(PUB)),
                pred=cats(r'sei\.(goph|num|gop|link|list|signature)', r'mon\.authentic')),
    'P15': dict(families=dict(signer=(700, 8000)), models=dict(sig=signer(PUB)),
                pred=cats(r'get\..*', r'prep\..*', r'add\.rc', r'eos\.rc', r'sei\.gop')),
    'P16': dict(families=dict(parts=(900, 9000)), models={}, pred=cats(SEIS, REP, r'(add|feed|get)\..*', r'mon\..*')),
    'P17': dict(families=dict(contract=(900, 9000), signer=(300, 3000)), models=dict(sig=signer(PUB, maxb=800)),
                pred=cats(r'cfg\..*', r'(add|eos|gold|reset|prep|feed)\.rc', r'get\.rc')),
    'P18': dict(families=dict(long=(10, 120), golden=(500, 5000), signer=(300, 3000), authentic=(200, 2000)),
                models=dict(sig=signer(PUB + ['gold'], ['NumbersAgree', 'ListIsWhatIsSigned', 'Fifo', 'Signed', 'FirstHasKey'], golds=(False, True))),
                pred=either(cats(r'sei\.(tags|pk|golden|prod|crypto)', 'isgold', r'gold\.rc', r'cfg\.(golden|recur|addpk)'),
                            only('golden', cats(REP, r'feed\.rc', SEIS)))),
    'P19': dict(families=dict(size=(500, 4000)), models=dict(sig=signer(PUB, maxseis=(0, 450, 520, 600))),
                pred=either(cats(r'sei\.(tags|list|goph|num|signature)', r'mon\..*'), only('size', cats(REP, SEIS, r'(add|get|feed)\.rc')))),
    'P20': dict(families=dict(signer=(300, 3000), authentic=(300, 3000), meta=(200, 2000), size=(60, 500), golden=(150, 1500)),
                models=dict(sig=signer(PUB, maxb=800)),
                pred=cats(r'sei\.(format|startcode|epb|maxsig|crypto|version)', r'get\.offset', r'get\.size')),
    'P21': dict(families={'async': (700, 7000)}, binary='svhm', models=dict(sig=signer(ASY, dq=5, dt=6, recurs=(1,), maxseis=(0,))),
                pred=cats(SEIS, r'(get|add|eos|prep)\..*')),
    'P24': dict(families=dict(vendor=(900, 9000), contract=(100, 1000)), models=dict(ven=vendor()),
                pred=either(cats(r'sei\.(attestation|chain|tags)', r'cfg\.attest', r'rep\.(pkv|apkv)', r'mon\.origin'),
                            only('vendor ven', cats(REP, SEIS, r'(feed|get|add)\..*')))),
    'P25': dict(families=dict(hostile=(900, 12000), header=(200, 2000)), variant='asan', models=dict(sys=sys(ALLATT, INV, maxb=200)),
                pred=either(cats(r'feed\.(code|report)', r'mon\..*'), only('hostile', cats(REP, r'feed\..*')))),
    'P26': dict(families=dict(header=(400, 4000)), models=dict(nal=nalus()),
                pred=either(cats(r'mon\..*'), only('nal nalm header', cats(REP, SEIS, r'(feed|get|add)\..*')))),
    'P27': dict(families=dict(legacy=(400, 4000), legatt=(800, 8000), legreset=(300, 3000)), variant='asan',
                models=dict(sys=dict(quick=[sysmodel(ALLATT, INV[:4], formats=('leg',), delays=(-1,), maxb=700)],
                                     thorough=[sysmodel(ALLATT, INV[:4], formats=('leg',), shapes=(S1, S3, S4, S5), recurs=(1, 2, 3),
                                                        delays=(-1, 0, 1, 2), maxb=20000),
                                               sysmodel(ALLATT, INV[:4], formats=('leg',), budget=2, emit=False, timeout=2400)])),
                pred=cats(r'.*')),
    'P28': dict(families=dict(mem=(420, 6000), steady=(220, 3000)), models={}, pred=cats(r'mem\..*', r'hang|crash')),
    'P29': dict(families=dict(fault=(1600, 20000)), models={}, variant='asan', pred=cats(REP, SEIS, r'(get|add|eos|gold|prep|feed|cfg|reset|new|fault|isgold)(\..*)?', r'mon\..*', r'mem\..*', r'hang|crash')),
    'P22': dict(runner=plugin.runner),
    'P23': dict(families=dict(interleave=(800, 8000)), models={}, pred=cats(REP, SEIS, r'(get|add|eos|prep|feed|cfg|reset)\..*', r'mon\..*')),
}
