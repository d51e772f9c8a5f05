"""The jobs (harness + bounds) that decide each property; see DESIGN.md."""
COMMON = [
    'the operating system is modelled: anonymous mmap returns any page-aligned region disjoint from all others (placed on a 1 MiB grid plus an optional symbolic page skew), mprotect/munmap act exactly on the pages given, and each may be refused where a job says so',
    'libc string functions, getenv and errno are small C models in harness/model_libc.c or intrinsics of the engine; DUMA itself is compiled unmodified (clang -O1) with the default build options from createconf',
    'a stop is the call of DUMA_Abort; what DUMA_Abort itself does is decided by C25',
    'bounds of each job (sizes, counts, threads) are listed under coverage.jobs; nothing is claimed outside them',
]
PROPS = {}
def J(name, harness, q=None, t=None, **k):
    d = dict(name=name, harness=harness, params=dict(q or {}))
    if t:
        d['thorough'] = t
    d.update(k)
    return d

PROPS['C01'] = dict(reach=['end'], jobs=
    [J('size%d' % a, 'c01.c', dict(api0=a, api1=a, max=12288 if a not in (4, 5) else 8192, amax=4), dict(max=40960, amax=6, pre=1), time=250) for a in range(8)] +
    [J('al%d' % a, 'c01.c', dict(api0=a, api1=a, max=8192, amax=13), dict(max=16384, amax=16), time=250) for a in (4, 5)] +
    [J('env%d' % a, 'c01.c', dict(api0=a, api1=a, max=64, emax=13), dict(max=4096, emax=13), time=250) for a in (0, 1, 3)] +
    [J('left%d' % a, 'c01.c', dict(api0=a, api1=a, left=3, left2=1, nofill=1, max=8192, amin=6, amax=6), dict(left=6, max=20000, amin=0), time=250) for a in (0, 2, 3, 4, 6)] +
    [J('end%d' % a, 'c01.c', dict(api0=a, api1=a, min=900000, max=1100000, nofill=1), dict(min=500000, max=3000000), time=250) for a in (0, 3, 6)])
PROPS['C02'] = dict(reach=['end'], jobs=
    [J('env%d' % a, 'c01.c', dict(api0=a, api1=a, max=12288, amax=6, below=1), dict(max=40960, amax=8, pre=1), time=250) for a in range(8)] +
    [J('al%d' % a, 'c01.c', dict(api0=a, api1=a, max=8192, amin=12, amax=14, below=1, skew=1), dict(max=16384, amax=17), time=250) for a in (4, 5)] +
    [J('end%d' % a, 'c01.c', dict(api0=a, api1=a, min=1000000, max=1060000, amin=12, amax=14, below=1, nofill=1), dict(min=900000, max=2200000, amax=16), time=250) for a in (0, 4)] +
    [J('set%d' % a, 'c01.c', dict(api0=a, api1=a, max=8192, amax=4, below=2), dict(max=40960), time=250) for a in (0, 1, 3, 4)] +
    [J('dflt%d' % a, 'c01.c', dict(api0=a, api1=a, max=64, emax=13, below=1), dict(max=4096), time=250) for a in (0, 3)])
PROPS['C03'] = dict(reach=['end'], jobs=
    [J('hist%d%d' % (a, b), 'hist.c', dict(ops=3, mask=7, op0=a, op1=b), dict(ops=4 if b == 1 else 3, mask=7 if b == 1 else 511, pg=2), time=400) for a in (0,) for b in (0, 1, 2)] +
    [J('kinds%d' % b, 'hist.c', dict(ops=3, mask=503, op0=0, op1=b, op2=0), dict(mask=511), time=250) for b in (1, 2, 6)] +
    [J('from%d' % a, 'hist.c', dict(ops=3, op0=a, op1=1, op2=0), dict(op2=99, mask=511), time=250) for a in (3, 5, 7, 8)] +
    [J('left', 'hist.c', dict(ops=3, mask=7, op0=0, op1=1, left=3, left2=1, nofill=1), dict(mask=511, left=5), time=250)] +
    [J('grow', 'hist.c', dict(ops=2, mask=7, prelo=53, pre=56, prefree=5, nofill=1, pg=0), dict(ops=3, prelo=48, pg=1), time=250),
     J('grow2', 'hist.c', dict(ops=2, mask=3, prelo=114, pre=119, prefree=3, nofill=1, pg=0), dict(prelo=100, pre=260), time=250),
     J('below', 'hist.c', dict(ops=3, mask=3, below=1), dict(mask=511), time=250),
     J('noprotect', 'hist.c', dict(ops=3, mask=3, pf=1), dict(mask=7), time=250),
     J('limit', 'hist.c', dict(ops=3, mask=3, pf=2), dict(mask=7), time=250),
     J('limit4', 'hist.c', dict(ops=4, op0=0, op1=0, op2=1, mask=2, pf=2, lmax=32, nofill=1), dict(mask=7), time=250)])
PROPS['C04'] = dict(reach=['end'], jobs=
    [J('hist%d%d' % (b, c), 'hist.c', dict(ops=3, mask=511, op0=0, op1=b, op2=c), dict(mask=511, pg=2, op2=99), time=400) for b, c in ((0, 1), (0, 2), (4, 0), (5, 1), (6, 0), (7, 2))] +
    [J('hist%d%d' % (b, c), 'hist.c', dict(ops=3, mask=511, op0=0, op1=b, op2=c, pg=1, amax=3, nofill=1), dict(pg=2, amax=6, nofill=0), time=400) for b, c in ((0, 3),)] +
    [J('hist32', 'hist.c', dict(ops=3, mask=511, op0=0, op1=3, op2=2, pg=1, amax=4, nofill=1), time=850, tier='thorough')] +
    [J('two%d' % a, 'hist.c', dict(ops=2, mask=507 if a == 3 else 511, op0=a, pg=0 if a == 3 else 1, amax=3, nofill=1), dict(ops=3, mask=511, pg=2, amax=5, nofill=0), time=250) for a in (0, 3, 5, 7, 8)] +
    [J('left', 'hist.c', dict(ops=2, mask=7, op0=0, left=3, left2=1, nofill=1), dict(ops=3, mask=511, left=5), time=250),
     J('grow', 'hist.c', dict(ops=2, mask=7, prelo=53, pre=56, nofill=1, pg=0), dict(ops=3, prelo=48, pg=1), time=250),
     J('grow2', 'hist.c', dict(ops=2, mask=3, prelo=114, pre=119, prefree=2, nofill=1, pg=0), dict(prelo=100, pre=260), time=250),
     J('below', 'hist.c', dict(ops=3, mask=3, op0=0, below=1), dict(mask=511), time=250),
     J('noprotect', 'hist.c', dict(ops=3, mask=7, op0=0, op1=0, pf=1), dict(op1=99, mask=511), time=250)])
PROPS['C05'] = dict(jobs=
    [J('pow2_%d%d' % (x, b), 'c05.c', dict(mode=0, amin=0, amax=14, posix=x, below=b, max=2000), dict(max=8192, skew=3), time=250, reach=['aligned']) for x in (0, 1) for b in (0, 1)] +
    [J('skew%d' % b, 'c05.c', dict(mode=0, amin=12, amax=14, skew=3, below=b, nofill=1), dict(amax=18, skew=7), time=250, reach=['aligned']) for b in (0, 1)] +
    [J('large%d' % b, 'c05.c', dict(mode=0, amin=15, amax=44, below=b, nofill=1), dict(max=20000), time=250, witness=0, reach=['aligned']) for b in (0, 1)] +
    [J('bad', 'c05.c', dict(mode=1, nofill=1), time=250, reach=['refused']), J('badposix', 'c05.c', dict(mode=2, nofill=1), time=250, reach=['refused'])] +
    [J('dflt%d' % a, 'c05.c', dict(mode=3, api=a, max=200, nofill=1), dict(max=4096), time=300, reach=['aligned']) for a in (0, 1, 2)] +
    [J('valloc%d' % b, 'c05.c', dict(mode=4, below=b, max=8192), dict(max=40960, skew=1), time=250, reach=['aligned']) for b in (0, 1)])
PROPS['C07'] = dict(jobs=
    [J('h%d' % a, 'hist.c', dict(ops=2, op0=a, op1=2, pg=1, amax=3), dict(pg=8, amax=13), time=250, reach=['realloc']) for a in (0, 3, 5, 7, 8)] +
    [J('twice', 'hist.c', dict(ops=3, op0=0, op1=2, op2=2, nofill=1), dict(pg=2, nofill=0), time=400, reach=['realloc']),
     J('below', 'hist.c', dict(ops=2, op0=0, op1=2, pg=2, below=1), dict(pg=8), time=250, reach=['realloc']),
     J('zero', 'hist.c', dict(ops=3, op0=0, op1=6, op2=0), dict(op2=99, mask=511), time=250, reach=['end']),
     J('grow', 'hist.c', dict(ops=2, op0=0, op1=2, prelo=51, pre=57, nofill=1, pg=0), dict(prelo=30, pre=130, pg=1), time=250, reach=['realloc']),
     J('left', 'hist.c', dict(ops=2, op0=0, op1=2, left=3, left2=1, nofill=1), dict(left=5, pg=3), time=250, reach=['realloc']),
     J('live', 'hist.c', dict(ops=3, op0=0, op1=0, op2=2), dict(pg=2), time=400, reach=['realloc']),
     J('noprotect', 'hist.c', dict(ops=3, op0=0, op1=2, op2=0, pf=1), dict(op2=99), time=250, reach=['realloc'])])
PROPS['C13'] = dict(jobs=
    [J('size%d' % a, 'c13.c', dict(lo=1 if a in (0, 9) else 1040000, hi=1, api=a), dict(lo=1), time=300, reach=['satisfied', 'refused']) for a in (0, 2, 3, 6, 7, 9)] +
    [J('stop%d' % a, 'c13.c', dict(lo=1, hi=1, api=a, fe=1), time=300, reach=['satisfied']) for a in (0, 9)] +
    [J('stoppf', 'c13.c', dict(lo=1, hi=1, api=0, fe=1, pf0=1), time=300, reach=['satisfied'])] +
    [J('below', 'c13.c', dict(lo=1030000, hi=1, below=1), dict(lo=1), time=300, reach=['satisfied', 'refused'])] +
    [J('al%d' % x, 'c13.c', dict(lo=1030000, hi=1, api=4, amin=x, amax=x, nofin=1), dict(lo=1, nofin=0), time=400, reach=['satisfied', 'refused']) for x in (8, 20)] +
    [J('alhuge', 'c13.c', dict(lo=1, hi=1, api=4, amin=41, amax=63), time=300, reach=['refused'])] +
    [J('posix', 'c13.c', dict(lo=1, hi=1, api=5, amin=47, amax=63), time=300, reach=['refused'])] +
    [J('cal%d_%d' % (a, e), 'c13.c', dict(api=a, emin=e, emax=e + (1 if e < 60 else 3), mmax=m), time=300, witness=0, reach=['satisfied', 'refused']) for a in (8, 10) for e, m in ((0, 1), (3, 1), (32, 2))] +
    [J('calhuge', 'c13.c', dict(api=8, emin=60, emax=63), time=300, witness=0, reach=['refused'])] +
    [J('al%d_%d' % (x, b), 'c13.c', dict(lo=1, hi=1, api=4, amin=x, amax=x, below=b), time=900, tier='thorough', reach=['satisfied', 'refused']) for x in range(3, 40, 3) for b in (0, 1)] +
    [J('calt%d_%d' % (a, e), 'c13.c', dict(api=a, emin=e, emax=e + 3, mmax=5), time=1500, witness=0, tier='thorough', reach=['end']) for a in (8, 10) for e in range(0, 60, 4)])
PROPS['C06'] = dict(reach=['end'], jobs=
    [J('env%d' % a, 'c06.c', dict(api0=a, api1=a), dict(max=65536, pre=1, amax=12), time=250) for a in range(8)] +
    [J('set%d' % a, 'c06.c', dict(api0=a, api1=a, env=0, set=1), dict(max=65536, pre=1), time=250) for a in (0, 1, 3, 5)] +
    [J('below%d' % a, 'c06.c', dict(api0=a, api1=a, below=1, max=4096), dict(max=65536, pre=1), time=250) for a in (0, 1, 2)] +
    [J('reuse%d' % a, 'c06.c', dict(api0=a, api1=a, pre=1), dict(pre=2), time=250, reach=['freed']) for a in (0, 1, 3)] +
    [J('reuse0_%d' % a, 'c06.c', dict(api0=a, api1=a, pre=1, pf0=1), dict(pre=2), time=250) for a in (0, 1)])
PROPS['C08'] = dict(jobs=
    [J('c%d_w%d' % (c, w), 'c08.c', dict(call=c, which=w), dict(pg=2, pre=3), time=250, reach=['diagnosed'] if w != 3 else ['call']) for c in (0, 1, 2, 4) for w in (0, 1, 2, 3, 4)] +
    [J('pf_c%d_w%d' % (c, w), 'c08.c', dict(call=c, which=w, pf=1), dict(pg=2, pre=3), time=250, reach=['call']) for c in (0, 1, 2) for w in (0, 1, 2)] +
    [J('lim_c%d_w%d' % (c, w), 'c08.c', dict(call=c, which=w, pf=2), dict(pg=2), time=250, reach=['call']) for c in (0, 1) for w in (0, 1)] +
    [J('below_c%d_w%d' % (c, w), 'c08.c', dict(call=c, which=w, below=1), dict(pg=2, pre=3), time=250, reach=['diagnosed']) for c in (0, 1) for w in (0, 2)] +
    [J('grow_c%d' % c, 'c08.c', dict(call=c, which=0, pre=60, prefree=4), dict(pre=150), time=250, reach=['diagnosed']) for c in (0, 1)] +
    [J('left_w%d' % w, 'c08.c', dict(call=0, which=w, left=2, left2=1, nofill=1), dict(left=4, pg=2), time=250, reach=['diagnosed']) for w in (0, 1)] +
    [J('skew', 'c08.c', dict(call=0, which=0, skew=3), dict(skew=9, pre=3), time=250, reach=['diagnosed'])])
PROPS['C10'] = dict(jobs=
    [J('sf%d' % a, 'c10.c', dict(api0=a, api1=a, sf=1, pg=1), dict(pg=3, amax=7), time=300, reach=['corrupt']) for a in range(8)] +
    [J('below%d' % a, 'c10.c', dict(api0=a, api1=a, below=1), dict(sf=1), time=300, reach=['corrupt']) for a in (0, 1, 3, 4)] +
    [J('dflt%d' % e, 'c10.c', dict(api0=e, api1=e, emax=4, how1=1, pg=0), dict(emax=9, how1=4, pg=1), time=300, reach=['corrupt']) for e in (0, 3)] +
    [J('wide%d' % a, 'c10.c', dict(api0=a, api1=a, wide=1, amin=12, amax=14, how1=2, pg=0), dict(amax=16, how1=4, pg=1, widepg=16), time=300, reach=['corrupt']) for a in (4, 5)] +
    [J('re%d' % a, 'c10.c', dict(api0=a, api1=a, re=1, how1=2), dict(how1=4, pg=2), time=300, reach=['corrupt']) for a in (0, 1)] +
    [J('pf%d' % a, 'c10.c', dict(api0=a, api1=a, pf=1, how1=4), dict(pg=3, pre=2), time=300, reach=['corrupt']) for a in (0, 1)] +
    [J('left%d' % a, 'c10.c', dict(api0=a, api1=a, left=1, left2=1, how1=0 if a else 2, pg=0 if a else 1, amax=3), dict(left=4, how1=4), time=300, reach=['corrupt']) for a in (0, 4)] +
    [J('pre', 'c10.c', dict(api0=0, api1=0, pre=12, how1=2), dict(pre=60), time=300, reach=['corrupt'])] +
    [J('clean%d_%d' % (a, h), 'c10.c', dict(api0=a, api1=a, clean=1, how0=h, how1=h), dict(pg=2), time=300, reach=['clean']) for a in (0, 1, 3, 4) for h in (0, 3)] +
    [J('cleanb%d' % a, 'c10.c', dict(api0=a, api1=a, clean=1, below=1, how1=0), dict(how1=4, re=1), time=300, reach=['clean']) for a in (0, 1, 3)] +
    [J('bad%d' % w, 'c08.c', dict(call=4, which=w), dict(pg=2, pre=3), time=250, reach=['diagnosed']) for w in (0, 2)])
PROPS['C11'] = dict(jobs=
    [J('env%d_%d' % (a, b), 'c11.c', dict(api0=a, api1=b), dict(pf=1), time=250, reach=['addr', 'null', 'end']) for a, b in ((0, 1), (2, 4), (5, 7), (8, 9), (10, 11))] +
    [J('new%d_%d' % (a, b), 'c11.c', dict(oldname=0, api0=a, api1=b), dict(pf=1), time=250, reach=['addr', 'null', 'end']) for a, b in ((0, 1), (8, 10))] +
    [J('left%d' % a, 'c11.c', dict(left=2, left2=1, api0=a, api1=a + 1), dict(left=5), time=250, reach=['addr', 'null', 'end']) for a in (0, 4)] +
    [J('dflt', 'c11.c', dict(dflt=1), time=250, reach=['addr', 'end']),
     J('below', 'c11.c', dict(below=1, api0=0, api1=1), dict(api1=11), time=250, reach=['addr', 'null', 'end']),
     J('pf', 'c11.c', dict(pf=1, api0=0, api1=1), dict(api1=11), time=250, reach=['addr', 'null', 'end'])])
PROPS['C16'] = dict(jobs=
    [J('fn%d' % f, 'c16.c', dict(fn=f, W=6), dict(W=14 if f > 1 else 24), time=300, reach=['disjoint']) for f in range(7)] +
    [J('g%d' % f, 'c16.c', dict(fn=f, W=4, g=1), dict(W=9), time=300, reach=['disjoint']) for f in range(7)] +
    [J('olap%d' % f, 'c16.c', dict(fn=f, W=5, overlap=1), dict(W=9), time=300, reach=['disjoint', 'overlap']) for f in (0, 2, 3, 4, 5)] +
    [J('any%d' % f, 'c16.c', dict(mode=1, fn=f), dict(max=100000), time=300, reach=['copied']) for f in (0, 1)] +
    [J('huge%d' % f, 'c16.c', dict(mode=2, fn=f), time=300, witness=0, reach=['copied']) for f in (0, 6)])
PROPS['C17'] = dict(reach=['end'], jobs=
    [J('api%d' % a, 'c17.c', dict(api0=a, api1=a, max=8000 if a in (4, 5) else 1 << 32), dict(pre=4, max=1 << 40), time=300) for a in range(9)] +
    [J('re%d' % a, 'c17.c', dict(api0=a, api1=a, re=1, max=8000), time=300) for a in (0, 1)] +
    [J('below%d' % a, 'c17.c', dict(api0=a, api1=a, below=1, max=8000), dict(emax=4), time=300) for a in (0, 3)] +
    [J('left%d' % a, 'c17.c', dict(api0=a, api1=a, left=2, left2=1, max=8000), dict(left=5), time=300) for a in (0, 4)] +
    [J('dflt', 'c17.c', dict(api0=0, api1=0, emax=4, max=8000), dict(emax=13), time=300)] +
    [J('bad%d' % w, 'c08.c', dict(call=3, which=w), dict(pg=2, pre=3), time=250, reach=['diagnosed']) for w in (0, 1, 2, 4)])
PROPS['C15'] = dict(jobs=
    [J('small', 'c15.c', dict(ops=3), dict(ops=4), time=250, reach=['kept', 'released']),
     J('hist', 'c15.c', dict(ops=6, nsz=2, r=9), dict(ops=7, nsz=3), time=250, reach=['kept', 'released']),
     J('below', 'c15.c', dict(ops=5, below=1, r=9), dict(ops=6), time=250, reach=['kept', 'released']),
     J('both', 'c15.c', dict(ops=6, ma=1, sz0=10, sz1=200, nsz=2, lmin=20, lmax=100, mmin=1, mmax=1100, r=9), dict(ops=8), time=250, reach=['kept', 'released', 'grown']),
     J('max', 'c15.c', dict(ops=5, ma=1, pf=1, sz0=150, sz1=200, nsz=2, r=99), dict(ops=7), time=250, reach=['kept', 'grown']),
     J('mid', 'c15.c', dict(ops=5, ma=1, sz0=150, sz1=0, nsz=2, lmin=700, lmax=1000, mmin=1400, mmax=1900, r=5), dict(ops=7, r=0), time=250, reach=['kept', 'grown']),
     J('big', 'c15.c', dict(ops=5, ma=1, sz0=0, sz1=300, nsz=2, lmin=1, lmax=2000, mmin=1000, mmax=4000, r=7), dict(ops=6, nsz=4), time=250, reach=['kept', 'grown'])] +
    [J('cycles%d' % b, 'c15.c', dict(cycles=600, lmin=9, lmax=20, below=b), dict(cycles=3000), time=250, reach=['end']) for b in (0, 1)])
PROPS['C14'] = dict(jobs=
    [J('any%d' % f, 'c14.c', dict(api0=0, api1=0, sticky=1, fe=f), dict(api1=3, ops=2), time=250, reach=['end', 'served'] + (['stopped'] if f else ['refused'])) for f in (0, 1)] +
    [J('api%d_%d' % (a, b), 'c14.c', dict(api0=a, api1=b, sticky=1), dict(ops=2), time=250, reach=['end', 'served', 'refused']) for a, b in ((1, 2), (3, 5), (6, 8))] +
    [J('stop%d' % a, 'c14.c', dict(api0=a, api1=a, sticky=1, fe=1), dict(ops=2), time=250, reach=['end', 'served', 'stopped']) for a in (5, 8)] +
    [J('two', 'c14.c', dict(api0=0, api1=0, ops=2, sticky=1), dict(ops=3), time=250, reach=['end', 'served', 'refused']),
     J('below', 'c14.c', dict(api0=0, api1=0, sticky=1, below=1), dict(api1=8), time=250, reach=['end', 'served', 'refused']),
     J('limit', 'c14.c', dict(api0=0, api1=0, pf=2, sticky=1, prefree=2, pre=3, presize=100000), dict(pre=6, api1=3), time=250, reach=['end', 'served', 'refused']),
     J('pf', 'c14.c', dict(api0=0, api1=8, pf=1, sticky=1), dict(ops=2), time=250, reach=['end', 'served', 'refused']),
     J('table', 'c14.c', dict(sticky=2, pre=1050, keep=1, ops=16, big=0, api1=0, budget=1), dict(pre=1100), time=250, reach=['end', 'refused']),
     J('tablestop', 'c14.c', dict(sticky=2, pre=1050, keep=1, ops=16, big=0, api1=0, budget=1, fe=1), time=250, reach=['stopped']),
     J('full', 'c14.c', dict(sticky=2, pre=850, keep=1, ops=70, big=0, api1=0, budget=1, prevar=2, prestep=20, eat1=0), dict(prevar=10, prestep=9, ops=90), time=250, reach=['end', 'refused']),
     J('fullstop', 'c14.c', dict(sticky=2, pre=880, keep=1, ops=70, big=0, api1=0, budget=1, fe=1), time=250, reach=['stopped']),
     J('thread', 'c14.c', dict(thread=1, sticky=1, api1=0), dict(api1=8), time=250, reach=['end', 'refused']),
     J('init', 'c14.c', dict(mode=1), time=250, reach=['end', 'stopped']),
     J('initall', 'c14.c', dict(mode=1, budget=1, sticky=2), time=250, reach=['stopped']),
     J('munmap', 'c14.c', dict(mode=2, pf=2), time=250, reach=['end']),
     J('munmap0', 'c14.c', dict(mode=2, pf=1), time=250, reach=['end']),
     J('mprotect', 'c14.c', dict(mode=3, ops=2), dict(budget=3), time=250, reach=['end', 'stopped']),
     J('mprotpf', 'c14.c', dict(mode=3, ops=2, pf=1), dict(budget=3), time=250, reach=['end', 'stopped']),
     J('initprot', 'c14.c', dict(mode=4), time=250, reach=['end', 'stopped'])])
PROPS['C09'] = dict(jobs=
    [J('c%d' % a, 'c09.cpp', dict(a0=a, a1=a + 1), dict(pg=2), time=250, cpp=1, reach=['accepted', 'diagnosed']) for a in (0, 2, 4, 6)] +
    [J('new', 'c09.cpp', dict(a0=8, a1=11), dict(pg=2), time=250, cpp=1, reach=['accepted', 'diagnosed']),
     J('vec', 'c09.cpp', dict(a0=12, a1=15), dict(pg=2), time=250, cpp=1, reach=['accepted', 'diagnosed']),
     J('member', 'c09.cpp', dict(a0=16, a1=17), dict(pg=2), time=250, cpp=1, reach=['accepted', 'diagnosed']),
     J('zero', 'c09.cpp', dict(zero=1), time=250, cpp=1, reach=['accepted', 'diagnosed']),
     J('pf', 'c09.cpp', dict(pf=1, a0=7, a1=13), dict(a0=0, a1=17), time=250, cpp=1, reach=['accepted', 'diagnosed']),
     J('below', 'c09.cpp', dict(below=1, access=1, a0=6, a1=12), dict(a0=0, a1=17), time=250, cpp=1, reach=['accepted', 'diagnosed'])])
PROPS['C12'] = dict(reach=['end'], jobs=
    [J('bad', 'c12.c', dict(mode=0, e0=32, e1=32, nmax=200), dict(nmax=5000), time=250),
     J('al0', 'c12.c', dict(mode=0, e0=0, e1=8, nmax=300), dict(nmax=5000), time=250),
     J('al1', 'c12.c', dict(mode=0, e0=9, e1=17, nmax=200), dict(nmax=5000), time=250),
     J('al2', 'c12.c', dict(mode=0, e0=25, e1=31, nmax=100), dict(e0=18, nmax=5000), time=250)] +
    [J('v%d' % m, 'c12.c', dict(mode=m), dict(pg=3), time=250, **(dict(reach=['ops']) if m == 10 else dict(reach=[]) if m in (7, 12) else {})) for m in range(1, 20)] +
    [J('unset%d' % m, 'c12.c', dict(mode=m, unset=1), dict(pg=3), time=250, **(dict(reach=[]) if m in (6, 12) else {})) for m in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 14, 15)] +
    [J('text%d' % m, 'c12.c', dict(mode=m, text=1, pg=0, nmax=30), time=250, **(dict(reach=[]) if m == 12 else {})) for m in (1, 3, 4, 5, 12)])

LK = dict(sched='sem_inc.c=all', reach=['end'])
PROPS['C18'] = dict(jobs=
    [J('t2', 'c18.c', dict(T=2, P=4, rounds=1), dict(P=6), time=250, **LK),
     J('t2r2', 'c18.c', dict(T=2, P=2, rounds=2), dict(P=3), time=250, **LK),
     J('t2flat', 'c18.c', dict(T=2, P=4, rounds=2, dmax=1), dict(P=5, rounds=3), time=250, **LK),
     J('t2pat', 'c18.c', dict(T=2, P=2, rounds=1, pat=1), dict(P=4), time=250, **LK),
     J('t3', 'c18.c', dict(T=3, P=2, rounds=1), dict(P=3), time=250, **LK),
     J('t3flat', 'c18.c', dict(T=3, P=3, rounds=1, dmax=1), dict(P=3, rounds=2), time=250, **LK),
     J('deep', 'c18.c', dict(T=2, P=1, rounds=1, dmax=5), dict(P=3, dmax=8), time=250, **LK)])
CC = dict(sched='duma.c=glob,duma_hlp.h=glob,sem_inc.c=all', reach=['end'])
PROPS['C19'] = dict(jobs=
    [J('two%d' % a, 'c19.c', dict(sym=0, P=2, op0=a, op1=a), dict(P=3), time=300, **CC) for a in range(12)] +
    [J('any%d_%d' % ab, 'c19.c', dict(op0=ab[0], op1=ab[0], op2=ab[1], op3=ab[1]), dict(pre=2, op3=11), time=300, **CC) for ab in ((0, 0), (0, 1), (3, 1), (2, 1))] +
    [J('grow%d' % p, 'c19.c', dict(sym=0, P=1, pre=p, op0=0, op1=11, op2=0, op3=1), dict(P=2, op3=11), time=300, **CC) for p in (50, 51)] +
    [J('three', 'c19.c', dict(sym=0, T=3, P=1, op0=0, op1=0, op2=0, op3=2), dict(P=2, op1=2), time=300, **CC),
     J('pf', 'c19.c', dict(sym=0, P=1, pf=1, op0=0, op1=2, freed=1), dict(P=2, op1=11), time=300, **CC),
     J('pflim', 'c19.c', dict(sym=0, P=1, pf=2, op0=0, op1=2, freed=1), dict(P=2, op1=11), time=300, **CC),
     J('freq', 'c19.c', dict(sym=0, P=1, cf=1, op0=0, op1=2), dict(P=2, op1=11), time=300, **CC),
     J('left', 'c19.c', dict(sym=0, P=1, left=3, op0=0, op1=0, op2=0, op3=2), dict(P=2, op1=11), time=300, **CC),
     J('seq', 'c19.c', dict(sym=0, P=1, nops=2, op0=0, op1=2, op2=0, op3=2), dict(P=2), time=300, **CC)])

PROPS['C21'] = dict(reach=['end'], jobs=
    [J('num%d_%s' % (h, chr(c)), 'c21.c', dict(mode=0, conv=c, how=h), time=200) for h in (0, 1) for c in (97, 120, 100, 105, 108)] +
    [J('str0', 'c21.c', dict(mode=1, how=0, max=600), dict(max=4000), time=200),
     J('str1', 'c21.c', dict(mode=1, how=1, max=600), dict(max=4000), time=200),
     J('long1', 'c21.c', dict(mode=1, how=1, min=3900, max=4200), dict(min=3000, max=8900), time=200),
     J('mixed', 'c21.c', dict(mode=2, d0=9, d1=12), dict(d0=1, d1=16), time=250)])

PROPS['C20'] = dict(reach=['end'], jobs=
    [J('none', 'c20.c', dict(N=0, pre=3), dict(pre=60), time=100),
     J('one', 'c20.c', dict(N=1), dict(again=1), time=250),
     J('two', 'c20.c', dict(N=2), dict(N=3), time=250),
     J('twoall', 'c20.c', dict(N=3, all=1, cheap=1), dict(cheap=0), time=250),
     J('exit', 'c20.c', dict(N=1, via=1), dict(N=3), time=250),
     J('exitall', 'c20.c', dict(N=3, all=1, via=1, cheap=1), dict(cheap=0), time=250),
     J('again', 'c20.c', dict(N=3, again=1, cheap=1), dict(cheap=0), time=250),
     J('file', 'c20.c', dict(N=1, file=1), dict(N=2, all=1), time=250),
     J('fileexit', 'c20.c', dict(N=0, file=1, all=1, via=1), dict(N=2), time=250),
     J('grown', 'c20.c', dict(N=1, pre=57), dict(N=2, pre=120), time=250)])

# situation numbers: see the enum in harness/c28.c
PROPS['C25'] = dict(reach=['stopped'], jobs=
    [J('ign%d' % w, 'c28.c', dict(mode=1, what=w, ign=1), dict(pre=60, ign=1), time=200) for w in list(range(22)) + [23]] +
    [J('wf%d' % w, 'c28.c', dict(mode=1, what=w, wf=1), dict(ign=1), time=200) for w in (0, 3, 4, 6, 9, 12, 18, 20, 21)])
PROPS['C28'] = dict(reach=['stopped'], jobs=
    [J('what%d' % w, 'c28.c', dict(what=w, ld=3), dict(ld=9, pre=5), time=200) for w in list(range(21)) + [23] if w != 12] +
    [J('realloc', 'c28.c', dict(what=12, ld=2), dict(ld=5, pre=5), time=200)] +
    [J('api%d_%d' % (w, a), 'c28.c', dict(what=w, api=a, ld=2), dict(ld=5, pre=9), time=200) for w in (0, 4, 23) for a in (1, 2, 3)] +
    [J('mid%d' % w, 'c28.c', dict(what=w, pre=9, mid=1, ld=2), dict(ld=5, pre=30), time=200) for w in (0, 3, 4, 5, 13, 14)] +
    [J('grow%d' % w, 'c28.c', dict(what=w, pre=57, mid=1, ld=1), dict(ld=4, pre=121), time=200) for w in (0, 3, 23)])

PROPS['C22'] = dict(reach=['end'], jobs=
    [J('small', 'c22.cpp', dict(size=0, hk=1), dict(pg=3), cpp=1, time=250),
     J('zero', 'c22.cpp', dict(size=3, z=1, hk=1), cpp=1, time=250),
     J('big', 'c22.cpp', dict(size=1, hk=1, tmax=0), dict(tmax=2), cpp=1, time=250)] +
    [J('some%d_%d' % (h, f), 'c22.cpp', dict(size=1, hk=h, fail=2, f0=f, f1=f + 3, budget=4), dict(tmax=4, budget=8), cpp=1, time=250) for h in (0, 1, 2, 3) for f in (0, 4)] +
    [J('all%d' % h, 'c22.cpp', dict(size=1, hk=h, fail=3), dict(tmax=5), cpp=1, time=250) for h in (0, 1, 2, 3)] +
    [J('huge%d' % h, 'c22.cpp', dict(size=2, hk=h), dict(tmax=4), cpp=1, time=250) for h in (0, 1, 2)] +
    [J('pf', 'c22.cpp', dict(size=1, hk=3, fail=2, pf=1, f0=0, f1=4), dict(f1=7, budget=8), cpp=1, time=250),
     J('max', 'c22.cpp', dict(size=1, hk=3, fail=2, ma=1, f0=0, f1=4), dict(f1=7, budget=8), cpp=1, time=250)])

PROPS['C23'] = dict(jobs=
    [J('freq%d' % n, 'c23.c', dict(fmin=n, fmax=n, premax=2 * n if n < 4 else 3, kinds=5 if n < 3 else 1 if n < 5 else 0), dict(premax=2 * n + 1, kinds=5 if n < 4 else 2 if n < 6 else 0), time=250, reach=['reported']) for n in (1, 2, 3, 4, 7)] +
    [J('one', 'c23.c', dict(fmin=8, fmax=12, premax=6, kinds=0), dict(fmax=40, premax=45), time=250, reach=['reported']),
     J('below', 'c23.c', dict(fmax=2, below=1), dict(fmax=3, premax=8), time=250, reach=['reported']),
     J('fill', 'c23.c', dict(fmax=2, sf=1), dict(fmax=3, premax=8), time=250, reach=['reported']),
     J('pf', 'c23.c', dict(fmax=2, pf=1), dict(fmax=3, premax=8), time=250, reach=['reported']),
     J('clean', 'c23.c', dict(fmax=3, clean=1, ops=3), dict(fmax=4, ops=4), time=250, reach=['end']),
     J('cleanb', 'c23.c', dict(fmax=2, clean=1, ops=2, below=1, pf=1, sf=1), dict(fmax=3, ops=4), time=250, reach=['end'])])

PROPS['C24'] = dict(jobs=
    [J('text', 'c24.c', dict(what=0, flmax=2, max=3), dict(max=12, flmax=6), time=250, reach=['end']),
     J('long', 'c24.c', dict(what=0, flmax=1, min=4095, max=4095), dict(min=4085), time=250, reach=['end']),
     J('stop', 'c24.c', dict(what=1, flmax=4), dict(flmax=12), time=250, reach=['stopped']),
     J('leak', 'c24.c', dict(what=2, flmax=4), dict(flmax=12), time=250, reach=['end']),
     J('none', 'c24.c', dict(what=3, flmax=12), dict(flmax=16), time=250, reach=['end']),
     J('show', 'c24.c', dict(what=4, flmax=3), dict(flmax=12), time=250, reach=['end']),
     J('exit', 'c24.c', dict(what=5, flmax=3), dict(flmax=12), time=250, reach=['stopped'])])

PROPS['C29'] = dict(reach=['end'], jobs=
    [J('align%d' % e, 'c29.c', dict(w0=1, w1=1, emin=e, emax=e, emax2=2, u0=0, u1=0, max=64 if e < 3 else 24), dict(u1=3, max=5000), time=300) for e in (0, 1, 3)] +
    [J('align4', 'c29.c', dict(w0=1, w1=1, emin=4, emax=4, u0=0, u1=0, max=40, how1=0), dict(u1=3, max=5000, how1=2), time=300)] +
    [J('wide%d' % e, 'c29.c', dict(w0=1, w1=1, emin=e, emax=e, u0=0, u1=0, min=4000, max=5000, how1=0), dict(min=1, u1=3, how1=2), time=300) for e in (12, 13)] +
    [J('below%d' % b, 'c29.c', dict(w0=2, w1=2, emax2=1, below=b), dict(emax2=4, max=5000), time=300) for b in (0, 1)] +
    [J('fill%d' % b, 'c29.c', dict(w0=3, w1=3, emax2=1, below=b), dict(emax2=4, max=5000, amax=64), time=300) for b in (0, 1)] +
    [J('back', 'c29.c', dict(w0=2, w1=2, u0=1, u1=2, emax2=1, max=50, slack=1), dict(u0=0, u1=3, amax=64), time=300)] +
    [J('api%d' % a, 'c29.c', dict(w0=2, w1=3, u1=0, api=a), dict(w0=0, emax=4, u1=3), time=300) for a in (1, 3, 4, 5, 6)] +
    [J('apial%d' % a, 'c29.c', dict(w0=1, w1=1, emin=2, emax=2, u1=0, api=a, max=64), dict(emax=13), time=300) for a in (1, 3, 4, 6)])

FC = dict(vf=0, vb=0, amax=0, vo=1, vs=1)
PROPS['C27'] = dict(jobs=
    [J('alloc%d' % a, 'c27.c', dict(f0=a, f1=a + 2, min=20), dict(min=1), time=300, reach=['end']) for a in (0, 3, 6)] +
    [J('small', 'c27.c', dict(f0=0, f1=0), dict(f1=1), time=300, reach=['end'])] +
    [J('glob%d' % a, 'c27.c', dict(f0=a, f1=a + 2, min=20), dict(min=1), time=300, reach=['end']) for a in (40, 43)] +
    [J('other', 'c27.c', dict(f0=13, f1=26, **FC), dict(vf=1, vb=1, amax=2), time=300, reach=['end']),
     J('copy', 'c27.c', dict(f0=27, f1=39, **FC), dict(vf=1, vb=1, amax=2), time=300, reach=['end']),
     J('dup', 'c27.c', dict(f0=46, f1=47, **FC), dict(vf=1, vb=1, amax=2), time=300, reach=['end'])] +
    [J('new%d' % a, 'c27.cpp', dict(f0=a, f1=a, min=20), dict(min=1), cpp=1, time=300, reach=['end']) for a in (9, 10, 11, 12)] +
    [J('del', 'c27.cpp', dict(f0=15, f1=21, **FC), dict(vf=1, vb=1, amax=2), cpp=1, time=300, reach=['end'])])


# configurations combined: the guarantees hold under every setting of the other variables
MIX = dict(e_pf=90, e_cf=2, e_fa=1, e_sa=1, e_ma=3000)
def add(prop, *jobs): PROPS[prop]['jobs'] += list(jobs)
add('C01', J('mix', 'c01.c', dict(MIX, api0=0, api1=0, max=5000, e_sf=0), dict(api1=7), time=250))
add('C02', J('mix', 'c01.c', dict(MIX, api0=3, api1=3, max=5000, amax=4, below=1), dict(api0=0, api1=7), time=250))
add('C04', J('mix', 'hist.c', dict(ops=2, mask=7, op0=0, e_sa=1, e_ma=1, e_pf=40, pg=0), dict(mask=511, ops=3), time=250))
add('C07', J('mix', 'hist.c', dict(ops=2, op0=0, op1=2, pg=0, e_sa=1, e_ma=1, e_pf=40), dict(pg=3), time=250, reach=['realloc']))
add('C10', J('mix', 'c10.c', dict(MIX, api0=0, api1=0, how1=0, pg=1), dict(how1=4, api1=3), time=300, reach=['corrupt']))
add('C20', J('same', 'c20.c', dict(N=2, sf=1, cheap=1), dict(cheap=0), time=250),
    J('same3', 'c20.c', dict(N=3, sf=1, cheap=1, known=1), time=500, tier='thorough'),
    J('pf0', 'c20.c', dict(N=2, cheap=1, e_pf=0), dict(N=3), time=250),
    J('pflim', 'c20.c', dict(N=2, cheap=1, e_pf=20, all=1), dict(N=3), time=250),
    J('mix', 'c20.c', dict(N=2, cheap=1, e_pb=1, e_cf=2, e_fa=1), dict(N=3), time=250))
add('C28', *[J('pf%d' % w, 'c28.c', dict(what=w, ld=1, e_pf=90000), dict(ld=5, pre=9), time=200) for w in (0, 1, 2, 14)] +
    [J('pfx%d' % w, 'c28.c', dict(what=w, ld=1, e_pf=0), dict(ld=5, pre=9), time=200) for w in (3, 4, 6, 23)] +
    [J('mix%d' % w, 'c28.c', dict(what=w, ld=1, e_cf=3, e_ma=1), dict(ld=5, pre=9), time=200) for w in (0, 4)])
