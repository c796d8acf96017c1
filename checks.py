"""What each check runs: specification instances, step mixes and sizes."""

# moduli = 1 mod 2^16, by bit size
Q60, Q60B, Q60C = 1152921504606584833, 1152921504598720513, 1152921504597016577   # just below 2^60
Q61, Q61B, Q61C = 2305843009211662337, 2305843009211596801, 2305843009211400193   # just below 2^61 (largest allowed size)
Q60U = 1152921504608747521                                                        # just above 2^60
Q50, Q50B, Q50C = 1125899904679937, 1125899903827969, 1125899903500289
Q45, Q45B = 35184368877569, 35184368025601
Q40, Q40B, Q40C = 1099510054913, 1099507695617, 1099506515969
Q36, Q36B = 68718428161, 68714954753
Q30, Q30B, Q30C = 1073479681, 1072496641, 1071513601
Q25 = 33292289
Q20 = 786433
Q55, Q55B, Q55C = 36028797017456641, 36028797014704129, 36028797014573057


def is_prime(n):
    if n < 2 or any(n % p == 0 and n != p for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
        return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if n == a or x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def primes(bits, n, logm=16, up=False, skip=()):
    """n primes = 1 mod 2^logm closest to 2^bits from below (or above)"""
    m = 1 << logm
    x = (1 << bits) + 1 if up else (1 << bits) - m + 1
    res = []
    while len(res) < n:
        if is_prime(x) and x not in skip:
            res.append(x)
        x += m if up else -m
    return res


QL1, QL3 = primes(61, 2, 18)      # moduli for rings of degree 2^16
QL2 = primes(40, 1, 18)[0]


def job(name, module, step, consts, n, steps, driver=None, **kw):
    return dict(name=name, module=module, step=step, consts=consts, n=n, steps=steps, driver=driver or module, **kw)


def ring_jobs(mix, n, steps, ci=True, big=True):
    inv = "wellFormed"
    js = [
        job("std16", "ring", mix, dict(N=16, QS=[Q60, Q61, Q50], CI=False, LENS=[3, 3, 3, 2, 3]), n, steps, inv=inv),
        job("std32", "ring", mix, dict(N=32, QS=[Q61B, Q30, Q60U, Q45], CI=False, LENS=[4, 4, 2, 4]), max(8, n // 3), max(10, steps * 2 // 3), inv=inv),
    ]
    if ci:
        js.append(job("ci16", "ring", mix, dict(N=16, QS=[Q60, Q61, Q40], CI=True, LENS=[3, 3, 3, 1, 3]), max(10, n // 2), steps, inv=inv))
    if big:
        mix = {"mixR02": "mixR02L"}.get(mix, mix)
        js.append(job("std16x64", "ring", mix, dict(N=16, QS=[Q61, Q55], CI=False, LENS=[2, 2, 2]), max(8, n // 4), steps, inv=inv, cfg=dict(lift=64)))
        if ci:
            js.append(job("ci16x16", "ring", mix, dict(N=16, QS=[Q61, Q36], CI=True, LENS=[2, 2, 2]), max(8, n // 4), steps, inv=inv, cfg=dict(lift=16)))
        # the largest rings that the parameters of the schemes allow
        js.append(job("std16x8192", "ring", mix, dict(N=16, QS=[QL1, QL2], CI=False, LENS=[2, 2, 2]), 8, steps, inv=inv, cfg=dict(lift=8192)))
        if ci:
            js.append(job("ci16x2048", "ring", mix, dict(N=16, QS=[QL3, QL2], CI=True, LENS=[2, 2, 2]), 8, steps, inv=inv, cfg=dict(lift=2048)))
    return js


RING_RULE = ("random behaviours of spec/ring.qnt: operand polynomials from seven classes (zero, all q-1, random, edge words, small signed, "
             "monomial, around q/2), every register aliasing, every level and representation; a case is one call on the code with its "
             "operands; distinct = different (operation, registers, level, scalars); loads are trivial and not counted")

def ckks_jobs(mix, n, steps, sparse=True):
    inv = "wellFormed realSlots".split()
    js = [
        job("std16", "ckks", mix, dict(N=16, CI=False, QS=[Q60, Q40, Q40B, Q40C], PS=[Q61], LOGSCALE=40, LOGSLOTS=3, NC=4, NP=1, ROTS=[1, 3, -2, 7]), n, steps, inv=inv),
        job("std16p2", "ckks", mix, dict(N=16, CI=False, QS=[Q55, Q45, Q45B, Q36, Q36B], PS=[Q60, Q50], LOGSCALE=36, LOGSLOTS=3, NC=3, NP=2, ROTS=[1, 2, -1, 4]), n * 2 // 3, steps, inv=inv),
        job("ci16", "ckks", mix, dict(N=16, CI=True, QS=[Q60, Q40, Q40B, Q40C], PS=[Q61, Q61B], LOGSCALE=40, LOGSLOTS=4, NC=3, NP=1, ROTS=[1, 5, -1, 8]), n // 2, steps, inv=inv),
    ]
    if mix == "mixC03":
        js.append(job("again", "ckks", "mixAgain", dict(N=16, CI=False, QS=[Q60, Q40, Q40B], PS=[Q61], LOGSCALE=40, LOGSLOTS=3, NC=2, NP=1, ROTS=[1, -3]), n, steps, inv=inv))
    p61 = primes(61, 13)
    p45 = primes(45, 7)
    js.append(job("std16x12", "ckks", mix, dict(N=16, CI=False, QS=[Q60] + p61[:11], PS=p61[12:13], LOGSCALE=60, LOGSLOTS=3, NC=3, NP=1, ROTS=[1, 3, -2]), max(8, n // 5), steps, inv=inv))
    js.append(job("std16p3", "ckks", mix, dict(N=16, CI=False, QS=p45, PS=[Q50, Q50B, Q50C], LOGSCALE=44, LOGSLOTS=3, NC=3, NP=1, ROTS=[1, 2, -1]), max(8, n // 4), steps, inv=inv))
    if sparse:
        js.append(job("std256s8", "ckks", mix, dict(N=256, CI=False, QS=[Q60, Q45, Q45B], PS=[Q61], LOGSCALE=45, LOGSLOTS=3, NC=3, NP=1, ROTS=[1, -1, 2]), max(8, n // 4), steps, inv=inv))
        js.append(job("ci128s4", "ckks", mix, dict(N=128, CI=True, QS=[Q60, Q45, Q45B], PS=[Q61], LOGSCALE=45, LOGSLOTS=2, NC=3, NP=1, ROTS=[1, -1]), max(8, n // 6), steps, inv=inv))
        # a ring of the size that is used in practice, few slots
        q = primes(60, 1, 18) + primes(45, 2, 18)
        js.append(job("std65536s4", "ckks", mix, dict(N=65536, CI=False, QS=q, PS=primes(61, 1, 18), LOGSCALE=45, LOGSLOTS=2, NC=3, NP=1, ROTS=[1, -1]), 8, steps // 2, inv=inv, cfg=dict(SKHW=12)))
        js.append(job("ci32768s2", "ckks", mix, dict(N=32768, CI=True, QS=q, PS=primes(61, 1, 18), LOGSCALE=45, LOGSLOTS=1, NC=3, NP=1, ROTS=[1]), 8, steps // 3, inv=inv, cfg=dict(SKHW=12)))
    return js


def cos_table(m, bits):
    """cos(2 pi k / m) for k < m, fixed point with the given number of fractional bits"""
    from math import isqrt
    w = bits + 64
    one = 1 << w
    c, s, k = 0, one, 4
    while k < m:
        h = isqrt(((one + c) << w) >> 1)
        s, c, k = (s << w) // (2 * h), h, 2 * k
    out, x, y = [], one, 0
    for _ in range(m):
        out.append((x + (1 << 63)) >> 64)
        x, y = (x * c - y * s) >> w, (x * s + y * c) >> w
    return out


def pow5(m):
    return [pow(5, j, m) for j in range(m // 4)]


def encoder_jobs(n, steps, mix="mixC05"):
    inv = ["wellFormed", "roundTrip", "tablesOk"]
    U = 1 << 64
    sc = [U << 40, U << 20, (U << 30) * 3 + U // 4, Q45 * U, U << 80, U << 6]
    std = dict(N=16, CI=False, QS=[Q60, Q40, Q30], PS=[Q61, Q50], SCALES=sc, NP=3, COS=cos_table(32, 160), CP=160, POW5=pow5(32), BIGPREC=128)
    ci = dict(N=16, CI=True, QS=[Q61, Q40, Q25], PS=[Q60], SCALES=sc, NP=3, COS=cos_table(64, 160), CP=160, POW5=pow5(64), BIGPREC=128)
    s64 = dict(N=64, CI=False, QS=[Q50, Q45], PS=[Q55], SCALES=sc[:4], NP=2, COS=cos_table(128, 160), CP=160, POW5=pow5(128), BIGPREC=96)
    many = dict(N=16, CI=False, QS=primes(61, 6), PS=[Q60], SCALES=[U << 40, U << 200, U << 300], NP=2, COS=cos_table(32, 260), CP=260, POW5=pow5(32), BIGPREC=200)
    c64 = dict(ci, N=64, COS=cos_table(256, 160), POW5=pow5(256), NP=2)
    s256 = dict(s64, N=256, COS=cos_table(512, 160), POW5=pow5(512))
    js = [
        job("std16", "encoder", mix, std, n, steps, inv=inv),
        job("ci16", "encoder", mix, ci, n, steps, inv=inv),
        job("std64", "encoder", mix, s64, max(8, n // 8), steps // 2, inv=inv),
        job("std16x6", "encoder", mix, many, max(8, n // 3), steps, inv=inv),
        job("ci64", "encoder", mix, c64, max(8, n // 10), steps // 2, inv=inv),
        job("std256", "encoder", mix, s256, max(8, n // 24), steps // 3, inv=inv),
    ]
    return js if mix == "mixC05" else [dict(j, name="encoder-" + j["name"]) for j in js[:4]]


def rlwe_jobs(mix, n, steps, nop=True, rings=True, ci=True, only=None):
    inv = ["wellFormed", "mapsInverse"]
    def mk(name, n, steps=steps, **kw):
        return job(name, "rlwe", kw.pop("mix", mix), dict(dict(N=16, CI=False, NS=0, NCI=0, SECD=[0, 0], NC=3, NP=2, BOUND=19, HW=8, LIFT=1, SWKS=[[0, 0, 0, 0, 0]]), **kw), n, steps, inv=inv)
    js = []
    # switching keys: [input key, output key, levels of Q and P, level of the input key]
    js.append(mk("std16p1", n, QS=[Q60, Q40, Q40B, Q40C], PS=[Q61], SWKS=[[0, 1, 3, 0, 3], [1, 0, 3, 0, 3], [0, 1, 2, 0, 1], [1, 0, 1, 0, 3]]))
    js.append(mk("std16p2", n, QS=[Q45, Q45B, Q36, Q36B, Q50], PS=[Q60, Q50B], SWKS=[[0, 1, 4, 1, 4], [1, 0, 4, 1, 4], [0, 1, 4, 0, 4], [1, 0, 3, 1, 0]]))
    js.append(mk("std16p3", n // 2, QS=[Q55] + primes(45, 6), PS=[Q60, Q60B, Q61], SWKS=[[0, 1, 6, 2, 6], [1, 0, 6, 2, 6], [0, 1, 5, 1, 6], [1, 0, 4, 2, 2]]))
    js.append(mk("std16x14", max(6, n // 6), QS=primes(61, 14), PS=primes(61, 15)[14:], SWKS=[[0, 1, 13, 0, 13], [1, 0, 13, 0, 13]]))
    if mix == "mixK01":
        big = primes(61, 104)
        # moduli of Q and P of very different sizes: the room of the lazy sums is that of the larger ones
        js.append(mk("std16x22p1", max(6, n // 8), QS=primes(36, 22), PS=[Q61], SWKS=[[0, 1, 21, 0, 21], [1, 0, 21, 0, 21]]))
        js.append(mk("std16x14s", max(6, n // 8), QS=primes(61, 14), PS=[Q36], SWKS=[[0, 1, 13, 0, 13], [1, 0, 13, 0, 13]]))
        js.append(mk("std16x24p2", max(6, n // 10), QS=primes(61, 24), PS=primes(40, 2), SWKS=[[0, 1, 23, 1, 23], [1, 0, 23, 1, 23]]))
        js.append(mk("std16x40p2", max(6, n // 12), QS=primes(36, 40), PS=primes(61, 2), SWKS=[[0, 1, 39, 1, 39], [1, 0, 39, 1, 39], [0, 1, 39, 0, 39]]))
        js.append(mk("std16x36p34", max(4, n // 20), QS=big[:36], PS=big[36:70], SWKS=[[0, 1, 35, 33, 35], [1, 0, 35, 33, 35], [0, 1, 35, 32, 35]]))
    if ci:
        js.append(mk("ci16p1", n // 2, CI=True, QS=[Q60, Q40, Q40B], PS=[Q61], SWKS=[[0, 1, 2, 0, 2], [1, 0, 2, 0, 2]]))
    if nop:
        js.append(mk("std16nop", n // 2, QS=[Q60, Q40, Q30], PS=[], mix=nop if isinstance(nop, str) else mix))
        js.append(mk("ci16nop", n // 3, CI=True, QS=[Q50, Q40], PS=[], mix=nop if isinstance(nop, str) else mix))
    if rings:
        js.append(mk("std64rings", max(8, n // 3), N=64, NS=16, NCI=32, QS=[Q60, Q45, Q45B], PS=[Q61], SECD=[0, 1, 2, 0],
                     SWKS=[[1, 0, 2, 0, 2], [0, 1, 2, 0, 2], [0, 2, 2, 0, 2], [2, 0, 2, 0, 2], [1, 3, 2, 0, 1], [3, 1, 1, 0, 2]],
                     mix=rings if isinstance(rings, str) else mix))
    # rings of the size that is used in practice
    q = primes(60, 1, 18) + primes(45, 2, 18)
    js.append(mk("std16x4096", 8, steps=steps * 2 // 3, LIFT=4096, QS=q, PS=primes(61, 1, 18), SWKS=[[0, 1, 2, 0, 2], [1, 0, 2, 0, 2], [0, 1, 1, 0, 2]]))
    if ci:
        js.append(mk("ci16x2048", 8, steps=steps // 2, CI=True, LIFT=2048, QS=q, PS=primes(61, 1, 18), SWKS=[[0, 1, 2, 0, 2], [1, 0, 2, 0, 2]]))
    if rings:
        js.append(mk("std64x512rings", 8, steps=steps * 2 // 3, N=64, NS=16, NCI=32, LIFT=512, QS=q, PS=primes(61, 1, 18), SECD=[0, 1, 2, 0],
                     SWKS=[[1, 0, 2, 0, 2], [0, 1, 2, 0, 2], [0, 2, 2, 0, 2], [2, 0, 2, 0, 2], [1, 3, 2, 0, 1], [3, 1, 1, 0, 2]],
                     mix=rings if isinstance(rings, str) else mix))
    return [j for j in js if not only or j["name"] in only]


def refuse_jobs(n, steps):
    inv = ["wellFormed", "keysNeedAux", "noConjugation"]
    def mk(name, n, **kw):
        return job(name, "refuse", "mixE01", dict(RINGS=kw["RINGS"], NK=2, NS=3, QL=len(kw["QS"]) - 1), n, steps, inv=inv, cfg=dict(QS=kw["QS"], PS=kw["PS"]))
    return [mk("keys-a", n, QS=[Q60, Q45, Q45B], PS=[Q61], RINGS=[[4, 0, 1], [5, 0, 1], [6, 0, 0], [4, 1, 1], [5, 1, 0]]),
            mk("keys-b", n // 2, QS=[Q55, Q50], PS=[Q60, Q50B], RINGS=[[5, 1, 1], [6, 0, 1], [4, 0, 0], [5, 0, 0]])]


def idempotents(ms):
    """for every start s and length k: the CRT idempotents of ms[s:s+k]"""
    from math import prod
    return [[[(prod(ms[s:s + k]) // m) * pow(prod(ms[s:s + k]) // m, -1, m) for m in ms[s:s + k]] for k in range(1, len(ms) - s + 1)] for s in range(len(ms))]


def basis_jobs(mix, n, steps, only=None):
    inv = ["wellFormed", "gadget", "quotient"]
    def mk(name, n, QS, PS, CI=False, N=16, TS=(65537, 256, 2)):
        assert not set(QS) & set(PS)
        return job(name, "basis", mix, dict(N=N, QS=QS, PS=PS, CI=CI, NREG=4, IDEMQ=idempotents(QS), IDEMP=idempotents(PS), TS=list(TS)), n, steps, inv=inv)
    js = [
        mk("q4p1", n, [Q60, Q40, Q40B, Q30], [Q61]),
        mk("q5p2", n, [Q61, Q50, Q45, Q36, Q61B], [Q60, Q30]),
        mk("q7p3", n // 2, [Q30, Q55, Q61, Q40, Q60U, Q25, Q50], [Q61B, Q20, Q60], TS=(65537, 786433, 1 << 20)),
        mk("q3p4", n // 2, primes(61, 3), primes(61, 7)[3:]),
        mk("ci4p2", n // 2, [Q60, Q40, Q61, Q45], [Q61B, Q50], CI=True),
        mk("q13p5", max(6, n // 6), primes(61, 13), primes(61, 18)[13:]),
        mk("q2p2n64", max(6, n // 6), [Q61, Q30], [Q61B, Q60], N=64),
        mk("q34p2", max(4, n // 12), primes(61, 34), primes(61, 36)[34:]),
        mk("q3p40", max(4, n // 12), primes(61, 3), primes(61, 43)[3:]),
    ]
    return [j for j in js if not only or j["name"] in only]


def fast_jobs(mix, n, steps, only=None):
    inv = ["wellFormed", "roomInT"]
    def mk(name, n, QS, PS, TS, GAMMA, N=16, steps=steps, LOGSCALE=40, LOGSLOTS=3, NK=2, ROTS=(1, 3, -2, 7, 0), mix=mix, **kw):
        assert len(set(QS) | set(PS) | set(TS)) == len(QS) + len(PS) + len(TS)
        return job(name, "fast", mix, dict(dict(N=N, QS=QS, PS=PS, TS=TS, GAMMA=GAMMA, LOGSCALE=LOGSCALE, LOGSLOTS=LOGSLOTS, NK=NK, ROTS=list(ROTS), NC=4, NP=2, BOUND=19, HW=8, LIFT=1), **kw), n, steps, inv=inv)
    js = [
        mk("a1g1", n, [Q60, Q40, Q40B, Q40C], [Q61], primes(61, 4)[1:], 1),
        mk("a1g3", n, [Q36] + primes(40, 6), [Q45], primes(60, 5), 3),
        mk("a2g3", n, [Q55, Q45, Q45B] + primes(40, 4), [Q60, Q50], primes(61, 6), 3, LOGSCALE=42),
        mk("a3g2", n // 2, [Q55] + primes(40, 7), [Q60, Q61, Q50], primes(60, 7)[1:], 2),
        mk("a2g5s", max(8, n // 4), primes(45, 5), [Q50, Q50B], primes(61, 8), 5, N=64, LOGSLOTS=2, LOGSCALE=44, ROTS=[1, -1, 2]),
        mk("a1x24", max(6, n // 8), primes(36, 24, up=True), [Q50], primes(60, 5), 3, LOGSCALE=36),
        mk("smallT", n, [Q60, Q40, Q61], [Q61B], primes(50, 5)[1:], 1),
        # rings of the size that is used in practice
        mk("a1g1x4096", 8, primes(60, 1, 18) + primes(45, 3, 18), primes(61, 1, 18), primes(61, 4, 18)[1:], 1, steps=steps // 2, LIFT=4096, LOGSCALE=45, LOGSLOTS=2),
        mk("a2g3x2048", 8, primes(55, 1, 18) + primes(45, 4, 18), primes(60, 2, 18), primes(61, 7, 18), 3, steps=steps // 2, LIFT=2048, LOGSCALE=45, ROTS=[1, -1]),
        mk("a4g9", max(6, n // 6), [Q50] + primes(40, 8), primes(50, 5)[1:], primes(61, 12), 9),
    ]
    if mix == "mixF01":
        js.append(mk("again", n, [Q55, Q45, Q45B] + primes(40, 2), [Q60], primes(61, 6), 2, LOGSCALE=42, NC=2, NK=1, ROTS=[1, -3], mix="mixAgain"))
    return [j for j in js if not only or j["name"] in only]


def serial_jobs(n, steps):
    return [job("objects", "serial", "mixS01", dict(NRINGS=7, NO=5, NB=3), n, steps, inv=["wellFormed"])]


def number_jobs(n, steps):
    sizes = list(range(20, 62)) + [60, 61, 60, 61, 59, 55, 50, 45, 40, 36, 30]
    return [job("primes", "numbers", "mixR07", dict(SIZES=sizes, ROOTS=[5, 6, 8, 10, 12, 14, 15, 16, 17]), n, steps, inv=["wellFormed"])]


def param_jobs(n, steps):
    wide = [x for b in (25, 30, 36, 40, 45, 50, 55, 60, 61) for x in primes(b, 3, 18)] + primes(60, 2, 18, up=True) + primes(40, 1, 18, up=True)
    narrow = []
    for b in (20, 33, 60):
        x = (1 << b) + 1
        while len(narrow) < 12:
            x += 64
            if x % 128 == 65 and is_prime(x):
                narrow.append(x)
                if len(narrow) % 4 == 0:
                    break
    bad = [0, 1, 2, 3, 4, 97 * 193, (1 << 60) + 1, 1152921504606584833 + 2, 786433 * 786433, 33292289 * 786433]
    bad += primes(62, 2, 18) + primes(62, 1, 18, up=True) + primes(63, 1, 18) + primes(61, 2, 18, up=True) + [18446744073709551615, 18446744073709551557, 2305843009213693951]
    defaults = [(12, 109, 11, 0), (13, 218, 12, 0), (14, 438, 13, 0), (15, 880, 14, 0), (16, 1761, 15, 0)]
    defaults += [(a, b, a, 1) for a, b, _, _ in defaults]
    pq = [(12, 101, 11, 0), (13, 202, 12, 0), (14, 411, 13, 0), (15, 827, 14, 0), (16, 1654, 15, 0)]
    defaults += pq + [(a, b, a, 1) for a, b, _, _ in pq]
    consts = dict(WIDE=wide, MANY=[q for q in primes(59, 130, 18) if q not in wide][:102], NARROW=narrow, BAD=bad, SIZES=list(range(22, 61, 3)) + [60, 60, 45, 40], NREG=3,
                DEFAULTS=[dict(logn=a, logqp=b, slots=c, ci=bool(d)) for a, b, c, d in defaults])
    return [job("sets", "params", "mixP01", consts, n, steps, inv=["wellFormed"]), job("many", "params", "mixMany", consts, max(16, n // 8), 10, inv=["wellFormed"])]


def sampler_jobs(n, steps):
    rings = [dict(logn=4, ci=False, qs=[Q60, Q40, Q30], ps=[Q61]), dict(logn=6, ci=False, qs=[Q60U, Q61, Q20, Q50], ps=[Q55, Q45]), dict(logn=8, ci=True, qs=[Q61, Q36], ps=[Q60]),
             dict(logn=5, ci=False, qs=[Q55, Q25], ps=[]), dict(logn=4, ci=True, qs=primes(40, 1, up=True) + primes(61, 1), ps=[])]
    large = [dict(logn=15, ci=True, qs=primes(60, 1, 18) + primes(40, 1, 18), ps=primes(61, 1, 18)), dict(logn=16, ci=False, qs=primes(61, 2, 18), ps=primes(55, 1, 18)), dict(logn=17, ci=False, qs=primes(45, 2, 20), ps=[])]
    return [job("streams", "samplers", "mixR06", dict(RINGS=rings, NG=3, NS=4, NP=4), n, steps, inv=["wellFormed"]),
            job("large", "samplers", "mixLarge", dict(RINGS=large, NG=2, NS=3, NP=2), max(16, n // 8), steps // 2, inv=["wellFormed"])]


def thread_jobs(n, steps):
    inv = ["wellFormed"]
    def mk(name, n, QS, PS, TS=(), GAMMA=1, N=16, CI=False, FAST=False, LOGSLOTS=3, LOGSCALE=40, **kw):
        assert len(set(QS) | set(PS) | set(TS)) == len(QS) + len(PS) + len(TS)
        return job(name, "threads", "mixT01", dict(dict(NW=4, NR=3, NSH=3, NK=2, QL=len(QS) - 1, SLOTS=1 << LOGSLOTS, ROTS=[1, -1, 2, 3], FAST=FAST, CI=CI), **kw), n, steps, inv=inv, build="race",
                   cfg=dict(N=N, QS=list(QS), PS=list(PS), TS=list(TS), GAMMA=GAMMA, LOGSCALE=LOGSCALE, LOGSLOTS=LOGSLOTS))
    return [mk("std16", n, [Q60, Q40, Q40B, Q40C], [Q61]), mk("std64w8", n // 2, [Q60, Q40, Q40B], [Q61, Q50], N=64, LOGSLOTS=5, NW=8),
            mk("ci16", n // 2, [Q60, Q40, Q40B], [Q61], CI=True, LOGSLOTS=4), mk("fast", n // 2, [Q55, Q40, Q40B], [Q61], primes(60, 4)[1:], 1, FAST=True)]


THREAD_RULE = ("random behaviours of spec/threads.qnt over workers with objects of their own, most of them shallow copies of each other's or bound to another key, sharing parameters, rings, keys and published "
               "values; the steps of a phase run at the same time under the race detector, then a second time in turn; a case is one call; distinct = different (operation, worker, registers, level)")
THREAD = ("the race detector reports unsynchronised accesses of the executed schedules, whatever their outcome; results are compared with the specification's message and, where a call is deterministic, bit for bit "
          "with the same call on objects nobody else uses; assurance is that of the explored behaviours (random, seeded; schedules as the Go runtime gives them); trusted: Quint's evaluator, the race "
          "detector, the replayer and the Go toolchain")

SAMPLER_RULE = ("random behaviours of spec/samplers.qnt over generators (keys of 0 to 64 bytes, equal, one bit apart, one a prefix of another; draws of every length, clocks set forwards, "
                "in place and backwards), samplers of the four distributions on five rings, and receivers of every level holding earlier samples or arbitrary words; two thirds of the generators "
                "give the bytes of their key, a third the same with words at the edges of the ranges mixed in; a case is one call; distinct = different (operation, registers, distribution)")
SAMPLER = ("every call is made twice, on twins with other receivers, and compared; every sample is reconstructed over the integers and compared with the range, weight and bound of the "
           "specification; counts over 30000 coefficients (shares, signs, neighbours, tails) with the expectation and seven standard deviations; assurance is that of the explored behaviours "
           "(random, seeded); a bias below what 30000 coefficients show is not seen; trusted: Quint's evaluator, the replayer and the Go toolchain")

SERIAL_RULE = ("random behaviours of spec/serial.qnt over registers of objects of ten kinds (every degree, level, flag, with and without either part, up to 200 moduli) and of their encodings; "
               "decoding into fresh receivers and over any object of the kind, copies, changes in place, near-equal variants; a case is one call; distinct = different (operation, object, receiver, codec)")
SERIAL = ("after every call every object is compared, residue by residue and flag by flag, with an expansion of the specification's value that shares no code with the objects; bytes of equal "
          "values are compared with each other; assurance is that of the explored behaviours (random, seeded); trusted: Quint's evaluator, the replayer and the Go toolchain")


def checked(*lists):
    """the same jobs replayed by a driver whose pointer arithmetic is checked"""
    return [dict(j, name=j["module"] + "-" + j["name"], build="checkptr") for l in lists for j in l]


MEM_RULE = ("random behaviours of spec/ring.qnt, basis.qnt, ckks.qnt, encoder.qnt, rlwe.qnt and fast.qnt at the smallest degrees (16 and up), where every block of an unrolled "
            "loop ends at the end of its slice; replayed by a driver built with the compiler's pointer checks, which stop at the first pointer conversion that reaches beyond "
            "the memory it was made from; a case is one call; distinct = different (operation, registers, arguments)")
BOUNDS = ("every conversion to a block pointer in the code is checked at run time against the allocation it was made from, along the behaviours generated by the specifications; assurance is that "
          "of the explored behaviours (random, seeded), at the degrees where blocks and slices end together; an access that stays within the same allocation is not seen")
RLWE_RULE = ("random behaviours of spec/rlwe.qnt over registers of ciphertexts (degree 1 to 3, three rings, every level, NTT and coefficient form) and plaintexts; the secrets "
             "are chosen by the specification; messages of six classes including the edges of the modulus; a case is one call; distinct = different (operation, registers, key, "
             "levels, variant of the API); loads are trivial and not counted")
BASIS_RULE = ("random behaviours of spec/basis.qnt over registers of polynomials modulo Q and P (7 bases, up to 13+5 primes of mixed sizes): integers of nine classes, "
              "among them integers next to multiples of prefixes of P and of Q; every level pair, digit and aliasing, reduced and lazy words; a case is one call; distinct = "
              "different (operation, registers, levels); loads are trivial and not counted")
FAST_RULE = ("random behaviours of spec/fast.qnt over registers of ciphertexts and plaintexts at seven parameter sets (1 to 4 auxiliary primes, blocks of 1 to 9 moduli, up to 24 "
             "levels): messages, encryption and decryption, products, rotations, key switches into new receivers and into every register, polynomials with extreme residues; a case is one "
             "call; distinct = different (operation, registers, key, levels); loads are trivial and not counted")
NUM_RULE = ("random behaviours of spec/numbers.qnt: primes of every size from 20 to 61 bits for root orders 2^5 to 2^17, the neighbours of those primes, chains of moduli from lists of "
            "sizes (valid, invalid and colliding), pseudoprimes, roots, and words at the edges of each modulus through every reduction and helper; a case is one call; distinct = different "
            "(operation, arguments)")
PARAM_RULE = ("random behaviours of spec/params.qnt: descriptions with moduli or with sizes, two thirds of them meant to be valid and the others broken in one of eight ways; constructors "
              "with and without defaults, variants that differ in one field, binary and JSON encodings, cut encodings, copies, comparisons, the enclosing standard ring, fast parameters, the "
              "twenty advertised sets, rings on their own; a case is one call; distinct = different (operation, description or set)")
PARAMS = ("acceptance, every accessor and every comparison are compared with the specification's definitions (primality by Miller-Rabin in the specification); assurance is that of the explored "
          "behaviours (random, seeded); trusted: Quint's evaluator, the replayer and the Go toolchain")
PHASE = ("every call is compared with the exact integer phase c0+c1 s+... computed by schoolbook products, against the message and the error bound the specification derives from the "
         "scheme's definition; error distributions are checked by their standard deviation over thousands of samples; assurance is that of the explored behaviours (random, seeded) at ring "
         "degrees 16 to 64; trusted: Quint's evaluator, the replayer's projection, the ring's NTT (decided by R01) and the Go toolchain")

EXACT = ("every call of the generated behaviours is compared word for word with exact integer arithmetic in the specification; assurance is "
         "that of the explored behaviours (random, seeded), at small and lifted ring degrees; trusted: Quint's evaluator, the replayer's "
         "projection and the Go toolchain")

REFUSE_RULE = ("random behaviours of spec/ckks.qnt (eleven kinds of impossible request between possible ones, over ciphertexts of every degree, level and representation), "
               "encoder.qnt (five kinds), fast.qnt (six kinds) and refuse.qnt (five sets of parameters with keys, encryptors and decryptors; every request classified as possible or "
               "not); a case is one request; distinct = different (operation, reason, operands and their shapes)")
CKKS_RULE = ("random behaviours of spec/ckks.qnt over registers of ciphertexts (degree 1 and 2, several levels, scales and keys) and plaintexts, "
             "every aliasing of operands and receiver; a case is one call on the code; distinct = different (operation, registers, constants, "
             "and the degree, level and scale of the operands); loads are trivial and not counted")
SLOTS = ("every call of the generated behaviours is compared with exact vector arithmetic on the slots in the specification, within the error "
         "bound the specification accumulates from the scheme's noise; decoding is done by the replayer with integer arithmetic and the definition of the canonical "
         "embedding, not by the code; assurance is that of the explored behaviours (random, seeded) at small degrees; trusted: Quint's evaluator, "
         "the replayer's projection and the Go toolchain")

ENC_RULE = ("random behaviours of spec/encoder.qnt over a register file of plaintexts: value vectors of eight classes (zero, small, large, the constants that hit 2^64, "
            "unit vectors, half units, integers), all slot counts, levels, scales, raw polynomials with coefficients at the edges of the modulus, NTT and coefficient "
            "form, a shallow copy of the encoder used in turn; a case is one call; distinct = different (operation, values, slots, level, scale)")
SLOTS_ENC = ("every call is compared with the canonical embedding written from its definition in the specification (160-bit fixed point), within the "
             "rounding the scale implies and the relative precision of the arithmetic used; assurance is that of the explored behaviours (random, seeded) at ring "
             "degrees 16 and 64; trusted: Quint's evaluator, the replayer's CRT projection, the ring's inverse NTT (decided by R01) and the Go toolchain")

PROPS = {
    "C01": dict(level="exploration", note=SLOTS, rule=CKKS_RULE, jobs=ckks_jobs("mixC01", 120, 40)),
    "C02": dict(level="exploration", note=SLOTS, rule=CKKS_RULE, jobs=ckks_jobs("mixC02", 120, 40)),
    "C03": dict(level="exploration", note=SLOTS, rule=CKKS_RULE, jobs=ckks_jobs("mixC03", 100, 30)),
    "C04": dict(level="exploration", note=SLOTS, rule=CKKS_RULE, jobs=ckks_jobs("mixC04", 100, 30)),
    "E01": dict(level="exploration", note=SLOTS, rule=REFUSE_RULE, jobs=
        ckks_jobs("mixE01", 60, 40, sparse=False) + encoder_jobs(40, 30, "mixE01") + refuse_jobs(60, 30) +
        [dict(j, name="fast-" + j["name"]) for j in fast_jobs("mixE01", 24, 24, only=["a1g1", "a2g3", "a3g2"])]),
    "C05": dict(level="exploration", note=SLOTS_ENC, rule=ENC_RULE, jobs=encoder_jobs(240, 30)),
    "C06": dict(level="exploration", note=PHASE, rule=RLWE_RULE, jobs=rlwe_jobs("mixC06", 120, 30, rings=False)),
    "K01": dict(level="exploration", note=PHASE, rule=RLWE_RULE, jobs=rlwe_jobs("mixK01", 120, 30, nop=False, rings=False)),
    "K02": dict(level="exploration", note=PHASE, rule=RLWE_RULE, jobs=rlwe_jobs("mixK02", 60, 20, nop="mixK02NoP", rings="mixK02C") + fast_jobs("mixK02", 16, 10)),
    "K03": dict(level="exploration", note=PHASE, rule=RLWE_RULE, jobs=rlwe_jobs("mixK03", 360, 30, nop=False, rings="mixK03", only=["std64rings", "std64x512rings"])),
    "F01": dict(level="exploration", note=PHASE, rule=FAST_RULE, jobs=fast_jobs("mixF01", 60, 30)),
    "F02": dict(level="exploration", note=PHASE, rule=FAST_RULE, jobs=fast_jobs("mixF02", 40, 20)),
    "M01": dict(level="exploration", note=BOUNDS, rule=MEM_RULE, jobs=checked(
        ring_jobs("mixR02", 24, 60, big=False), ring_jobs("mixR01", 12, 40, big=False), ring_jobs("mixR03", 12, 40, big=False), basis_jobs("mixR04", 32, 40), basis_jobs("mixQP", 12, 40, only=["q5p2", "ci4p2"]),
        ckks_jobs("mixC01", 16, 40), ckks_jobs("mixC04", 16, 40), encoder_jobs(32, 30),
        rlwe_jobs("mixC06", 16, 30, rings=False), rlwe_jobs("mixK01", 16, 30, nop=False, rings=False), rlwe_jobs("mixK03", 48, 30, nop=False, rings="mixK03", only=["std64rings", "std64x512rings"]),
        fast_jobs("mixF01", 16, 30))),
    "P01": dict(level="exploration", note=PARAMS, rule=PARAM_RULE, jobs=param_jobs(200, 40)),
    "R01": dict(level="exploration", note=EXACT, rule=RING_RULE, jobs=ring_jobs("mixR01", 60, 30) + basis_jobs("mixQP", 40, 30, only=["q5p2", "ci4p2"])),
    "R02": dict(level="exploration", note=EXACT, rule=RING_RULE, jobs=ring_jobs("mixR02", 120, 40) + basis_jobs("mixQP", 60, 40, only=["q4p1", "q7p3", "ci4p2"])),
    "R03": dict(level="exploration", note=EXACT, rule=RING_RULE, jobs=ring_jobs("mixR03", 60, 30) + basis_jobs("mixQP", 40, 30, only=["q4p1", "ci4p2"])),
    "R04": dict(level="exploration", note=EXACT, rule=BASIS_RULE, jobs=basis_jobs("mixR04", 160, 40)),
    "R05": dict(level="exploration", note=EXACT, rule=RING_RULE, jobs=ring_jobs("mixR05", 60, 30, ci=True) + basis_jobs("mixR05T", 60, 30, only=["q4p1", "q5p2", "q7p3"])),
    "R06": dict(level="exploration", note=SAMPLER, rule=SAMPLER_RULE, jobs=sampler_jobs(160, 60)),
    "R07": dict(level="exploration", note=EXACT, rule=NUM_RULE, jobs=number_jobs(200, 40)),
    "T01": dict(level="exploration", note=THREAD, rule=THREAD_RULE, jobs=thread_jobs(60, 90)),
    "S01": dict(level="exploration", note=SERIAL, rule=SERIAL_RULE, jobs=serial_jobs(1000, 60)),
}


NOT_APPLICABLE = {}
