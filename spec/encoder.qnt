// The CKKS encoders (package ckks) on polynomials with real coefficients.
//
// State: a register file of plaintexts. A register is the polynomial a plaintext stands for,
// before the rounding to integers, with a bound on how far the integers may be from it:
//   co       coefficients (already multiplied by the scale), fixed point 2^-60
//   tol      bound on |integer coefficient - co|, fixed point 2^-60
//   lvl, sc  level, scale (fixed point 2^-64)
//   ntt      representation
//   fit      the integers are smaller than half the modulus of the level, so decoding is defined
// `out` is what the last call returned: slots (re, im) or coefficients (re), fixed point 2^-60.
// The canonical embedding is written from its definition: slot j of a polynomial P is
// P(zeta^(5^j)) for the primitive root zeta = exp(2 i pi / M), M the order of the ring's NTT roots.
module encoder {
  import lib.* from "./lib"

  const N: int
  const CI: bool
  const QS: List[int]
  const PS: List[int]
  const SCALES: List[int]   // fixed point 2^-64
  const NP: int
  const COS: List[int]      // cos(2 pi k / M), fixed point 2^-CP
  const CP: int
  const POW5: List[int]     // 5^j mod M
  const BIGPREC: int        // precision of the arbitrary-precision encoder

  type Pt = { lvl: int, sc: int, co: List[int], tol: int, ntt: bool, fit: bool }
  type Out = { re: List[int], im: List[int], tol: int, lo: int, hi: int }
  type Act = { op: str, bad: int, len: int, x: int, new: bool, ls: int, re: List[int], im: List[int], kind: int, big: bool, mont: bool, qp: bool,
               sigma: int, lvl: int, sc: int, who: int, plvl: int }

  var regs: List[Pt]
  var act: Act
  var out: Out

  pure val L = length(QS)
  pure val M = if (CI) 4 * N else 2 * N
  pure val MAXLS = range(0, 20).foldl(0, (a, k) => if (pow2(k) == M / 4) k else a)
  pure val ONE = pow2(60)
  pure val UNIT = pow2(64)
  pure def qTo(lvl: int): int = prodTo(QS, lvl + 1)
  pure def cosv(k: int): int = COS[modp(k, M)]
  pure def sinv(k: int): int = COS[modp(k - M / 4, M)]

  // the tables are what they claim to be (checked on every generated behaviour)
  pure val tables = length(POW5) == M / 4 and length(COS) == M and POW5[0] == 1 and
    range(1, M / 4).foldl(true, (b, j) => b and POW5[j] == (5 * POW5[j - 1]) % M) and COS[0] == pow2(CP) and absi(COS[M / 4]) <= 2 and
    // cos(a+b) + cos(a-b) = 2 cos a cos b
    range(1, M - 1).foldl(true, (b, k) => b and absi((COS[k + 1] + COS[k - 1]) * pow2(CP) - 2 * COS[k] * COS[1]) <= pow2(CP + 4)) and
    2 * COS[1] * COS[1] > pow2(2 * CP)

  // -------------------------------------------------------------- embedding
  // coefficients of the polynomial in X^gap whose 2^ls slots are re + i im, times sc
  pure def encodeCo(re: List[int], im: List[int], ls: int, sc: int): List[int] = {
    val n = pow2(ls)
    val gap = (M / 4) / n
    val den = n * pow2(CP) * UNIT
    range(0, N).foldl([], (l, i) => l.append(
      if (i % gap != 0) 0
      else {
        val s = range(0, n).foldl(0, (a, j) => a + re[j] * cosv(i * POW5[j]) + (if (CI) 0 else im[j] * sinv(i * POW5[j])))
        fdiv(s * sc, den)
      })) }
  // the 2^ls slots of the coefficients at multiples of the gap
  pure def slotsRe(co: List[int], ls: int, sc: int): List[int] = {
    val n = pow2(ls)
    val gap = (M / 4) / n
    val den = pow2(CP) * sc
    range(0, n).foldl([], (l, j) => l.append({
      val s = range(0, N / gap).foldl(0, (a, k) => {
        val t = co[k * gap] * cosv(k * gap * POW5[j])
        if (CI and k > 0) a + 2 * t else a + t })
      fdiv(s * UNIT, den) })) }
  pure def slotsIm(co: List[int], ls: int, sc: int): List[int] = {
    val n = pow2(ls)
    val gap = (M / 4) / n
    val den = pow2(CP) * sc
    range(0, n).foldl([], (l, j) => l.append(
      if (CI) 0 else {
        val s = range(0, N / gap).foldl(0, (a, k) => a + co[k * gap] * sinv(k * gap * POW5[j]))
        fdiv(s * UNIT, den) })) }

  // -------------------------------------------------------------- errors
  // double precision: the transform of values of size v (fixed point), relative 2^-46
  pure def relTol(v: int, big: bool): int = if (big) v / pow2(BIGPREC - 12) + 16 else v / pow2(46) + 16
  pure def encTol(vmax: int, sc: int, big: bool): int = ONE / 2 + relTol((vmax * sc) / UNIT, big)
  pure def fitsQ(co: List[int], tol: int, lvl: int): bool = 2 * (maxAbs(co) / ONE + tol / ONE + 2) < qTo(lvl)
  // error of the slots for coefficients wrong by tol and computed with relative precision
  pure def decTol(p: Pt, ls: int, noise: int, big: bool): int = {
    val n = pow2(ls + 1)
    val a = (2 * n * (p.tol + noise * ONE) * UNIT) / p.sc
    val b = relTol((2 * n * (maxAbs(p.co) + noise * ONE) * UNIT) / p.sc, big)
    a + b + 4 }
  // bound of the flooding noise for standard deviation sigma (fixed point 2^-4): floor(sqrt(2 pi) sigma)
  pure def noiseB(sigma: int): int = (25066282746310002 * sigma) / (16 * 10000000000000000)

  pure def pad(v: List[int], n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(if (i < length(v)) v[i] else 0))

  // -------------------------------------------------------------- semantics
  pure def noOut: Out = { re: [], im: [], tol: 0, lo: 0, hi: 0 }
  pure def encoded(a: Act, lvl: int, sc: int): Pt = {
    val re = pad(a.re, pow2(a.ls))
    // real input, and the imaginary part is discarded in the conjugate-invariant ring
    val im = if (CI or a.kind == 1) pad([], pow2(a.ls)) else pad(a.im, pow2(a.ls))
    val co = encodeCo(re, im, a.ls, sc)
    val tol = encTol(maxAbs(re) + maxAbs(im), sc, a.big)
    { lvl: lvl, sc: sc, co: co, tol: tol, ntt: true, fit: fitsQ(co, tol, lvl) } }
  pure def encodedCoeffs(a: Act, lvl: int, sc: int): Pt = {
    val co = pad(range(0, length(a.re)).foldl([], (l, i) => l.append(fdiv(a.re[i] * sc, UNIT))), N)
    val tol = ONE / 2 + maxAbs(co) / pow2(51) + 16
    { lvl: lvl, sc: sc, co: co, tol: tol, ntt: true, fit: fitsQ(co, tol, lvl) } }
  pure def decoded(a: Act, p: Pt): Out =
    { re: slotsRe(p.co, a.ls, p.sc), im: slotsIm(p.co, a.ls, p.sc),
      tol: decTol(p, a.ls, if (a.sigma == 0) 0 else noiseB(a.sigma) + 1, a.big), lo: 0, hi: 0 }
  pure def decodedCoeffs(a: Act, p: Pt): Out =
    { re: range(0, N).foldl([], (l, i) => l.append(fdiv(p.co[i] * UNIT, p.sc))), im: [],
      tol: ((p.tol + (if (a.sigma == 0) 0 else noiseB(a.sigma)) * ONE) * UNIT) / p.sc + ((maxAbs(p.co) + ONE) * UNIT) / (p.sc * pow2(50)) + 4, lo: 0, hi: 0 }

  // -------------------------------------------------------------- values
  // exactly representable in double precision
  // 0 zero, 1 in [-1,1], 2 in [-2^20,2^20], 3 the constant that makes a coefficient 2^64, 4 unit vector,
  // 5 multiples of half the resolution, 6 large, 7 small integers
  pure def datum(class: int, r: int, j: int, sc: int): int =
    if (class == 0) 0
    else if (class == 1) ((r % 2097153) - 1048576) * pow2(40)
    else if (class == 2) ((r % 2097153) - 1048576) * pow2(60)
    else if (class == 3) (if (modp(pow2(188), sc) == 0) pow2(188) / sc else ONE) * (if (r % 3 == 0) -1 else 1)
    else if (class == 4) (if (j == r % 4) ONE else 0)
    else if (class == 5) fdiv(((r % 9) - 4) * pow2(123), sc)
    else if (class == 6) ((r % 2097153) - 1048576) * pow2(40 + r % 40)
    else (r % 9 - 4) * ONE
  // keep 50 significant bits, so that the value is a double
  pure def dbl(x: int): int = {
    val k = if (absi(x) < P50) 1 else range(0, 20).foldl(1, (d, i) => if (absi(x) / d >= P50) d * 1024 else d)
    if (x < 0) -((-x / k) * k) else (x / k) * k }
  pure val P50 = pow2(50)
  pure def vals(class: int, seed: int, n: int, sc: int): List[int] = {
    val r = rngList(seed, n)
    range(0, n).foldl([], (l, j) => l.append(dbl(datum(class, if (class == 3 or class == 4) r[0] else r[j], j, sc)))) }

  // raw integer polynomials for decoding: edges of the modulus, small, random
  pure def rawCo(class: int, seed: int, lvl: int): List[int] = {
    val r = rngList(seed, N)
    val h = (qTo(lvl) - 1) / 2
    range(0, N).foldl([], (l, j) => l.append(ONE * (
      if (class == 0) 0
      else if (class == 1) [h, -h, h - 1, 1 - h, 0, 1, -1][r[j] % 7]
      else if (class == 2) ((r[j] % 2097153) - 1048576)
      else if (class == 3) centered(r[j] * 1267650600228229401496703205361 + r[modp(j + 1, N)] * 340282366920938463463374607431768211297, qTo(lvl))
      else [0, 0, 0, h, 0, -h][r[j] % 6]))) }

  pure def mk(op: str, x: int): Act =
    { op: op, x: x, bad: 0, len: 0, new: false, ls: 0, re: [], im: [], kind: 0, big: false, mont: false, qp: false, sigma: 0, lvl: 0, sc: UNIT, who: 0, plvl: 0 }

  pure val REGS = 0.to(NP - 1)
  pure def blank(lvl: int, sc: int): Pt =
    { lvl: lvl, sc: sc, co: pad([], N), tol: 0, ntt: true, fit: true }

  action init = {
    nondet s = oneOf(0.to(1000000000))
    all {
      regs' = range(0, NP).foldl([], (l, i) => l.append(blank(L - 1 - (i % L), SCALES[(s + i) % length(SCALES)]))),
      act' = mk("Init", 0), out' = noOut
    }
  }
  pure val MAXBIGLS = if (CI) 0 else MAXLS

  action stepEncode = {
    nondet x = oneOf(REGS)  nondet new = oneOf(Set(true, false))  nondet ls0 = oneOf(0.to(MAXLS))  nondet full = oneOf(Set(0, 0, 1))
    nondet lv = oneOf(0.to(L - 1))  nondet si = oneOf(0.to(length(SCALES) - 1))  nondet c1 = oneOf(0.to(7))  nondet c2 = oneOf(0.to(7))
    nondet s = oneOf(0.to(1000000000))  nondet kind = oneOf(0.to(3))  nondet bg = oneOf(0.to(4))  nondet who = oneOf(0.to(1))
    val ls = if (full == 1) MAXLS else ls0
    val lvl = if (new) lv else regs[x].lvl
    val sc = if (new) SCALES[si] else regs[x].sc
    val big = bg == 0 and not(CI)
    // shorter vectors are padded with zeros (the arbitrary-precision encoder takes full vectors)
    val len = if (big or s % 3 > 0) pow2(ls) else 1 + s % pow2(ls)
    val a = mk(if (kind == 3) "EncodeSlots" else "Encode", x).with("new", new).with("ls", ls).with("re", vals(c1, s, len, sc))
      .with("im", vals(c2, s + 17, len, sc)).with("kind", if (big) 0 else kind % 2).with("big", big).with("lvl", lvl).with("sc", sc).with("who", who)
    all { regs' = regs.replaceAt(x, encoded(a, lvl, sc)), act' = a, out' = noOut }
  }
  action stepEncodeCoeffs = {
    nondet x = oneOf(REGS)  nondet new = oneOf(Set(true, false, false))
    nondet lv = oneOf(0.to(L - 1))  nondet si = oneOf(0.to(length(SCALES) - 1))  nondet c1 = oneOf(0.to(7))
    nondet s = oneOf(0.to(1000000000))  nondet len = oneOf(1.to(N))  nondet full = oneOf(Set(true, false))  nondet who = oneOf(0.to(1))
    val lvl = if (new) lv else regs[x].lvl
    val sc = if (new) SCALES[si] else regs[x].sc
    val a = mk("EncodeCoeffs", x).with("new", new).with("re", vals(c1, s, if (full) N else len, sc)).with("lvl", lvl).with("sc", sc).with("who", who)
    all { regs' = regs.replaceAt(x, encodedCoeffs(a, lvl, sc)), act' = a, out' = noOut }
  }
  // Embed: the polynomial is written on a ring.Poly or PolyQP given by the caller
  action stepEmbed = {
    nondet x = oneOf(REGS)  nondet ls = oneOf(0.to(MAXLS))  nondet si = oneOf(0.to(length(SCALES) - 1))
    nondet c1 = oneOf(0.to(7))  nondet c2 = oneOf(0.to(7))  nondet s = oneOf(0.to(1000000000))  nondet kind = oneOf(0.to(1))
    nondet mont = oneOf(Set(true, false))  nondet qp = oneOf(Set(true, false))  nondet lv = oneOf(0.to(L - 1))  nondet who = oneOf(0.to(1))
    nondet plv = oneOf(0.to(maxi(0, length(PS) - 1)))
    val len = if (s % 3 > 0) pow2(ls) else 1 + s % pow2(ls)
    val sc = SCALES[si]
    val a = mk("Embed", x).with("ls", ls).with("re", vals(c1, s, len, sc)).with("im", vals(c2, s + 17, len, sc)).with("kind", kind)
      .with("mont", mont).with("qp", qp and length(PS) > 0).with("lvl", lv).with("sc", sc).with("who", who).with("plvl", plv)
    val p = encoded(a, lv, sc)
    all { regs' = regs, act' = a, out' = { re: p.co, im: [], tol: p.tol, lo: 0, hi: 0 } }
  }
  action stepLoad = {
    nondet x = oneOf(REGS)  nondet lv = oneOf(0.to(L - 1))  nondet si = oneOf(0.to(length(SCALES) - 1))  nondet class = oneOf(0.to(4))
    nondet s = oneOf(0.to(1000000000))  nondet ntt = oneOf(Set(true, false))
    val co = rawCo(class, s, lv)
    all { regs' = regs.replaceAt(x, { lvl: lv, sc: SCALES[si], co: co, tol: 0, ntt: ntt, fit: true }), act' = mk("Load", x), out' = noOut }
  }
  action stepDecode = {
    nondet x0 = oneOf(REGS)  nondet ls0 = oneOf(0.to(MAXLS))  nondet full = oneOf(Set(true, false))  nondet sg = oneOf(0.to(5))  nondet bg = oneOf(0.to(3))
    nondet who = oneOf(0.to(1))  nondet co = oneOf(Set(true, false, false))  nondet s = oneOf(0.to(1000))
    val c = REGS.filter(r => regs[r].fit)
    val x = if (regs[x0].fit or size(c) == 0) x0 else c.fold(0, (a, r) => maxi(a, r))
    val ls = if (full) MAXLS else ls0
    // flooding needs room for the noise below half the modulus
    val sigma = if (sg < 3 or not(fitsQ(regs[x].co, regs[x].tol + 600 * ONE, regs[x].lvl))) 0 else [16, 51, 1600][sg - 3]
    val big = bg == 0 and not(CI) and not(co)
    val a = mk(if (co) "DecodeCoeffs" else if (s % 2 == 0) "Decode" else "DecodeSlots", x).with("ls", if (co) 0 else ls).with("sigma", sigma).with("big", big).with("who", who)
    if (not(regs[x].fit)) all { regs' = regs, act' = mk("Idle", x), out' = noOut }
    else all { regs' = regs, act' = a, out' = if (co) decodedCoeffs(a, regs[x]) else decoded(a, regs[x]) }
  }
  // the sum of two plaintexts is the plaintext of the sum of the values (levels and scales equal)
  action stepSum = {
    nondet x = oneOf(REGS)  nondet y = oneOf(REGS)  nondet z = oneOf(REGS)
    val p = regs[x]  val q = regs[y]
    val co = range(0, N).foldl([], (l, i) => l.append(p.co[i] + q.co[i]))
    if (p.lvl == q.lvl and p.sc == q.sc and p.ntt and q.ntt and p.fit and q.fit and fitsQ(co, p.tol + q.tol, p.lvl))
      all { regs' = regs.replaceAt(z, { lvl: p.lvl, sc: p.sc, co: co, tol: p.tol + q.tol, ntt: true, fit: true }),
            act' = mk("Sum", z).with("kind", x).with("who", y), out' = noOut }
    else all { regs' = regs, act' = mk("Idle", x), out' = noOut }
  }
  // the statistics of an error vector: n times the variance of its entries, as slots or as coefficients
  pure def varOf(v: List[int]): int = {
    val n = length(v)
    val m = sum(v)
    // n^2 variance = n sum v^2 - (sum v)^2
    n * range(0, n).foldl(0, (a, i) => a + v[i] * v[i]) - m * m }
  action stepStd = {
    nondet ls = oneOf(1.to(MAXLS))  nondet c1 = oneOf(Set(1, 2, 4, 7))  nondet c2 = oneOf(Set(0, 1, 2, 7))  nondet s = oneOf(0.to(1000000000))
    nondet slot = oneOf(Set(true, false))  nondet who = oneOf(0.to(1))
    val n = pow2(ls)
    val re = vals(c1, s, n, UNIT)
    val im = if (CI) pad([], n) else vals(c2, s + 3, n, UNIT)
    val gap = (M / 4) / n
    val all2 = if (slot) range(0, 2 * n).foldl([], (l, i) => l.append(if (i < n) re[i] else im[i - n]))
      else { val co = encodeCo(re, im, ls, UNIT)  range(0, 2 * n).foldl([], (l, k) => l.append(co[k * gap])) }
    val v = varOf(all2)
    // relative tolerance of the variance 2^-30
    if (CI and not(slot)) all { regs' = regs, act' = mk("Idle", 0), out' = noOut }
    else all { regs' = regs, act' = mk(if (slot) "StdSlot" else "StdCoeff", 0).with("ls", ls).with("re", re).with("im", im).with("who", who),
               out' = { re: [], im: [], tol: 0, lo: v - v / pow2(30) - pow2(100), hi: v + v / pow2(30) + pow2(100) } }
  }

  // Requests that are refused, and change nothing: 1 a number of slots there is not, 2 more values than slots (the
  // arbitrary-precision encoder takes full vectors: 3), 4 values or 5 a target of a type that is not accepted.
  action stepRefuse = {
    nondet x = oneOf(REGS)  nondet new = oneOf(Set(true, false))  nondet op0 = oneOf(Set("Encode", "EncodeSlots", "Embed", "EncodeCoeffs", "Decode", "DecodeSlots"))
    nondet bad0 = oneOf(1.to(5))  nondet ls0 = oneOf(0.to(MAXLS))  nondet d = oneOf(0.to(3))  nondet s = oneOf(0.to(1000000000))
    nondet kind = oneOf(0.to(1))  nondet bg = oneOf(Set(true, false, false))  nondet who = oneOf(0.to(1))  nondet qp = oneOf(Set(true, false))
    val decode = op0 == "Decode" or op0 == "DecodeSlots"
    val big = bg and not(CI) and (op0 == "Encode" or op0 == "Decode")
    val bad = if (decode) 1 else if (op0 == "EncodeCoeffs") 2
      else if (big) (if (bad0 > 3) 3 else bad0)
      else if (bad0 == 3) 2 else if (bad0 == 5 and op0 != "Embed") 4 else bad0
    val ls = if (bad == 1) (if (d == 0) -1 - (if (s % 2 == 0) 0 else s % 40) else MAXLS + d) else ls0
    val room = if (op0 == "EncodeCoeffs") N else if (ls >= 0 and ls <= MAXLS) pow2(ls) else 4
    val len = if (bad == 2) room + 1 + (if (d == 0) 0 else s % (2 * N)) else if (bad == 3) s % room
      else if (bad == 1 and ls >= 0) pow2(ls) else if (big) room else 1 + s % room
    val a = mk(op0, x).with("bad", bad).with("ls", ls).with("len", len).with("kind", kind).with("big", big).with("who", who)
      .with("new", new).with("qp", qp).with("lvl", s % L).with("sc", SCALES[0])
    all { regs' = regs, act' = a, out' = noOut }
  }
  action mixE01 = any { stepRefuse, stepRefuse, stepRefuse, stepLoad, stepEncode }
  action mixC05 = any { stepEncode, stepEncode, stepEncode, stepEncodeCoeffs, stepEncodeCoeffs, stepEmbed, stepLoad, stepDecode, stepDecode, stepDecode, stepDecode, stepSum, stepStd }
  action step = mixC05

  val tablesOk = act.op == "Init" implies tables
  val wellFormed = REGS.forall(r => {
    val p = regs[r]
    p.lvl >= 0 and p.lvl < L and length(p.co) == N and p.tol >= 0 and p.sc > 0 })
  // encoding then decoding with the same number of slots is the identity, up to the stated tolerance
  val roundTrip = (act.op == "Encode" and act.bad == 0 and not(act.new)) implies {
    val p = regs[act.x]
    val n = pow2(act.ls)
    val d = slotsRe(p.co, act.ls, p.sc)
    val re = pad(act.re, n)
    range(0, n).foldl(true, (b, j) => b and absi(d[j] - re[j]) <= maxAbs(re) / pow2(60) + maxAbs(act.im) / pow2(60) + (UNIT * 1024) / p.sc + 1024) }
}
