// The CKKS evaluator (package ckks) on slot vectors.
//
// State: a register file of ciphertexts (0..NC-1) and plaintexts (NC..NC+NP-1).
// A register is what a user may rely on: degree, level, scale, slot values, key,
// and a bound on the error the scheme has put into the slots so far.
//   values   fixed point, 2^-60
//   scale    fixed point, 2^-64 (scales are at least 1)
//   err      bound on |decoded - value| per slot, fixed point 2^-60
//   b        0: words are reduced;  k>0: words may be as large as k*q (after an
//            addition without reduction)
// `act` is the call made; `fail` says that it must report an error and change nothing.
module ckks {
  import lib.* from "./lib"

  const N: int              // ring degree
  const CI: bool            // conjugate-invariant ring
  const QS: List[int]       // ciphertext moduli
  const PS: List[int]       // auxiliary moduli
  const LOGSCALE: int       // default scale 2^LOGSCALE
  const LOGSLOTS: int
  const NC: int
  const NP: int
  const ROTS: List[int]     // rotations with a key

  type Ct = { deg: int, lvl: int, sc: int, re: List[int], im: List[int], err: int, b: int, key: int }
  type Act = { op: str, x: int, y: int, z: int, new: bool, k: int, kind: int, cr: int, ci: int, sc: int, fail: bool, ks: List[int], bad: int }

  var regs: List[Ct]
  var act: Act

  pure val L = length(QS)
  pure val SLOTS = pow2(LOGSLOTS)
  pure val ONE = pow2(60)       // 1.0 as a slot value
  pure val UNIT = pow2(64)      // 1.0 as a scale
  pure val DEFSC = UNIT * pow2(LOGSCALE)
  pure val NN = if (CI) 2 * N else N
  pure val MAXB = 6

  pure def qTo(lvl: int): int = prodTo(QS, lvl + 1)

  // ---------------------------------------------------------------- errors
  // a polynomial error with coefficients at most e, seen in the slots of a ciphertext of scale sc
  pure def inSlots(e: int, sc: int): int = (NN * e * ONE * UNIT) / sc + 2
  // encrypting (the driver's own encryption: error at most 8, rounding of the message)
  pure val EFRESH = 10
  // rounding every polynomial of a ciphertext of degree d
  pure def eRound(d: int): int = 1 + (if (d >= 1) NN else 0) + (if (d >= 2) NN * NN else 0)
  // key switching at a level: the digits times the key errors, divided by P, plus rounding
  pure val SIGMA6 = 20
  pure val PALL = prod(PS)
  pure def digitSum(lvl: int): int = {
    val st = range(0, lvl + 1).foldl({ s: 0, d: 1 }, (st, i) => {
      val d = st.d * QS[i]
      if ((i + 1) % length(PS) == 0 or i == lvl) { s: st.s + d, d: 1 } else { s: st.s, d: d } })
    st.s }
  pure def eSwitch(lvl: int): int = {
    (2 * digitSum(lvl) * NN * SIGMA6) / PALL + 2 * eRound(1) + 2 * (lvl + 2)
  }

  pure def maxV(c: Ct): int = maxi(maxAbs(c.re), maxAbs(c.im))
  // does the message fit the modulus with room to spare?
  pure def fits(c: Ct): bool =
    c.sc >= UNIT * 1024 and ((8 * (maxV(c) + c.err) * c.sc) / ONE) / UNIT < qTo(c.lvl) and
    // and is the error still smaller than the values a user would look at?
    c.err < ONE / 64 and maxV(c) < ONE * pow2(24)

  // ---------------------------------------------------------------- values
  // classes: 0 zero, 1 random in [-1,1], 2 random in [-8,8], 3 real, 4 constant one, 5 unit vector, 6 small integers
  pure def datum(class: int, r: int, j: int): int =
    if (class == 0) 0
    else if (class == 1) ((r % 2097153) - 1048576) * pow2(40)
    else if (class == 2) ((r % 2097153) - 1048576) * pow2(43)
    else if (class == 3) ((r % 2097153) - 1048576) * pow2(41)
    else if (class == 4) ONE
    else if (class == 5) (if (j == r % 2) ONE else 0)
    else (r % 9 - 4) * ONE
  pure def mkVals(class: int, seed: int, imag: bool): List[int] = {
    val r = rngList(seed + (if (imag) 77 else 0), SLOTS)
    range(0, SLOTS).foldl([], (l, j) => l.append(
      if (imag and (CI or class == 3 or class == 4 or class == 5)) 0
      else datum(class, if (class == 5) r[0] else r[j], j))) }
  pure def fresh(deg: int, lvl: int, sc: int, class: int, seed: int, key: int): Ct =
    { deg: deg, lvl: lvl, sc: sc, re: mkVals(class, seed, false), im: mkVals(class, seed, true),
      err: if (deg == 0) inSlots(1, sc) else inSlots(EFRESH * maxi(1, deg), sc), b: 0, key: key }

  pure def cmulRe(ar: List[int], ai: List[int], br: List[int], bi: List[int]): List[int] =
    range(0, SLOTS).foldl([], (l, j) => l.append(fdiv(ar[j] * br[j] - ai[j] * bi[j], ONE)))
  pure def cmulIm(ar: List[int], ai: List[int], br: List[int], bi: List[int]): List[int] =
    range(0, SLOTS).foldl([], (l, j) => l.append(fdiv(ar[j] * bi[j] + ai[j] * br[j], ONE)))
  pure def addL(a: List[int], b: List[int], s: int): List[int] =
    range(0, SLOTS).foldl([], (l, j) => l.append(a[j] + s * b[j]))
  pure def mulC(a: List[int], c: int): List[int] = range(0, SLOTS).foldl([], (l, j) => l.append(fdiv(a[j] * c, ONE)))
  pure def addC(a: List[int], c: int): List[int] = range(0, SLOTS).foldl([], (l, j) => l.append(a[j] + c))
  pure def negL(a: List[int]): List[int] = range(0, SLOTS).foldl([], (l, j) => l.append(-a[j]))
  pure def rotL(a: List[int], k: int): List[int] = range(0, SLOTS).foldl([], (l, j) => l.append(a[modp(j + k, SLOTS)]))

  // ------------------------------------------------------- matching scales
  // Bringing a value of scale lo to a scale hi >= lo by an integer factor: the error made, per unit
  // of value (2^-60), or -1 when the two scales are not in the ratio of an integer (nearly enough).
  pure def isPow2(x: int): bool = bitsOf(x / UNIT).foldl(0, (a, b) => a + b) == 1 and x % UNIT == 0
  pure def floorRatio(hi: int, lo: int): int = { val r = hi / lo  if (r <= 1) 1 else r }
  pure def matchErr(hi: int, lo: int): int =
    if (hi == lo) 0
    else {
      val k = floorRatio(hi, lo)
      val exact = hi % lo == 0 and isPow2(lo) and isPow2(hi)
      // relative error of using k for hi/lo
      val rel = if (hi >= k * lo) ((hi - k * lo) * ONE) / hi + 1 else ((k * lo - hi) * ONE) / hi + 1
      if (exact and k < pow2(62)) 0
      else if (k == 1 and rel < ONE / pow2(20)) rel + ONE / pow2(45)
      else if (k > pow2(16) and k < pow2(62)) rel + (2 * ONE) / k
      else -1
    }
  pure def hiOf(a: Ct, b: Ct): int = maxi(a.sc, b.sc)
  // error of matching both a and b to the larger scale; -1 when impossible
  pure def bothErr(a: Ct, b: Ct): int = {
    val ea = matchErr(hiOf(a, b), a.sc)
    val eb = matchErr(hiOf(a, b), b.sc)
    if (ea < 0 or eb < 0) -1 else fdiv(maxV(a) * ea, ONE) + fdiv(maxV(b) * eb, ONE) + 2
  }

  // ---------------------------------------------------------------- constants
  pure def isInt(c: int): bool = modp(c, ONE) == 0
  // Gaussian-integer constants need no scaling, the others are scaled by the modulus of the level
  pure def constInt(a: Act): bool = isInt(a.cr) and isInt(a.ci)
  pure def constScale(a: Act, lvl: int): int = if (constInt(a)) 1 else QS[lvl]

  pure def applyConst(c: Ct, a: Act): Ct = {
    c.with("re", addL(mulC(c.re, a.cr), mulC(c.im, a.ci), -1)).with("im", addL(mulC(c.im, a.cr), mulC(c.re, a.ci), 1))
     .with("err", fdiv(c.err * (absi(a.cr) + absi(a.ci)), ONE) + 2)
  }

  // ------------------------------------------------------------- rescaling
  // how many primes are removed: as long as the scale stays at least half the wanted one and the level above 0
  type Resc = { n: int, sc: int, go: bool }
  pure def nbRescale(sc: int, lvl: int, want: int): Resc =
    range(0, lvl).foldl({ n: 0, sc: sc, go: true }, (st, i) => {
      val q = QS[lvl - st.n]
      if (st.go and 2 * st.sc >= want * q) { n: st.n + 1, sc: st.sc / q, go: true } else st.with("go", false) })
  // is some comparison of the loop too close to call in floating point?
  pure def closeCall(sc: int, lvl: int, want: int): bool = {
    val st = range(0, lvl).foldl({ sc: sc, go: true, close: false }, (st, i) => {
      val q = QS[lvl - i]
      val d = absi(2 * st.sc - want * q)
      if (not(st.go)) st
      else { sc: st.sc / q, go: 2 * st.sc >= want * q,
             close: st.close or (2 * st.sc != want * q and d * pow2(30) < want * q) or (2 * st.sc >= want * q and st.sc / q == 0) } })
    st.close }

  // ------------------------------------------------------------- semantics
  pure def min3(a: int, b: int, c: int): int = mini(mini(a, b), c)
  // result of a call whose receiver is z (or a new ciphertext); `none` when the call is outside its preconditions
  type Res = { ok: bool, c: Ct }
  pure def no(c: Ct): Res = { ok: false, c: c }
  pure def yes(c: Ct): Res = { ok: fits(c), c: c }

  pure def withErr(c: Ct, e: int): Ct = c.with("err", c.err + e)

  pure def semBin(a: Act, x: Ct, y: Ct, z: Ct): Res = {
    val lvl = if (a.new) mini(x.lvl, y.lvl) else min3(x.lvl, y.lvl, z.lvl)
    val deg = maxi(x.deg, y.deg)
    val e = bothErr(x, y)
    val s = if (a.op == "Add" or a.op == "AddNoMod") 1 else -1
    val lazy = a.op == "AddNoMod" or a.op == "SubNoMod"
    val nb = if (a.op == "AddNoMod") maxi(x.b, 1) + maxi(y.b, 1) else if (a.op == "SubNoMod") maxi(x.b, 1) + 1 else 0
    if (x.deg + y.deg == 0 or e < 0 or (not(a.new) and z.deg < deg) or (x.key != y.key and x.deg > 0 and y.deg > 0)
        or (not(lazy) and x.b + y.b > 0) or (a.op == "SubNoMod" and y.b > 0) or nb > MAXB) no(z)
    else yes({ deg: deg, lvl: lvl, sc: hiOf(x, y), re: addL(x.re, y.re, s), im: addL(x.im, y.im, s),
               err: x.err + y.err + e, b: nb, key: if (x.deg > 0) x.key else y.key })
  }

  pure def semUn(a: Act, x: Ct, z: Ct): Res = {
    val lvl = if (a.new) x.lvl else mini(x.lvl, z.lvl)
    val o = x.with("lvl", lvl)
    val q = QS[lvl]
    if (x.deg == 0) no(z)
    else if (a.op == "Reduce") (if (not(a.new) and z.deg != x.deg) no(z) else yes(o.with("b", 0)))
    else if (x.b > 0 or (not(a.new) and z.b < 0)) no(z)
    else if (a.op == "Neg") (if (not(a.new) and z.deg != x.deg) no(z) else yes(o.with("re", negL(x.re)).with("im", negL(x.im))))
    else if (a.op == "AddConst") yes(withErr(o.with("re", addC(x.re, a.cr)).with("im", addC(x.im, a.ci)), inSlots(1, x.sc) + absi(a.cr) / pow2(45) + absi(a.ci) / pow2(45)))
    else if (a.op == "MultByConst") {
      val f = constScale(a, lvl)
      yes(withErr(applyConst(o, a).with("sc", x.sc * f), if (f == 1) 0 else (4 * maxV(x)) / f + fdiv(maxV(x) * (absi(a.cr) + absi(a.ci)), ONE) / pow2(48) + 1))
    }
    else if (a.op == "MultByGaussianInteger") yes(applyConst(o, a))
    else if (a.op == "MultByi") yes(o.with("re", negL(x.im)).with("im", x.re))
    else if (a.op == "DivByi") yes(o.with("re", x.im).with("im", negL(x.re)))
    else if (a.op == "MulByPow2") yes(o.with("re", mulC(x.re, ONE * pow2(a.k))).with("im", mulC(x.im, ONE * pow2(a.k))).with("err", x.err * pow2(a.k)))
    else if (a.op == "ScaleUp") yes(o.with("sc", x.sc * pow2(a.k)).with("err", x.err))
    else if (a.op == "Relinearize") (if (x.deg != 2) no(z) else yes(withErr(o.with("deg", 1), inSlots(eSwitch(lvl), x.sc))))
    else if (a.op == "SwitchKeys") (if (x.deg != 1 or (not(a.new) and z.deg != 1)) no(z)
      else yes(withErr(o.with("key", 1 - x.key), inSlots(eSwitch(lvl), x.sc))))
    else if (a.op == "Rotate") (if (x.deg != 1 or (not(a.new) and z.deg != 1)) no(z)
      else yes(withErr(o.with("re", rotL(x.re, a.k)).with("im", rotL(x.im, a.k)), if (a.k == 0) 0 else inSlots(eSwitch(lvl), x.sc))))
    else if (a.op == "Conjugate") (if (x.deg != 1 or (not(a.new) and z.deg != 1)) no(z)
      else yes(withErr(o.with("im", negL(x.im)), inSlots(eSwitch(lvl), x.sc))))
    else no(z)
  }

  pure def semMul(a: Act, x: Ct, y: Ct, z: Ct): Res = {
    val relin = a.op == "MulRelin"
    val lvl = if (a.new) mini(x.lvl, y.lvl) else min3(x.lvl, y.lvl, z.lvl)
    val ct2 = x.deg + y.deg == 2
    val sc = (x.sc * y.sc) / UNIT
    if (x.deg > 1 or y.deg > 1 or x.deg + y.deg == 0 or x.b + y.b > 0 or (ct2 and x.key != y.key)) no(z)
    else yes({ deg: if (ct2 and not(relin)) 2 else 1, lvl: lvl, sc: sc,
      re: cmulRe(x.re, x.im, y.re, y.im), im: cmulIm(x.re, x.im, y.re, y.im),
      err: fdiv(2 * (maxV(x) * y.err + maxV(y) * x.err + x.err * y.err), ONE) + 4 + (if (ct2 and relin) inSlots(eSwitch(lvl), sc) else 0),
      b: 0, key: if (x.deg > 0) x.key else y.key })
  }

  // z += x * y
  pure def semMulAdd(a: Act, x: Ct, y: Ct, z: Ct): Res = {
    val relin = a.op == "MulRelinAndAdd"
    val m = semMul(a.with("op", if (relin) "MulRelin" else "Mul").with("new", false), x, y, z).c
    val ok = semMul(a.with("op", if (relin) "MulRelin" else "Mul").with("new", false), x, y, z).ok
    val e = matchErr(m.sc, z.sc)
    if (not(ok) or z.b > 0 or z.key != m.key or z.sc > m.sc or e < 0 or z.deg < 1) no(z)
    else yes({ deg: maxi(z.deg, m.deg), lvl: m.lvl, sc: m.sc, re: addL(m.re, z.re, 1), im: addL(m.im, z.im, 1),
      err: m.err + z.err + fdiv(maxV(z) * e, ONE) + 2, b: 0, key: m.key })
  }

  // z += x * constant
  pure def semConstAdd(a: Act, x: Ct, z: Ct): Res = {
    val lvl = mini(x.lvl, z.lvl)
    val m0 = applyConst(x.with("lvl", lvl), a)
    if (x.deg < 1 or x.b + z.b > 0 or x.key != z.key or z.deg < x.deg) no(z)
    else if (a.op == "MultByGaussianIntegerAndAdd") {
      // the scales must agree
      if (x.sc != z.sc) no(z)
      else yes(z.with("lvl", lvl).with("re", addL(z.re, m0.re, 1)).with("im", addL(z.im, m0.im, 1)).with("err", z.err + m0.err))
    } else {
      val f = constScale(a, lvl)
      val want = x.sc * f
      if (z.sc <= want) {
        val e = matchErr(want, z.sc)
        if (e < 0) no(z)
        else yes(z.with("lvl", lvl).with("sc", want).with("re", addL(z.re, m0.re, 1)).with("im", addL(z.im, m0.im, 1))
          .with("err", z.err + m0.err + fdiv(maxV(z) * e, ONE) + (if (f == 1) 0 else (4 * maxV(x)) / f + maxV(m0) / pow2(45) + 1) + 2))
      } else {
        // the constant is scaled by the ratio
        val r = z.sc / x.sc
        val exact = constInt(a) and isPow2(z.sc) and isPow2(x.sc)
        if (not(exact) and r < pow2(20)) no(z)
        else yes(z.with("lvl", lvl).with("re", addL(z.re, m0.re, 1)).with("im", addL(z.im, m0.im, 1))
          .with("err", z.err + m0.err + (if (exact) 0 else (4 * maxV(x)) / r + maxV(m0) / pow2(45)) + 2))
      }
    }
  }

  pure def semRescale(a: Act, x: Ct, z: Ct): Res = {
    val n = nbRescale(x.sc, x.lvl, a.sc)
    if (x.b > 0 or x.deg == 0 or (not(a.new) and (x.deg != z.deg or x.lvl != z.lvl)) or closeCall(x.sc, x.lvl, a.sc) or n.sc < 1) no(z)
    else yes(withErr(x.with("lvl", x.lvl - n.n).with("sc", n.sc), if (n.n == 0) 0 else inSlots(eRound(x.deg), n.sc)))
  }
  // is the ratio too close to an integer, or too large, to tell in floating point?
  pure def nearInt(x: int, y: int): bool = x / y >= pow2(22) or (x % y) * pow2(30) <= y or (y - x % y) * pow2(30) <= y
  // the new scale a.sc; consumes a level unless the ratio is an integer
  pure def semSetScale(a: Act, z: Ct): Res = {
    val int2 = isPow2(a.sc) and isPow2(z.sc) and a.sc >= z.sc
    val f = if (int2) 1 else QS[z.lvl]
    val t = a.sc * f
    val n = nbRescale(t, z.lvl, a.sc)
    // error of the scaled ratio: one unit out of ratio * f
    val unitErr = if (int2) 0 else (ONE * z.sc) / (a.sc * f) + ONE / pow2(45)
    if (z.b > 0 or z.deg == 0 or z.lvl == 0 or closeCall(t, z.lvl, a.sc) or n.n != (if (int2) 0 else 1)
        or (int2 and a.sc / z.sc >= pow2(62)) or (not(int2) and nearInt(a.sc, z.sc)) or unitErr > ONE / 1024) no(z)
    else yes(withErr(z.with("lvl", z.lvl - n.n).with("sc", a.sc), fdiv(maxV(z) * unitErr, ONE) + (if (int2) 0 else inSlots(eRound(z.deg), a.sc))))
  }

  pure val BIN = Set("Add", "Sub", "AddNoMod", "SubNoMod")
  pure val CONSTS = Set("AddConst", "MultByConst", "MultByGaussianInteger")
  pure val ACC = Set("MulAndAdd", "MulRelinAndAdd")
  pure def sem(a: Act, x: Ct, y: Ct, z: Ct): Res =
    if (a.new and a.op.in(ACC)) no(z) else
    if (a.op.in(BIN)) semBin(a, x, y, z)
    else if (a.op == "Mul" or a.op == "MulRelin") semMul(a, x, y, z)
    else if (a.op == "MulAndAdd" or a.op == "MulRelinAndAdd") semMulAdd(a, x, y, z)
    else if (a.op == "MultByConstAndAdd" or a.op == "MultByGaussianIntegerAndAdd") semConstAdd(a, x, z)
    else if (a.op == "Rescale") semRescale(a, x, z)
    else if (a.op == "SetScale") semSetScale(a, z)
    else if (a.op == "DropLevel") (if (a.k > x.lvl or x.deg == 0 or (not(a.new) and a.x != a.z)) no(z) else yes(x.with("lvl", x.lvl - a.k)))
    else semUn(a, x, z)

  // ----------------------------------------------------------- transitions
  pure def mk(op: str, x: int, y: int, z: int, new: bool): Act =
    { op: op, x: x, y: y, z: z, new: new, k: 0, kind: 0, cr: 0, ci: 0, sc: 0, fail: false, ks: [], bad: -1 }
  pure val CTS = 0.to(NC - 1)
  pure val ALL = 0.to(NC + NP - 1)

  // scales of loaded values: the default, exact multiples of it, and one that is no power of two
  pure def scaleOf(p: int, lvl: int): int =
    [DEFSC, DEFSC, DEFSC, DEFSC, DEFSC * 16, DEFSC / 8, DEFSC * 3 + UNIT / 2, if (lvl > 0) QS[lvl] * UNIT else DEFSC,
     DEFSC * QS[lvl], DEFSC * QS[lvl], DEFSC * QS[lvl] * (if (lvl > 1) QS[lvl - 1] else 1)][p % 11]

  action load(r: int, class: int, seed: int, lv: int, p: int): bool = {
    val lvl = lv % L
    val sc0 = scaleOf(p, lvl)
    val deg = if (r >= NC) 0 else if (p / 11 % 6 == 0) 2 else 1
    val key = p / 66 % 3 / 2
    val f0 = fresh(deg, lvl, sc0, class, seed, key)
    // at the lowest levels only small messages fit
    val f = if (fits(f0)) f0 else fresh(deg, L - 1, DEFSC, class, seed, key)
    all { regs' = regs.replaceAt(r, f), act' = mk("Load", r, r, r, false) }
  }
  action exec(a: Act, seed: int): bool = {
    val r = sem(a, regs[a.x], regs[a.y], regs[a.z])
    if (r.ok) all { regs' = regs.replaceAt(a.z, r.c), act' = a }
    else {
      // make room instead: reduce, rescale, switch to the common key, or load something new
      val z = regs[a.z]
      val lz = sem(mk("Reduce", a.x, a.x, a.x, false), regs[a.x], regs[a.x], regs[a.x])
      val rs = mk("Rescale", a.x, a.x, a.x, false).with("sc", DEFSC)
      val rr = sem(rs, regs[a.x], regs[a.x], regs[a.x])
      if (a.x < NC and regs[a.x].b > 0 and lz.ok) all { regs' = regs.replaceAt(a.x, lz.c), act' = mk("Reduce", a.x, a.x, a.x, false) }
      else if (a.x < NC and rr.ok and rr.c.lvl < regs[a.x].lvl) all { regs' = regs.replaceAt(a.x, rr.c), act' = rs }
      else load(if (seed % 3 == 0) a.x else a.z, seed % 7, seed, if (seed % 5 < 3) L - 1 else seed, seed / 7)
    }
  }
  action init = {
    nondet s = oneOf(0.to(1000000000))
    all {
      regs' = range(0, NC + NP).foldl([], (l, i) => l.append(fresh(if (i >= NC) 0 else 1, L - 1 - (if (i == NC - 1) 1 else 0), DEFSC, 1 + i % 3, s + 31 * i, 0))),
      act' = mk("Init", 0, 0, 0, false)
    }
  }
  // partners and receivers for which the call is within its preconditions
  pure def okYZ(rs: List[Ct], op: str, x: int): Set[(int, int, bool)] =
    tuples(ALL, CTS, Set(true, false)).filter(t => sem(mk(op, x, t._1, t._2, t._3), rs[x], rs[t._1], rs[t._2]).ok)
  action step2(op: str, x: int, s: int): bool = {
    val c = okYZ(regs, op, x)
    if (size(c) == 0) exec(mk(op, x, x, mini(x, NC - 1), false), s)
    else { nondet t = oneOf(c)  exec(mk(op, x, t._1, t._2, t._3), s) }
  }
  action stepBin(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(ALL)  nondet s = oneOf(0.to(1000000000))
    step2(op, x, s)
  }
  // a unary call with a receiver for which it is within its preconditions
  action step1(a: Act, s: int): bool = {
    val c = CTS.filter(z => sem(a.with("z", z), regs[a.x], regs[a.x], regs[z]).ok)
    if (size(c) == 0) exec(a.with("z", a.x), s)
    else { nondet z = oneOf(c)  exec(a.with("z", z), s) }
  }
  action stepUn(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(CTS)
    nondet new = oneOf(Set(true, false, false))  nondet s = oneOf(0.to(1000000000))  nondet k = oneOf(1.to(12))
    // a ring without imaginary unit
    val op2 = if (CI and op.in(Set("MultByi", "DivByi", "Conjugate"))) "Neg" else op
    step1(mk(op2, x, x, x, new).with("k", if (op2 == "MulByPow2" or op2 == "ScaleUp") k else 0)
      .with("kind", if (op2 == "SwitchKeys") regs[x].key else 0), s)
  }
  // relinearize a ciphertext of degree two, or make one
  action stepRelin: bool = {
    nondet x = oneOf(CTS)  nondet y = oneOf(CTS)  nondet new = oneOf(Set(true, false))  nondet s = oneOf(0.to(1000000000))
    val c = CTS.filter(r => regs[r].deg == 2 and regs[r].b == 0)
    if (size(c) > 0) { nondet r = oneOf(c)  step1(mk("Relinearize", r, r, r, new), s) }
    else if (sem(mk("Mul", x, y, y, true), regs[x], regs[y], regs[y]).ok) exec(mk("Mul", x, y, y, true), s)
    else exec(mk("Mul", x, x, y, true), s)
  }
  // constants: integers of several types, dyadic rationals, complex numbers
  action stepConst(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(CTS)
    nondet new = oneOf(Set(true, false, false))  nondet s = oneOf(0.to(1000000000))
    nondet kind = oneOf(0.to(4))  nondet e = oneOf(0.to(5))
    val r1 = rng(s)  val r2 = rng(s + 1)
    val ir = [0, 1, -1, 3, r1 % 17 - 8, r1 % 2000001 - 1000000][e] * ONE
    val ii = [1, 0, -1, 2, r2 % 17 - 8, r2 % 2000001 - 1000000][e] * ONE
    val fr = (r1 % 2097153 - 1048576) * pow2(if (e < 2) 40 else if (e < 4) 42 else 30)
    val fi = (r2 % 2097153 - 1048576) * pow2(if (e < 3) 40 else 38)
    val gauss = op.in(Set("MultByGaussianInteger", "MultByGaussianIntegerAndAdd"))
    // kind 0 float64, 1 complex128, 2 uint64, 3 int64, 4 int (for Gaussian integers: 2 uint64, 3 int64, otherwise big.Int)
    val c0 = if (gauss) (ir, ii) else if (kind == 0) (if (e % 2 == 0) fr else ir, 0)
      else if (kind == 1) (if (e % 3 == 0) ir else fr, if (e % 3 == 1) ii else fi) else (ir, 0)
    val cr = if (kind == 2) absi(c0._1) else c0._1
    val ci = if (CI) 0 else if (kind == 2) absi(c0._2) else c0._2
    step1(mk(op, x, x, x, if (op.in(CONSTS)) new and not(gauss) else false).with("kind", kind).with("cr", cr).with("ci", ci), s)
  }
  action stepMul(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(ALL)  nondet s = oneOf(0.to(1000000000))
    step2(op, x, s)
  }
  action stepRescale = {
    nondet x = oneOf(CTS)  nondet z = oneOf(CTS)  nondet p = oneOf(0.to(12))  nondet s = oneOf(0.to(1000000000))
    nondet same = oneOf(Set(true, true, false))  nondet new = oneOf(Set(true, false, false))
    val zz = if (same) x else z
    val want = if (p < 5) DEFSC else if (p == 5) DEFSC / pow2(10) else if (p == 6) DEFSC * 4 else if (p == 7) UNIT * 4096
      else if (p == 8) 0 else if (p == 9) -DEFSC else if (p == 10) regs[x].sc else regs[x].sc / pow2(30)
    val a = mk("Rescale", x, x, zz, new).with("sc", want)
    // errors: nothing changes; p = 12: a ciphertext whose scale was never set
    if (want <= 0 or regs[x].lvl == 0) all { regs' = regs, act' = a.with("fail", true).with("new", false) }
    else if (p == 12) all { regs' = regs, act' = mk("RescaleZeroScale", x, x, x, false).with("sc", DEFSC).with("fail", true) }
    else if (regs[x].deg != regs[zz].deg and not(new)) all { regs' = regs, act' = a.with("fail", true) }
    else if (same or new) exec(a, s)
    else step1(a, s)
  }
  action stepSetScale = {
    nondet z = oneOf(CTS)  nondet p = oneOf(0.to(5))  nondet s = oneOf(0.to(1000000000))
    val t = [DEFSC, DEFSC * 8, DEFSC * 3, DEFSC + DEFSC / 7, DEFSC / 4, DEFSC * pow2(20)][p]
    exec(mk("SetScale", z, z, z, false).with("sc", t), s)
  }
  action stepDrop = {
    nondet x = oneOf(CTS)  nondet z0 = oneOf(CTS)  nondet new = oneOf(Set(true, false))  nondet k = oneOf(0.to(L))
    nondet s = oneOf(0.to(1000000000))
    exec(mk("DropLevel", x, x, if (new) z0 else x, new).with("k", k % (regs[x].lvl + 1)), s)
  }
  action stepLoad = {
    nondet r = oneOf(ALL)  nondet class = oneOf(0.to(6))  nondet seed = oneOf(0.to(1000000000))
    nondet lv = oneOf(Set(L - 1, L - 1, L - 2, 1, 0))  nondet p = oneOf(0.to(11 * 6 * 3 - 1))
    load(r, class, seed, maxi(lv, 0), p)
  }
  action stepRot = {
    nondet x = oneOf(CTS)  nondet z = oneOf(CTS)  nondet new = oneOf(Set(true, false, false))
    nondet i = oneOf(0.to(length(ROTS)))  nondet s = oneOf(0.to(1000000000))  nondet conj = oneOf(Set(0, 0, 1))
    nondet same = oneOf(Set(true, false))
    val zz = if (same and not(new)) x else z
    if (conj == 1 and not(CI)) exec(mk("Conjugate", x, x, zz, new), s)
    else exec(mk("Rotate", x, x, zz, new).with("k", if (i == length(ROTS)) 0 else ROTS[i]), s)
  }
  // several rotations of one ciphertext through a shared decomposition: register a.z gets the last one;
  // the driver checks every one of them
  action stepHoist = {
    nondet x = oneOf(CTS)  nondet z = oneOf(CTS)  nondet i = oneOf(0.to(length(ROTS) - 1))  nondet j = oneOf(0.to(length(ROTS)))
    nondet s = oneOf(0.to(1000000000))  nondet down = oneOf(Set(true, false))
    val k1 = ROTS[i]
    val k2 = if (j == length(ROTS)) 0 else ROTS[j]
    val ks = if (down and k2 == 0) [k1] else [k1, k2]
    val last = ks[length(ks) - 1]
    // the receiver is a new ciphertext
    val r = semUn(mk("Rotate", x, x, z, true).with("k", last), regs[x], regs[z])
    if (r.ok) all { regs' = regs.replaceAt(z, r.c), act' = mk(if (down) "HoistNoModDown" else "Hoist", x, x, z, true).with("ks", ks) }
    else exec(mk("Rotate", x, x, z, true).with("k", last), s)
  }

  // ------------------------------------------------- requests that are refused
  // What makes a request impossible (`bad`): 0 the shapes of its operands alone; 1 the first, 2 the second
  // operand is not in the NTT domain; 3 the first, 4 the second operand is missing; 6 the evaluator has no
  // key for it; 7 there is no key for that rotation; 8 a constant of a type that is not accepted; 9 a scale
  // that is not positive; 10 more levels than there are; 11 a ciphertext without scale.
  pure val MULS = Set("Mul", "MulRelin", "MulAndAdd", "MulRelinAndAdd")
  pure val KONST = Set("AddConst", "MultByConst", "MultByConstAndAdd", "MultByGaussianInteger", "MultByGaussianIntegerAndAdd")
  pure val IMAG = Set("MultByi", "DivByi", "Conjugate")
  pure val PERIOD = if (CI) N else N / 2
  pure def hasKey(k: int): bool = range(0, length(ROTS)).foldl(false, (b, i) => b or modp(ROTS[i] - k, PERIOD) == 0)
  pure def noKeyFor(k: int): bool = modp(k, PERIOD) != 0 and not(hasKey(k))
  pure def impossible(a: Act, x: Ct, y: Ct, z: Ct): bool = {
    val mdeg = maxi(x.deg, y.deg)
    val notOne = x.deg != 1 or (not(a.new) and z.deg != 1)
    if (a.op.in(BIN) or a.op.in(MULS))
      a.bad.in(1.to(4)) or x.deg + y.deg == 0 or (not(a.new) and z.deg < mdeg) or (a.op.in(MULS) and mdeg > 1)
      or (a.bad == 6 and a.op.in(Set("MulRelin", "MulRelinAndAdd")) and x.deg + y.deg == 2)
    else if (a.op == "Neg" or a.op == "Reduce") not(a.new) and x.deg != z.deg
    else if (a.op == "MultByi" or a.op == "DivByi") CI
    else if (a.op == "Conjugate") CI or notOne or a.bad == 6
    else if (a.op == "Relinearize") x.deg != 2 or a.bad == 6
    else if (a.op == "SwitchKeys") notOne
    else if (a.op == "Rotate") notOne or ((a.bad == 6 or a.bad == 7) and noKeyFor(a.k))
    else if (a.op == "Hoist" or a.op == "HoistNoModDown") x.deg == 1 and noKeyFor(a.k)
    else if (a.op.in(KONST)) a.bad == 8
    else if (a.op == "SetScale") z.lvl == 0 or a.bad == 9
    else if (a.op == "DropLevel") a.bad == 10 and a.k > x.lvl + 1 and (a.new or a.x == a.z)
    else if (a.op == "Rescale") x.lvl == 0 or a.bad.in(Set(1, 9, 11)) or (not(a.new) and (x.deg != z.deg or x.lvl != z.lvl))
    else false
  }
  pure def reasons(op: str): Set[int] =
    if (op.in(BIN)) 0.to(4)
    else if (op == "Mul" or op == "MulAndAdd") 0.to(4)
    else if (op.in(MULS)) Set(0, 1, 2, 3, 4, 6)
    else if (op == "Conjugate" or op == "Relinearize") Set(0, 6)
    else if (op == "Rotate") Set(0, 6, 7)
    else if (op == "Hoist" or op == "HoistNoModDown") Set(7)
    else if (op.in(KONST)) Set(8)
    else if (op == "SetScale") Set(0, 9)
    else if (op == "DropLevel") Set(10)
    else if (op == "Rescale") Set(0, 1, 9, 11)
    else Set(0)
  // a refused request changes nothing
  action refuse(ops: Set[str]): bool = {
    nondet op = oneOf(ops)
    nondet bad = oneOf(reasons(op))
    nondet new0 = oneOf(Set(true, false))
    nondet j = oneOf(0.to(NN))
    nondet kind = oneOf(0.to(5))
    nondet s = oneOf(0.to(1000000000))
    val two = op.in(BIN) or op.in(MULS)
    val new = new0 and not(op.in(Set("MulAndAdd", "MulRelinAndAdd", "MultByConstAndAdd", "MultByGaussianInteger", "MultByGaussianIntegerAndAdd", "SetScale", "Reduce", "Hoist", "HoistNoModDown")))
    val a = mk(op, 0, 0, 0, new).with("bad", bad).with("kind", kind).with("fail", true)
      .with("k", if (op == "DropLevel") L + 1 + j % 3 else if (j % 2 == 0) j + 1 else -j - 1)
      .with("ks", if (op == "Hoist" or op == "HoistNoModDown") [if (j % 2 == 0) j + 1 else -j - 1] else [])
      .with("sc", if (bad == 9) (if (j % 2 == 0) 0 else -DEFSC) else DEFSC)
    val c = tuples(if (two) ALL else CTS, if (two) ALL else Set(0), CTS)
      .filter(t => impossible(a.with("x", t._1).with("z", t._3), regs[t._1], regs[t._2], regs[t._3]))
    if (size(c) == 0) load(s % NC, s % 7, s, if (s % 5 < 2) L - 1 else s, s / 7)
    else {
      nondet t = oneOf(c)
      all { regs' = regs, act' = a.with("x", t._1).with("y", if (two) t._2 else t._1).with("z", t._3) }
    }
  }

  pure val UNARY = Set("Neg", "Reduce", "MultByi", "DivByi", "MulByPow2", "ScaleUp")
  action mixC01 = any {
    stepBin(Set("Add", "Sub", "Add", "Sub")), stepBin(Set("AddNoMod", "SubNoMod")), stepUn(UNARY),
    stepUn(Set("SwitchKeys")), stepRelin, stepConst(CONSTS), stepConst(Set("MultByConstAndAdd", "MultByGaussianIntegerAndAdd")),
    stepMul(Set("Mul", "MulRelin")), stepMul(Set("Mul", "MulRelin")), stepMul(Set("MulAndAdd", "MulRelinAndAdd")),
    stepRescale, stepSetScale, stepDrop, stepLoad
  }
  action mixC02 = any { mixC01, mixC01, stepRescale, stepSetScale }
  action mixC03 = any { stepRot, stepRot, stepRot, stepHoist, stepHoist, stepLoad, stepBin(Set("Add", "Sub")), stepDrop, stepUn(Set("MultByi", "SwitchKeys")) }
  // the same operands again and again, changed in place in between
  action mixAgain = any { stepRot, stepRot, stepRot, stepRot, stepHoist, stepHoist, stepBin(Set("Add", "Sub")), stepBin(Set("Add", "Sub")), stepUn(Set("Neg", "MultByi", "SwitchKeys")), stepUn(Set("Neg", "MultByi")), stepLoad }
  action mixC04 = any { mixC01, mixC01, stepRot, stepHoist }
  action mixE01 = any {
    refuse(BIN), refuse(MULS), refuse(MULS), refuse(Set("Neg", "Reduce", "SwitchKeys", "Relinearize")), refuse(if (CI) IMAG else Set("Conjugate")),
    refuse(Set("Rotate", "Hoist", "HoistNoModDown")), refuse(KONST), refuse(Set("SetScale", "Rescale", "DropLevel")),
    stepLoad, stepLoad, mixC01, stepRot
  }
  action step = mixC01

  val wellFormed = ALL.forall(r => {
    val c = regs[r]
    c.lvl >= 0 and c.lvl < L and c.deg >= 0 and c.deg <= 2 and c.sc >= UNIT and length(c.re) == SLOTS and length(c.im) == SLOTS and
    c.b <= MAXB and c.err >= 0 and (r >= NC implies c.deg == 0) and (r < NC implies c.deg > 0) })
  // in the conjugate-invariant ring slots are real
  val realSlots = CI implies ALL.forall(r => regs[r].im.foldl(true, (a, x) => a and x == 0))
}
