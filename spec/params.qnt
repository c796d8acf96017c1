// Parameter sets: which descriptions are accepted, what an accepted set reports, when two sets are equal, and
// that encodings and copies keep them.
module params {
  import lib.* from "./lib"
  import primes.* from "./primes"

  const WIDE: List[int]      // primes that are 1 modulo 2^18, of every size up to 61 bits
  const MANY: List[int]      // 102 further ones
  const NARROW: List[int]    // primes that are 1 modulo 2^6 only
  const BAD: List[int]       // words that cannot be a modulus: composites, other residues, more than 61 bits
  const SIZES: List[int]     // bit sizes asked for
  const DEFAULTS: List[{ logn: int, logqp: int, slots: int, ci: bool }]   // the advertised sets
  const NREG: int

  // sigma in tenths; slots is the logarithm of the number of slots
  type PSet = { logn: int, qs: List[int], ps: List[int], h: int, sg: int, ci: int, slots: int, sc: int }
  // a description; mode 0: field missing, 1: given
  type Lit = { logn: int, mq: int, qs: List[int], mp: int, ps: List[int], mlq: int, lqs: List[int], mlp: int, lps: List[int], h: int, sg: int, ci: int, slots: int, sc: int }
  type View = { n: int, ord: int, q: int, p: int, bq: int, bp: int, bqp: int, maxlevel: int, beta: int, maxslots: int, mq: List[int], mp: List[int], ql: List[int], bl: List[int],
                gal: List[{ k: int, g: int, inv: int }], row: List[int] }
  type Act = { op: str, x: int, z: int, k: int, lit: Lit, ok: bool, rlweOk: bool, eq: bool, eqr: bool, view: View, ts: List[int], gamma: int, ms: List[int] }
  var regs: List[PSet]
  var act: Act

  pure val REGS = 0.to(NREG - 1)
  pure val W = pow2(64)
  pure val NOVIEW: View = { n: 0, ord: 0, q: 0, p: 0, bq: 0, bp: 0, bqp: 0, maxlevel: 0, beta: 0, maxslots: 0, mq: [], mp: [], ql: [], bl: [], gal: [], row: [] }
  pure val NOLIT: Lit = { logn: 0, mq: 0, qs: [], mp: 0, ps: [], mlq: 0, lqs: [], mlp: 0, lps: [], h: 0, sg: 0, ci: 0, slots: 0, sc: 0 }
  pure def mk(op: str): Act = { op: op, x: 0, z: 0, k: 0, lit: NOLIT, ok: true, rlweOk: true, eq: false, eqr: false, view: NOVIEW, ts: [], gamma: 0, ms: [] }

  // ------------------------------------------------------------ which sets exist
  pure def order(logn: int, ci: int): int = pow2(logn + 1 + ci)
  pure def goodModulus(m: int, r: int): bool = m > 1 and m < pow2(61) and m % r == 1 and isPrime(m)
  pure def distinct(l: List[int]): bool = not(l.indices().exists(i => l.indices().exists(j => i != j and l[i] == l[j])))
  pure def goodRing(logn: int, ms: List[int], ci: int): bool = length(ms) > 0 and distinct(ms) and not(ms.indices().exists(i => not(goodModulus(ms[i], order(logn, ci)))))
  pure def valid(s: PSet): bool =
    if (s.logn < 4 or s.logn > 17 or s.ci > 1 or length(s.qs) > 100 or length(s.ps) > 100) false
    else goodRing(s.logn, s.qs.concat(s.ps), s.ci) and length(s.qs) > 0
  pure def maxSlots(s: PSet): int = if (s.ci == 1) s.logn else s.logn - 1
  pure def validCkks(s: PSet): bool = valid(s) and s.slots >= 0 and s.slots <= maxSlots(s)

  // the set a description stands for
  pure def describe(t: Lit): { ok: bool, s: PSet } = {
    val z: PSet = { logn: t.logn, qs: [], ps: [], h: 0, sg: 0, ci: t.ci, slots: 0, sc: 0 }
    val lists = t.mq == 1 and t.mp == 1 and t.mlq == 0 and t.mlp == 0
    val sizes = t.mq == 0 and t.mp == 0 and t.mlq == 1 and t.mlp == 1
    if (not(lists or sizes) or t.logn < 4 or t.logn > 17 or t.ci > 1) { ok: false, s: z }
    else {
      val c = if (lists) { ok: true, q: t.qs, p: t.ps } else chain(t.logn + t.ci, t.lqs, t.lps)
      val s: PSet = { logn: t.logn, qs: c.q, ps: c.p, h: if (t.h == 0) pow2(t.logn - 1) else t.h, sg: if (t.sg == 0) 32 else t.sg, ci: t.ci,
                     slots: if (t.slots == 0) t.logn - 1 + t.ci else t.slots, sc: t.sc }
      { ok: c.ok and valid(s), s: s } } }

  // ------------------------------------------------------------ what a set reports
  pure def bitLen(x: int): int = {
    val w = range(0, 220).foldl({ x: x, n: 0 }, (st, i) => if (st.x >= W) { x: st.x / W, n: st.n + 64 } else st)
    range(0, 64).foldl(w, (st, i) => if (st.x == 0) st else { x: st.x / 2, n: st.n + 1 }).n }
  pure def maxOf(l: List[int], k: int): int = range(0, k).foldl(1, (a, i) => maxi(a, l[i]))
  pure def margins(l: List[int]): List[int] = range(1, length(l) + 1).foldl([], (r, k) => r.append(W / maxOf(l, k)))
  pure val STEPS = [0, 1, -1, 2, 3, -5, 7, 16, 1023, -1024, 65536]
  pure def viewOf(s: PSet, r: int): View = {
    val ord = order(s.logn, s.ci)
    val n = pow2(s.logn)
    val ql = range(1, length(s.qs) + 1).foldl([], (l, k) => l.append(prodTo(s.qs, k)))
    val q = prod(s.qs)
    val p = prod(s.ps)
    { n: n, ord: ord, q: q, p: p, bq: bitLen(q), bp: bitLen(p), bqp: bitLen(q * p), maxlevel: length(s.qs) - 1,
      beta: if (length(s.ps) == 0) 1 else (length(s.qs) + length(s.ps) - 1) / length(s.ps), maxslots: maxSlots(s), mq: margins(s.qs), mp: margins(s.ps), ql: ql,
      bl: range(0, length(ql)).foldl([], (l, k) => l.append(bitLen(ql[k]))),
      gal: [r % 11, (r / 11) % 11].foldl([], (l, i) => {
        val k = STEPS[i]
        l.append({ k: k, g: powmod(5, modp(k, ord), ord), inv: powmod(5, modp(-k, ord), ord) }) }),
      row: range(0, s.logn).foldl([], (l, i) => l.append(if (i < s.logn - 1) powmod(5, pow2(i), ord) else if (s.ci == 1) powmod(5, pow2(s.logn - 1), ord) else ord - 1)) } }

  // ------------------------------------------------------------ descriptions
  pure val LOGNS = [4, 4, 4, 5, 5, 6, 7, 8, 10]
  pure val ODDN = [-3, -1, 0, 1, 3, 17, 18, 40, 64, 100]
  pure def pick(r: List[int], at: int, n: int, logn: int, bad: bool): List[int] =
    range(0, n).foldl([], (l, i) => {
      val x = r[at + i]
      val c = if (bad and x % 3 == 0) (if (x % 2 == 0 and length(l) > 0) l[0] else BAD[(x / 8) % length(BAD)])
        else if (logn <= 4 and x % 4 == 0) NARROW[(x / 8) % length(NARROW)] else WIDE[(x / 8) % length(WIDE)]
      // repeated only on purpose
      if (not(bad) and l.indices().exists(j => l[j] == c)) l else l.append(c) })
  pure def litOf(seed: int): Lit = {
    val r = rngList(seed, 48)
    val broken = r[0] % 3       // 0, 1: nothing is wrong on purpose
    val wrong = if (broken < 2) 0 else 1 + r[1] % 8
    val logn = if (wrong == 1) ODDN[r[2] % 10] else LOGNS[r[2] % 9]
    val ci = if (wrong == 2) 2 + r[3] % 3 else if (r[3] % 3 == 0) 1 else 0
    val lists = r[4] % 5 > 0
    val nq = if (wrong == 3 and r[5] % 2 == 0) 0 else if (wrong == 3) 101 else 1 + r[5] % 5
    val np = r[6] % 4
    val ms = pick(r, 7, mini(nq, 8), logn, wrong == 4)
    val qs = if (nq == 101) range(0, 101).foldl([], (l, i) => l.append(WIDE[i % length(WIDE)])) else ms
    val ps = pick(r, 16, np, logn, wrong == 5).select(x => wrong == 5 or not(qs.indices().exists(i => qs[i] == x)))
    val sizeOf = [SIZES[r[20] % length(SIZES)], SIZES[r[21] % length(SIZES)], 60]
    val lqs = range(0, mini(nq, 4)).foldl([], (l, i) => l.append(if (wrong == 4 and i == 0) [0, -1, 61, 62, 4][r[22] % 5] else sizeOf[r[23 + i] % 3]))
    val lps = range(0, np).foldl([], (l, i) => l.append(if (wrong == 5 and i == 0) [0, 62, 64, 3][r[28] % 4] else if (r[29 + i] % 2 == 0) 61 else sizeOf[r[29 + i] % 3]))
    // which fields are given
    val m = if (wrong == 6) [[1, 0, 1, 1], [0, 0, 0, 0], [1, 1, 1, 1], [1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 1, 0], [1, 1, 1, 0], [1, 1, 0, 1]][r[33] % 8] else if (lists) [1, 1, 0, 0] else [0, 0, 1, 1]
    { logn: logn, mq: m[0], qs: if (m[0] == 1) qs else [], mp: m[1], ps: if (m[1] == 1) ps else [], mlq: m[2], lqs: if (m[2] == 1) lqs else [], mlp: m[3], lps: if (m[3] == 1) lps else [],
      h: if (r[34] % 2 == 0) 0 else 1 + r[35] % 192, sg: if (r[36] % 2 == 0) 0 else 1 + r[37] % 64, ci: ci,
      slots: if (wrong == 7) [-1, logn + ci, 63, 100][r[38] % 4] else if (r[38] % 2 == 0) 0 else 1 + r[39] % maxi(1, logn - 1 + mini(ci, 1)),
      sc: if (r[40] % 3 == 0) pow2(40) else if (r[40] % 3 == 1) 1 + r[41] % pow2(50) else pow2(r[41] % 100) } }

  pure val FIRST: PSet = { logn: 4, qs: [WIDE[0], WIDE[1]], ps: [WIDE[2]], h: 8, sg: 32, ci: 0, slots: 3, sc: 1099511627776 }
  action init = all { regs' = range(0, NREG).foldl([], (l, i) => l.append(FIRST)), act' = mk("Init").with("view", viewOf(FIRST, 0)) }
  action setReg(z: int, s: PSet, a: Act, r: int): bool = all { regs' = regs.replaceAt(z, s), act' = a.with("z", z).with("view", viewOf(s, r)) }
  action keep(a: Act): bool = all { regs' = regs, act' = a }

  action stepLiteral = {
    nondet z = oneOf(REGS)  nondet s = oneOf(0.to(1000000000))  nondet json = oneOf(Set(true, false, false))
    val t = litOf(s)
    val d = describe(t)
    // an empty list of sizes is not written by JSON
    val js = json and not(t.mlq == 1 and length(t.lqs) == 0) and not(t.mlp == 1 and length(t.lps) == 0)
    val a = mk(if (js) "LiteralJSON" else "Literal").with("lit", t).with("z", z).with("rlweOk", d.ok).with("ok", d.ok and validCkks(d.s))
    if (d.ok and validCkks(d.s)) setReg(z, d.s, a, s) else keep(a) }
  // as many moduli as there may be, or one more
  action stepMany = {
    nondet z = oneOf(REGS)  nondet s = oneOf(0.to(1000000000))  nondet op = oneOf(Set("Literal", "LiteralJSON", "Direct"))
    val r = rngList(s, 8)
    val n = if (r[0] % 2 == 0) 100 else 101
    val few = WIDE.slice(0, 1 + r[1] % 2)
    val many = MANY.slice(r[2] % 2, r[2] % 2 + n)
    val q = r[3] % 2 == 0
    // sizes only where no prime is needed to tell
    val sizes = n == 101 and op != "Direct" and r[4] % 2 == 0
    val big = range(0, n).foldl([], (l, i) => l.append(if (i < 30) 59 else if (i < 65) 58 else 57))
    val lit0: Lit = { ...NOLIT, logn: 4 + r[5] % 2, h: 8, sg: 32, slots: 3, sc: pow2(40) }
    val t = if (sizes) { ...lit0, mlq: 1, mlp: 1, lqs: if (q) big else [60], lps: if (q) [61] else big }
      else { ...lit0, mq: 1, mp: 1, qs: if (q) many else few, ps: if (q) few else many }
    val v: PSet = { logn: t.logn, qs: t.qs, ps: t.ps, h: 8, sg: 32, ci: 0, slots: 3, sc: t.sc }
    val ok = n == 100
    val a = mk(op).with("lit", t).with("z", z).with("rlweOk", ok).with("ok", ok)
    if (ok) setReg(z, v, a, s) else keep(a) }
  // a set given field by field; zeros are kept
  action stepDirect = {
    nondet z = oneOf(REGS)  nondet s = oneOf(0.to(1000000000))
    val t = litOf(s)
    val r = rngList(s + 1, 4)
    val v: PSet = { logn: t.logn, qs: t.qs, ps: t.ps, h: if (r[0] % 12 > 0) maxi(1, t.h) else 0, sg: if (r[1] % 12 > 0) maxi(1, t.sg) else 0, ci: t.ci, slots: if (r[2] % 12 > 0) (if (t.slots == 0) maxi(1, t.logn - 2) else t.slots) else 0, sc: t.sc }
    val a = mk("Direct").with("lit", { ...t, h: v.h, sg: v.sg, slots: v.slots }).with("z", z).with("rlweOk", valid(v)).with("ok", validCkks(v))
    if (validCkks(v)) setReg(z, v, a, s) else keep(a) }
  // the same set but for one field
  action stepVariant = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet what = oneOf(0.to(8))  nondet s = oneOf(0.to(1000000000))
    val o = regs[x]
    val v = if (what == 0) o.with("h", o.h + 1) else if (what == 1) o.with("sg", o.sg + 1)
      else if (what == 2) o.with("slots", if (o.slots > 0) o.slots - 1 else o.slots + 1)
      else if (what == 3) o.with("sc", if (o.sc < pow2(50)) o.sc + 1 else 2 * o.sc)
      else if (what == 4) o.with("ci", 1 - o.ci)
      else if (what == 5 and length(o.ps) > 0) o.with("ps", o.ps.slice(0, length(o.ps) - 1))
      else if (what == 6 and length(o.qs) > 1) o.with("qs", o.qs.slice(0, length(o.qs) - 1))
      else if (what == 7 and length(o.qs) > 1) o.with("qs", o.qs.replaceAt(0, o.qs[1]).replaceAt(1, o.qs[0]))
      else if (what == 8 and length(o.qs) > 1) { ...o, qs: o.qs.slice(0, length(o.qs) - 1), ps: o.ps.append(o.qs[length(o.qs) - 1]) }
      else o.with("logn", o.logn + 1)
    val a = mk("Direct").with("lit", { ...NOLIT, logn: v.logn, mq: 1, qs: v.qs, mp: 1, ps: v.ps, h: v.h, sg: v.sg, ci: v.ci, slots: v.slots, sc: v.sc }).with("z", z).with("rlweOk", valid(v)).with("ok", validCkks(v))
    if (validCkks(v)) setReg(z, v, a, s) else keep(a) }
  // encodings, copies
  action stepCopy = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet op = oneOf(Set("Binary", "JSON", "CopyNew"))  nondet s = oneOf(0.to(1000000000))
    setReg(z, regs[x], mk(op).with("x", x), s) }
  // an encoding that is cut short
  action stepTruncated = {
    nondet x = oneOf(REGS)  nondet k = oneOf(0.to(100000))  nondet json = oneOf(Set(true, false, false))
    keep(mk(if (json) "CutJSON" else "Cut").with("x", x).with("k", k)) }
  action stepEqual = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    val a = regs[x]
    val b = regs[z]
    keep(mk("Equal").with("x", x).with("z", z).with("eq", a == b).with("eqr", a.with("slots", 0).with("sc", 0) == b.with("slots", 0).with("sc", 0))) }
  // the standard ring that contains a conjugate-invariant one
  action stepStandard = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet s = oneOf(0.to(1000000000))
    val o = regs[x]
    if (o.ci == 1 and o.logn == 17) stepLiteral else {
    val v = if (o.ci == 0) o else { ...o, ci: 0, logn: o.logn + 1 }
    setReg(z, v, mk("Standard").with("x", x), s) } }
  // sets of the packages for fast key switching: the same set, a ring for R with the moduli of P and then Q, a ring for T
  action stepFast = {
    nondet s = oneOf(0.to(1000000000))
    val t = litOf(s)
    val d = describe(t)
    val r = rngList(s + 2, 8)
    val ts = pick(r, 0, 1 + r[5] % 4, 10, false)
    if (not(d.ok) or not(validCkks(d.s)) or d.s.ci == 1) stepLiteral
    else keep({ ...mk("Fast"), lit: t, view: viewOf(d.s, s), ms: d.s.ps.concat(d.s.qs), ts: ts, gamma: 1 + r[6] % 5 }) }
  action stepDefault = {
    nondet k = oneOf(0.to(19))
    val d = DEFAULTS[k]
    keep({ ...mk("Default"), k: k, lit: { ...NOLIT, logn: d.logn, slots: d.slots, ci: if (d.ci) 1 else 0, sc: d.logqp } }) }
  // rings on their own: every list of moduli that is not one of distinct NTT-friendly primes is refused
  action stepRing = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 24)
    val logn = 4 + r[0] % 3
    val ci = r[1] % 2
    val bad = r[2] % 2 == 0
    val ms = if (r[3] % 12 == 0) [] else pick(r, 4, 1 + r[2] % 5, if (bad) 4 else logn, bad)
    // moduli of 62 bits and more are not refused by a ring on its own
    // a modulus of zero is a precondition (division by zero)
    val words = ms.select(x => x > 0 and x < pow2(61))
    keep({ ...mk("Ring"), k: logn, x: ci, ms: words, ok: goodRing(logn, words, ci) }) }

  // the rotations that sums, copies and traces over slots need
  pure def logRotations(batch: int, n: int): List[int] =
    range(0, 12).foldl([], (l, i) => if (pow2(i) >= n) l else l.append(batch * pow2(i)).append(batch * (n - n % pow2(i + 1))))
  pure def allRotations(batch: int, n: int): List[int] = range(1, maxi(1, n)).foldl([], (l, i) => l.append(i * batch))
  action stepRotations = {
    nondet x = oneOf(REGS)  nondet batch = oneOf(Set(1, 1, 2, 3, 5, 8, 16, -1, -4))  nondet n = oneOf(0.to(70))  nondet b = oneOf(0.to(12))
    keep({ ...mk("Rotations"), x: x, k: batch, z: n, gamma: b, view: { ...NOVIEW, mq: allRotations(batch, n), mp: logRotations(batch, n), ql: allRotations(-batch, n), bl: logRotations(-batch, n) },
           ts: range(mini(n % 6, b), b).foldl([], (l, i) => l.append(pow2(i))) }) }

  // what is allocated for a set: coefficients, rows modulo Q and P, digits of a gadget of levels lq and lp (and of the full one), polynomials
  pure def digits(lq: int, lp: int): int = (lq + lp + 1) / (lp + 1)
  action stepShapes = {
    nondet x = oneOf(REGS)  nondet s = oneOf(0.to(1000000000))
    val o = regs[x]
    val r = rngList(s, 8)
    val nq = length(o.qs)
    val np = length(o.ps)
    val lq = r[0] % nq
    val lp = if (np == 0) -1 else r[1] % np
    if (o.logn > 10) stepLiteral
    else keep({ ...mk("Shapes"), x: x, k: lq, z: lp, gamma: r[2] % 4,
                ts: [pow2(o.logn), lq + 1, lp + 1, if (np == 0) 0 else digits(lq, lp), if (np == 0) 0 else digits(nq - 1, np - 1), nq, np, r[2] % 4 + 1] }) }

  action mixMany = any { stepMany, stepMany, stepMany, stepCopy, stepEqual, stepTruncated, stepVariant }
  action mixP01 = any { stepShapes, stepRotations, stepLiteral, stepLiteral, stepLiteral, stepDirect, stepDirect, stepVariant, stepVariant, stepCopy, stepCopy, stepCopy, stepTruncated, stepEqual, stepEqual, stepStandard, stepFast, stepDefault, stepRing }
  action step = mixP01

  val wellFormed = REGS.forall(i => { val s = regs[i]
    s.logn >= 4 and s.logn <= 17 and s.slots >= 0 and s.slots <= maxSlots(s) and length(s.qs) > 0 and distinct(s.qs.concat(s.ps)) and
    not(s.qs.indices().exists(j => s.qs[j] % order(s.logn, s.ci) != 1)) })
}
