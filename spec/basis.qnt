// RNS basis extension, division by the auxiliary modulus, digit decomposition and
// scaling by t/Q (packages ring and rlwe, ring_basis_extension.go, ring_scaling.go, ring_qp.go).
//
// State: registers holding a polynomial modulo the primes of Q and of P.  A limb holds the
// residues modulo one prime, a bound b on the stored words (0: reduced, b: word <= b*q) and
// whether the words are in the transformed representation.  The meaning of a register over a
// set of limbs is the integer polynomial given by the Chinese remainder theorem; every action
// is defined on those integers.
//
// The code computes the extension with one floating point quotient, so for integers within a
// relative distance 2^-50 (times the square of the number of primes) of a multiple of the source
// modulus M it may extend X+M or X-M instead of X in [0,M).  `amb` marks those coefficients
// (+1: X or X+M, -1: X or X-M) and `d` is what that choice adds to the result: the driver
// accepts either, but requires the same choice modulo every target prime.
module basis {
  import lib.* from "./lib"

  const N: int
  const QS: List[int]
  const PS: List[int]
  const CI: bool
  const NREG: int
  const IDEMQ: List[List[List[int]]]   // IDEMQ[s][k-1]: idempotents of the k consecutive primes of Q from s on
  const IDEMP: List[List[List[int]]]   // the same for P (s = 0 is used)
  const TS: List[int]                  // plaintext moduli of the scalers; even ones are powers of two

  type Limb = { v: List[int], b: int, ntt: bool }
  type Reg = { q: List[Limb], p: List[Limb] }
  type Act = { op: str, x: int, y: int, z: int, lq: int, lp: int, k: int, s: int, alt: bool, amb: List[int], d: int, out: List[int] }

  var regs: List[Reg]
  var act: Act

  pure val LQ = length(QS)
  pure val LP = length(PS)
  pure val REGS = 0.to(NREG - 1)
  pure val TWO64 = 18446744073709551616
  pure val TWO50 = 1125899906842624
  pure val NTHROOT = if (CI) 4 * N else 2 * N

  pure def mk(op: str, x: int, y: int, z: int, lq: int, lp: int): Act =
    { op: op, x: x, y: y, z: z, lq: lq, lp: lp, k: 0, s: 0, alt: false, amb: [], d: 0, out: [] }

  // ------------------------------------------------------------- integers
  pure val QPROD = range(0, LQ + 1).foldl([], (l, k) => l.append(prodTo(QS, k)))
  pure val PPROD = range(0, LP + 1).foldl([], (l, k) => l.append(prodTo(PS, k)))
  pure def prodQ(lq: int): int = QPROD[lq + 1]
  pure def prodP(lp: int): int = PPROD[lp + 1]
  pure def prodFrom(s: int, k: int): int = range(s, s + k).foldl(1, (a, i) => a * QS[i])
  // integers in [0, M) with the residues of limbs s..s+k-1, idempotents e
  pure def crt(ls: List[Limb], s: int, k: int, e: List[int], M: int): List[int] =
    range(0, N).foldl([], (l, j) => l.append(range(0, k).foldl(0, (a, i) => a + ls[s + i].v[j] * e[i]) % M))
  pure def intQ(r: Reg, lq: int): List[int] = crt(r.q, 0, lq + 1, IDEMQ[0][lq], prodQ(lq))
  pure def intP(r: Reg, lp: int): List[int] = crt(r.p, 0, lp + 1, IDEMP[0][lp], prodP(lp))
  // limbs of an integer polynomial, up to a level; the others stay
  pure def setLimbs(ls: List[Limb], ms: List[int], lvl: int, c: List[int], b: int, ntt: bool): List[Limb] =
    range(0, length(ls)).foldl([], (l, i) => l.append(
      if (i > lvl) ls[i] else { v: range(0, N).foldl([], (w, j) => w.append(modp(c[j], ms[i]))), b: b, ntt: ntt }))
  // which of X, X+M, X-M the code may take for X in [0,M), from k primes
  pure def edge(x: int, M: int, k: int): int =
    if (x == 0) 0
    else if (k > 1 and x * TWO50 < M * k * k) 1
    else if ((M - x) * TWO50 < M * k * k) -1 else 0
  pure def edges(c: List[int], M: int, k: int): List[int] = {
    val l = range(0, N).foldl([], (l, j) => l.append(edge(c[j], M, k)))
    if (l.foldl(true, (a, e) => a and e == 0)) [] else l
  }

  // ---------------------------------------------------------------- state
  // data: 0 zero, 1 all QP-1, 2 random, 3 residues at the edges, 4 small signed, 5 monomial,
  // 6 near a multiple of a prefix of P, 7 near a multiple of a prefix of Q, 8 near the middle
  pure def edgeWord(r: int, q: int): int = [0, 1, q - 1, (q - 1) / 2, (q + 1) / 2, modp(r, q), q - 2, 2][r % 8]
  pure def loadInts(class: int, seed: int): List[int] = {
    val r = rngList(seed, N)
    val t = rngList(seed + 77, N)
    val mp = prodP(seed % LP)
    val mq = prodQ(seed % LQ)
    range(0, N).foldl([], (l, i) => l.append(
      if (class == 0) 0
      else if (class == 1) -1
      else if (class == 4) r[i] % 17 - 8
      else if (class == 5) (if (i == seed % N) 1 else 0)
      else if (class == 6) mp * (r[i] % 1000003) + t[i] % 9 - 4
      else if (class == 7) mq * (r[i] % 1000003) + t[i] % 9 - 4
      else mq / 2 + mp * (r[i] % 3) + t[i] % 5 - 2))
  }
  pure def mkLimbs(class: int, seed: int, ms: List[int], off: int): List[Limb] =
    range(0, length(ms)).foldl([], (ls, i) => {
      val r = rngList(seed + 1000003 * (i + off), N)
      ls.append({ v: range(0, N).foldl([], (w, j) => w.append(if (class == 2) r[j] % ms[i] else modp(edgeWord(r[j], ms[i]), ms[i]))), b: 0, ntt: false }) })
  pure def mkReg(class: int, seed: int): Reg =
    if (class == 2 or class == 3) { q: mkLimbs(class, seed, QS, 0), p: mkLimbs(class, seed, PS, LQ) }
    else {
      val c = loadInts(class, seed)
      val e = { v: [], b: 0, ntt: false }
      { q: setLimbs(range(0, LQ).foldl([], (l, i) => l.append(e)), QS, LQ - 1, c, 0, false),
        p: setLimbs(range(0, LP).foldl([], (l, i) => l.append(e)), PS, LP - 1, c, 0, false) }
    }

  action init = {
    nondet s = oneOf(1.to(1000000000))
    all {
      regs' = range(0, NREG).foldl([], (l, i) => l.append(mkReg([2, 3, 6, 7, 4][(s + i) % 5], s + 31 * i))),
      act' = mk("init", 0, 0, 0, LQ - 1, LP - 1)
    }
  }
  action doLoad = {
    nondet z = oneOf(REGS)  nondet class = oneOf(Set(0, 1, 2, 2, 3, 4, 5, 6, 7, 8))  nondet s = oneOf(1.to(1000000000))
    nondet ntt = oneOf(Set(true, false))
    val r = mkReg(class, s)
    wr(z, if (ntt) { q: turned(r.q, LQ - 1, true, 0), p: turned(r.p, LP - 1, true, 0) } else r, mk("Load", z, z, z, LQ - 1, LP - 1))
  }
  action wr(z: int, r: Reg, a: Act): bool = all { regs' = regs.replaceAt(z, r), act' = a }

  def fitQ(x: int, lq: int, ntt: bool, b: int): bool = 0.to(lq).forall(i => regs[x].q[i].ntt == ntt and regs[x].q[i].b <= b)
  def fitP(x: int, lp: int, ntt: bool, b: int): bool = 0.to(lp).forall(i => regs[x].p[i].ntt == ntt and regs[x].p[i].b <= b)
  // when a call does not apply, bring the operand into the form it needs
  pure def allNTT(r: Reg): bool = r.q.foldl(true, (a, l) => a and l.ntt) and r.p.foldl(true, (a, l) => a and l.ntt)
  pure def allCoeff(r: Reg): bool = r.q.foldl(true, (a, l) => a and not(l.ntt)) and r.p.foldl(true, (a, l) => a and not(l.ntt))
  pure def reduced(ls: List[Limb], lvl: int): List[Limb] =
    range(0, length(ls)).foldl([], (l, i) => l.append(if (i <= lvl) ls[i].with("b", 0) else ls[i]))
  pure def turned(ls: List[Limb], lvl: int, ntt: bool, b: int): List[Limb] =
    range(0, length(ls)).foldl([], (l, i) => l.append(if (i <= lvl) ls[i].with("b", b).with("ntt", ntt) else ls[i]))
  action reduce(x: int): bool =
    wr(x, { q: reduced(regs[x].q, LQ - 1), p: reduced(regs[x].p, LP - 1) }, mk("Reduce", x, x, x, LQ - 1, LP - 1))
  action transform(x: int, z: int, lq: int, lp: int, op: str): bool = {
    val ntt = op == "NTT" or op == "NTTLazy"
    val b = if (op == "NTTLazy") 2 else 0
    val ok = fitQ(x, lq, not(ntt), 1) and fitP(x, lp, not(ntt), 1)
    if (ok) wr(z, {
        q: range(0, LQ).foldl([], (l, i) => l.append(if (i <= lq) regs[x].q[i].with("b", b).with("ntt", ntt) else regs[z].q[i])),
        p: range(0, LP).foldl([], (l, i) => l.append(if (i <= lp) regs[x].p[i].with("b", b).with("ntt", ntt) else regs[z].p[i])) },
      mk(op, x, x, z, lq, lp))
    else if (not(allNTT(regs[x])) and not(allCoeff(regs[x]))) {
      nondet s = oneOf(1.to(1000000000))
      wr(x, mkReg(2, s), mk("Load", x, x, x, LQ - 1, LP - 1))
    }
    else if (fitQ(x, LQ - 1, not(ntt), 1000) and fitP(x, LP - 1, not(ntt), 1000)) reduce(x)
    else {
      // everything is already in the wanted form: go back
      val back = if (ntt) "InvNTT" else "NTT"
      if (fitQ(x, LQ - 1, ntt, 1) and fitP(x, LP - 1, ntt, 1))
        wr(x, { q: turned(regs[x].q, LQ - 1, not(ntt), 0), p: turned(regs[x].p, LP - 1, not(ntt), 0) }, mk(back, x, x, x, LQ - 1, LP - 1))
      else reduce(x)
    }
  }
  action toForm(x: int, ntt: bool): bool = transform(x, x, LQ - 1, LP - 1, if (ntt) "NTT" else "InvNTT")
  action stepTransform = {
    nondet op = oneOf(Set("NTT", "InvNTT", "NTTLazy"))  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    transform(x, z, lq, lp, op)
  }

  // ------------------------------------------------------ basis extension
  // words of an extension over k primes stay below (2 + k/8) times the prime, plus one correction
  pure def lazyB(k: int): int = 3 + k / 8
  action stepModUp = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet qtop = oneOf(Set(true, false))  nondet alt = oneOf(Set(true, false))
    if (qtop and fitQ(x, lq, false, 6)) {
      val c = intQ(regs[x], lq)
      wr(z, regs[z].with("p", setLimbs(regs[z].p, PS, lp, c, lazyB(lq + 1), false)),
        mk("ModUpQtoP", x, x, z, lq, lp).with("alt", alt).with("amb", edges(c, prodQ(lq), lq + 1)).with("d", prodQ(lq)))
    } else if (not(qtop) and fitP(x, lp, false, 6)) {
      val c = intP(regs[x], lp)
      wr(z, regs[z].with("q", setLimbs(regs[z].q, QS, lq, c, lazyB(lp + 1), false)),
        mk("ModUpPtoQ", x, x, z, lq, lp).with("alt", alt).with("amb", edges(c, prodP(lp), lp + 1)).with("d", prodP(lp)))
    } else toForm(x, false)
  }

  // ---------------------------------------------- division by P or by Q
  // (X - [X]_M)/M on every remaining limb: the floor of the quotient
  pure def divided(ls: List[Limb], zs: List[Limb], ms: List[int], lvl: int, c: List[int], M: int, ntt: bool): List[Limb] =
    range(0, length(zs)).foldl([], (l, i) => l.append(
      if (i > lvl) zs[i] else {
        val inv = invmod(M, ms[i])
        { v: range(0, N).foldl([], (w, j) => w.append(modp((ls[i].v[j] - c[j]) * inv, ms[i]))), b: 0, ntt: ntt } }))
  action stepModDown = {
    nondet x0 = oneOf(REGS)  nondet y0 = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet op0 = oneOf(Set("ModDownQPtoQ", "ModDownQPtoP"))  nondet alt = oneOf(Set(true, false))
    // the two halves may come from different registers; x holds the Q half, y the P half;
    // the NTT variant is called when some registers are transformed
    val nttQ = REGS.filter(r => fitQ(r, lq, true, 2))
    val nttP = REGS.filter(r => fitP(r, lp, true, 2))
    val useN = op0 == "ModDownQPtoQ" and not(fitQ(x0, lq, false, 2)) and nttQ.size() > 0 and nttP.size() > 0
    val x = if (useN) nttQ.fold(-1, (a, r) => if (a < 0 or r == x0) r else a) else x0
    val y = if (useN) nttP.fold(-1, (a, r) => if (a < 0 or r == y0) r else a) else y0
    val op = if (useN) "ModDownQPtoQNTT" else op0
    val n = op == "ModDownQPtoQNTT"
    if (op == "ModDownQPtoP") {
      if (fitQ(x, lq, false, 6) and fitP(y, lp, false, 2)) {
        val c = intQ(regs[x], lq)
        wr(z, regs[z].with("p", divided(regs[y].p, regs[z].p, PS, lp, c, prodQ(lq), false)),
          mk(op, x, y, z, lq, lp).with("alt", alt).with("amb", edges(c, prodQ(lq), lq + 1)).with("d", -1))
      } else if (fitQ(x, lq, false, 6)) toForm(y, false) else toForm(x, false)
    } else {
      if (fitQ(x, lq, n, 2) and fitP(y, lp, n, if (n) 2 else 6)) {
        val c = intP(regs[y], lp)
        wr(z, regs[z].with("q", divided(regs[x].q, regs[z].q, QS, lq, c, prodP(lp), n)),
          mk(op, x, y, z, lq, lp).with("alt", alt).with("amb", edges(c, prodP(lp), lp + 1)).with("d", -1))
      } else if (fitQ(x, lq, n, 2)) toForm(y, n) else toForm(x, n)
    }
  }

  // ---------------------------------------------------------- digits
  // digit beta of a polynomial modulo Q_lq, for gadget size lp+1: the integer modulo the
  // product of the primes lp*beta .. of the digit that are within the level
  pure def digitLen(lq: int, alpha: int, beta: int): int = mini(alpha, lq + 1 - alpha * beta)
  pure def digit(r: Reg, lq: int, alpha: int, beta: int): List[int] = {
    val k = digitLen(lq, alpha, beta)
    crt(r.q, alpha * beta, k, IDEMQ[alpha * beta][k - 1], prodFrom(alpha * beta, k))
  }
  pure def nDigits(lq: int, alpha: int): int = (lq + alpha) / alpha
  action stepDecompose = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet b = oneOf(0.to(15))
    val alpha = lp + 1
    val beta = b % nDigits(lq, alpha)
    val zz = if (z == x) (x + 1) % NREG else z
    // words are copied as they are when the digit is a single prime
    if (fitQ(x, lq, false, 0)) {
      val k = digitLen(lq, alpha, beta)
      val c = digit(regs[x], lq, alpha, beta)
      // words copied from a prime q0 exceed another prime q by their quotient
      val bb = if (k > 1) lazyB(k) else 1 + range(0, LQ + LP).foldl(0, (m, i) => maxi(m, QS[alpha * beta] / (if (i < LQ) QS[i] else PS[i - LQ])))
      wr(zz, { q: setLimbs(regs[zz].q, QS, lq, c, bb, false), p: setLimbs(regs[zz].p, PS, lp, c, bb, false) },
        mk("Decompose", x, x, zz, lq, lp).with("k", beta).with("amb", edges(c, prodFrom(alpha * beta, k), k)).with("d", prodFrom(alpha * beta, k)))
    } else if (fitQ(x, lq, false, 1000)) reduce(x) else toForm(x, false)
  }
  // the digits with the gadget factors (1 modulo the digit's primes, 0 modulo the others) give the polynomial back
  def recombines(x: int, lq: int, alpha: int): bool = {
    val Q = prodQ(lq)
    val c = intQ(regs[x], lq)
    range(0, N).foldl(true, (ok, j) => ok and
      range(0, nDigits(lq, alpha)).foldl(0, (a, beta) => {
        val k = digitLen(lq, alpha, beta)
        val g = range(alpha * beta, alpha * beta + k).foldl(0, (s, i) => s + IDEMQ[0][lq][i])
        a + digit(regs[x], lq, alpha, beta)[j] * g }) % Q == c[j])
  }

  // small polynomials, given modulo the first prime of Q, extended to P by their centered value
  action stepExtendSmall = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet lp = oneOf(0.to(LP - 1))  nondet form = oneOf(0.to(2))
    nondet lim = oneOf(Set(1, 8, 1000000))
    val pmin = range(0, LP).foldl(PS[0], (m, i) => mini(m, PS[i]))
    val ok = fitQ(x, 0, false, 0)
    if (ok and range(0, N).foldl(true, (a, j) => a and absi(centered(regs[x].q[0].v[j], QS[0])) < pmin)) {
      val c = range(0, N).foldl([], (l, j) => l.append(centered(regs[x].q[0].v[j], QS[0])))
      // form 0: no polynomial for Q, 1: copied into another, 2: in place
      val zz = if (form == 2) x else if (form == 1 and z == x) (x + 1) % NREG else z
      wr(zz, { q: if (form == 1) regs[x].q else regs[zz].q, p: setLimbs(regs[zz].p, PS, lp, c, 0, false) },
        mk("ExtendSmall", x, x, zz, LQ - 1, lp).with("k", form))
    } else {
      nondet s = oneOf(1.to(1000000000))
      wr(x, mkReg([4, 5, 0, 4][s % 4], s), mk("Load", x, x, x, LQ - 1, LP - 1))
    }
  }

  // ------------------------------------------- operations over Q and P
  pure def binLimb(op: str, x: Limb, y: Limb, z: Limb, q: int): Limb = {
    val pr = if (not(x.ntt)) mulv(x.v, y.v, q) else if (CI) conjInvProd(x.v, y.v, N, q) else negacyclic(x.v, y.v, N, q)
    val ri = invmod(TWO64, q)
    if (op == "Add") { v: addv(x.v, y.v, q), b: 0, ntt: x.ntt }
    else if (op == "AddNoMod") { v: addv(x.v, y.v, q), b: maxi(1, x.b) + maxi(1, y.b), ntt: x.ntt }
    else if (op == "Sub") { v: axpy(x.v, -1, y.v, q), b: 0, ntt: x.ntt }
    else if (op == "MForm") { v: scalev(x.v, TWO64, q), b: 0, ntt: x.ntt }
    else if (op == "InvMForm") { v: scalev(x.v, ri, q), b: 0, ntt: x.ntt }
    else if (op == "MulMont") { v: scalev(pr, ri, q), b: 0, ntt: x.ntt }
    else if (op == "MulMontConst") { v: scalev(pr, ri, q), b: 2, ntt: x.ntt }
    else if (op == "MulMontConstAddNoMod") { v: axpy(z.v, ri, pr, q), b: maxi(1, z.b) + 2, ntt: x.ntt }
    else if (op == "MulMontAdd") { v: axpy(z.v, ri, pr, q), b: 0, ntt: x.ntt }
    else if (op == "MulMontSub") { v: axpy(z.v, -ri, pr, q), b: 0, ntt: x.ntt }
    else if (op == "MulMontConstSubNoMod") { v: axpy(z.v, -ri, pr, q), b: maxi(1, z.b) + 2, ntt: x.ntt }
    else x
  }
  pure def okBin(op: str, x: Limb, y: Limb, z: Limb): bool = {
    val acc = op.in(Set("MulMontConstAddNoMod", "MulMontAdd", "MulMontSub", "MulMontConstSubNoMod"))
    val mul = acc or op.in(Set("MulMont", "MulMontConst"))
    if (op.in(Set("MForm", "InvMForm", "Copy"))) true
    else x.ntt == y.ntt and (acc implies (z.ntt == x.ntt)) and
      (if (mul) maxi(1, x.b) * maxi(1, y.b) <= 4 and (acc implies (if (op.in(Set("MulMontAdd", "MulMontSub"))) z.b == 0 else z.b <= 4))
       else if (op == "AddNoMod") x.b <= 3 and y.b <= 3
       else x.b <= 1 and y.b <= 1)
  }
  action stepQP = {
    nondet x = oneOf(REGS)  nondet y = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet op = oneOf(Set("Add", "AddNoMod", "Sub", "MForm", "InvMForm", "MulMont", "MulMontConst", "MulMontConstAddNoMod", "MulMontAdd", "MulMontSub", "MulMontConstSubNoMod", "Copy"))
    if (0.to(lq).forall(i => okBin(op, regs[x].q[i], regs[y].q[i], regs[z].q[i])) and 0.to(lp).forall(i => okBin(op, regs[x].p[i], regs[y].p[i], regs[z].p[i])))
      wr(z, { q: range(0, LQ).foldl([], (l, i) => l.append(if (i > lq) regs[z].q[i] else binLimb(op, regs[x].q[i], regs[y].q[i], regs[z].q[i], QS[i]))),
               p: range(0, LP).foldl([], (l, i) => l.append(if (i > lp) regs[z].p[i] else binLimb(op, regs[x].p[i], regs[y].p[i], regs[z].p[i], PS[i]))) },
        mk(op, x, y, z, lq, lp))
    else if (fitQ(x, LQ - 1, regs[x].q[0].ntt, 1) and fitP(x, LP - 1, regs[x].q[0].ntt, 1)) toForm(y, regs[x].q[0].ntt)
    else toForm(x, false)
  }
  action stepPermute = {
    nondet x = oneOf(REGS)  nondet z0 = oneOf(REGS)  nondet lq = oneOf(0.to(LQ - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet k = oneOf(0.to(NTHROOT / 2 - 1))  nondet add = oneOf(Set(false, true))
    val z = if (z0 == x) (x + 1) % NREG else z0
    val g = if (CI) 4 * (k / 2) + 1 else 2 * k + 1
    val okz = not(add) or (fitQ(z, lq, true, 3) and fitP(z, lp, true, 3))
    if (fitQ(x, lq, true, 3) and fitP(x, lp, true, 3) and okz)
      wr(z, { q: range(0, LQ).foldl([], (l, i) => l.append(if (i > lq) regs[z].q[i] else permLimb(regs[x].q[i], regs[z].q[i], add, g, QS[i]))),
               p: range(0, LP).foldl([], (l, i) => l.append(if (i > lp) regs[z].p[i] else permLimb(regs[x].p[i], regs[z].p[i], add, g, PS[i]))) },
        mk(if (add) "PermuteAddNoMod" else "Permute", x, x, z, lq, lp).with("k", g))
    else if (fitQ(x, lq, true, 3) and fitP(x, lp, true, 3)) toForm(z, true) else toForm(x, true)
  }
  pure def permLimb(x: Limb, z: Limb, add: bool, g: int, q: int): Limb = {
    val v = if (not(CI)) autom(x.v, g, N, q) else range(0, N).foldl([], (l, i) => l.append(autom(unfold(x.v, N), g, 2 * N, q)[i]))
    if (add) { v: addv(z.v, v, q), b: maxi(1, z.b) + maxi(1, x.b), ntt: true } else x.with("v", v)
  }

  // ------------------------------------------------------ scaling by t/Q
  // round(t*X/Q) mod t for X in [0,Q) over all primes of Q
  action stepScaleT = {
    nondet x = oneOf(REGS)  nondet ti = oneOf(0.to(length(TS) - 1))  nondet rns = oneOf(Set(true, false))  nondet r = oneOf(1.to(1000000000))
    nondet class = oneOf(0.to(2))
    val t = TS[ti]
    val Q = prodQ(LQ - 1)
    val useRns = rns and t % 2 == 1
    if (fitQ(x, LQ - 1, false, 0) and class > 0) {
      val c = intQ(regs[x], LQ - 1)
      val w = range(0, N).foldl([], (l, j) => l.append(rdiv(t * c[j], Q) % t))
      // near a tie both neighbours are accepted: t*X mod Q within the float error of (Q-1)/2
      val amb = range(0, N).foldl([], (l, j) => {
        val e = modp(t * c[j] + (Q - 1) / 2, Q)
        l.append(if (useRns) edge(e, Q, LQ) else 0) })
      all { regs' = regs, act' = mk(if (useRns) "ScaleRNS" else "ScaleSimple", x, x, x, LQ - 1, 0).with("k", ti).with("s", t).with("amb", amb).with("d", -1).with("out", w) }
    } else {
      // values around the rounding boundaries (2k+1)Q/(2t) and around multiples of Q/t
      val c = range(0, N).foldl([], (l, j) => { val k = rngList(r, N)[j] % (2 * t)
        l.append((k * Q) / (2 * t) + rngList(r + 5, N)[j] % 5 - 2) })
      wr(x, regs[x].with("q", setLimbs(regs[x].q, QS, LQ - 1, c, 0, false)), mk("Load", x, x, x, LQ - 1, LP - 1))
    }
  }

  // ----------------------------------------------------------------- mixes
  action mixR04 = any {
    stepModUp, stepModUp, stepModDown, stepModDown, stepModDown, stepDecompose, stepDecompose, stepExtendSmall,
    stepTransform, stepQP, doLoad, doLoad
  }
  action mixQP = any { stepQP, stepQP, stepQP, stepTransform, stepPermute, stepPermute, doLoad, stepModDown }
  action mixR05T = any { stepScaleT, stepScaleT, stepScaleT, doLoad }
  action step = mixR04

  // ------------------------------------------------------------ invariants
  pure def wf(ls: List[Limb], ms: List[int]): bool =
    range(0, length(ms)).foldl(length(ls) == length(ms), (ok, i) => ok and length(ls[i].v) == N and ls[i].v.foldl(true, (a, x) => a and x >= 0 and x < ms[i]))
  val wellFormed = REGS.forall(r => wf(regs[r].q, QS) and wf(regs[r].p, PS))
  val gadget = act.op == "Decompose" implies recombines(act.x, act.lq, act.lp + 1)
  // the division really is the floor of the quotient of the integer over both bases
  val quotient = (act.op == "ModDownQPtoQ" and act.x == act.y and act.z != act.x and act.lq == LQ - 1) implies {
    val c = intP(regs[act.x], act.lp)
    val q = intQ(regs[act.x], act.lq)
    val o = intQ(regs[act.z], act.lq)
    range(0, N).foldl(true, (ok, j) => ok and (o[j] * prodP(act.lp) + c[j]) % prodQ(act.lq) == q[j])
  }
}
