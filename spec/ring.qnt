// Polynomials in RNS representation (package ring).
//
// State: a small register file.  A register is a list of limbs; limb i holds
// the residues of a polynomial modulo QS[i], the representation they are in
// (coefficients or transformed) and a bound on the raw stored words:
//    b = 0 : canonical, word < q      b >= 1 : word <= b*q
// Every action is one call of the public API on registers.  `act` records the
// call (and, for observers, the value it must return) so that a driver can
// replay the behaviour on the code and compare every register after each call.
module ring {
  import lib.* from "./lib"

  const N: int            // ring degree
  const QS: List[int]     // moduli, all = 1 mod 2N (4N in the conjugate-invariant ring)
  const CI: bool          // conjugate-invariant ring
  const LENS: List[int]   // number of limbs of each register

  type Limb = { v: List[int], b: int, ntt: bool }
  type Reg = List[Limb]
  type Act = { op: str, x: int, y: int, z: int, lvl: int, full: bool, k: int, s: int, vec: List[int], out: List[int] }

  var regs: List[Reg]
  var act: Act

  pure val L = length(QS)
  pure val R = length(LENS)
  pure val TWO64 = 18446744073709551616
  pure val NTHROOT = if (CI) 4 * N else 2 * N

  pure def mk(op: str, x: int, y: int, z: int, lvl: int, full: bool): Act =
    { op: op, x: x, y: y, z: z, lvl: lvl, full: full, k: 0, s: 0, vec: [], out: [] }

  // ---------------------------------------------------------------- data
  // classes of polynomials: 0 zero, 1 all q-1, 2 random, 3 edges, 4 small signed
  // (the same integer modulo every prime), 5 monomial, 6 around q/2
  pure def datum(class: int, r: int, i: int, q: int): int =
    if (class == 0) 0
    else if (class == 1) q - 1
    else if (class == 2) modp(r, q)
    else if (class == 3) [0, 1, q - 1, (q - 1) / 2, (q + 1) / 2, modp(r, q), q - 2, 2][r % 8]
    else if (class == 4) modp(r % 17 - 8, q)
    else if (class == 5) (if (i == 0) 1 else 0)
    else modp((q - 1) / 2 + r % 5 - 2, q)
  pure def mkLimb(class: int, seed: int, q: int): Limb = {
    val r = rngList(seed, N)
    { v: range(0, N).foldl([], (l, i) => l.append(datum(class, r[i], modp(i - seed, N), q))), b: 0, ntt: false }
  }
  pure def limbSeed(class: int, seed: int, i: int): int = if (class == 4 or class == 5) seed else seed + 1000003 * i
  pure def mkReg(class: int, seed: int, n: int): Reg =
    range(0, n).foldl([], (l, i) => l.append(mkLimb(class, limbSeed(class, seed, i), QS[i])))

  // ------------------------------------------------------- limb semantics
  pure def u(b: int): int = if (b == 0) 1 else b
  // product of the words: ring product when transformed, Hadamard otherwise
  pure def prodw(x: Limb, y: Limb, q: int): List[int] =
    if (x.ntt) (if (CI) conjInvProd(x.v, y.v, N, q) else negacyclic(x.v, y.v, N, q))
    else mulv(x.v, y.v, q)
  // adding the word s to every stored word
  pure def addw(x: Limb, s: int, q: int): List[int] =
    if (x.ntt) range(0, N).foldl([], (l, i) => l.append(if (i == 0) modp(x.v[i] + s, q) else x.v[i]))
    else addsv(x.v, s, q)
  pure def rinv(q: int): int = invmod(TWO64, q)

  pure val BIN = Set("Add", "Sub", "AddNoMod", "SubNoMod")
  pure val MUL = Set("MulCoeffs", "MulCoeffsConstant", "MulCoeffsMontgomery", "MulCoeffsMontgomeryConstant",
    "MulCoeffsMontgomeryConstantAndNeg")
  pure val ACC = Set("MulCoeffsAndAdd", "MulCoeffsAndAddNoMod", "MulCoeffsMontgomeryAndAdd",
    "MulCoeffsMontgomeryAndAddNoMod", "MulCoeffsMontgomeryConstantAndAddNoMod", "MulCoeffsMontgomeryAndSub",
    "MulCoeffsMontgomeryAndSubNoMod", "MulCoeffsMontgomeryConstantAndSubNoMod")
  pure val UN = Set("Neg", "Reduce", "ReduceConstant", "MForm", "MFormConstant", "InvMForm")
  pure val SCAL = Set("AddScalar", "SubScalar", "AddScalarBigint", "SubScalarBigint", "MulScalar", "MulScalarBigint",
    "MulByPow2")
  pure val VECS = Set("MulByVectorMontgomery", "MulByVectorMontgomeryAndAddNoMod")
  // loops exported at vector level and used by the rest of the library; they act on the single limb `lvl`
  pure val VEC1 = Set("AddVecNoModAndMulScalarMontgomeryVec", "AddScalarNoModVec", "AddScalarNoModAndNegTwoQiNoModVec",
    "MulScalarMontgomeryVec", "MulScalarMontgomeryConstantVec", "MulScalarMontgomeryAndAddVec",
    "SubVecAndMulScalarMontgomeryTwoQiVec")
  pure val TRANS = Set("NTT", "NTTLazy", "InvNTT", "InvNTTLazy")

  pure def usesY(op: str): bool = op.in(BIN.union(MUL).union(ACC)) or
    op.in(Set("AddVecNoModAndMulScalarMontgomeryVec", "SubVecAndMulScalarMontgomeryTwoQiVec"))
  pure def readsZ(op: str): bool = op.in(ACC) or
    op.in(Set("MulByVectorMontgomeryAndAddNoMod", "MulScalarMontgomeryAndAddVec", "PermuteNTTAndAddNoMod"))

  pure val MAXB = 6   // words must stay below 2^64: MAXB * q < 2^64 for q < 2^61

  // is the call within the ranges the API documents for its operands?
  pure def okLimb(a: Act, x: Limb, y: Limb, z: Limb): bool =
    (usesY(a.op) implies x.ntt == y.ntt) and (readsZ(a.op) implies x.ntt == z.ntt) and
    (if (a.op.in(Set("Add", "Sub"))) x.b <= 1 and y.b <= 1
     else if (a.op == "AddNoMod") u(x.b) + u(y.b) <= MAXB
     else if (a.op == "SubNoMod") y.b <= 1 and u(x.b) + 1 <= MAXB
     else if (a.op.in(MUL)) u(x.b) * u(y.b) <= 4
     else if (a.op.in(ACC)) u(x.b) * u(y.b) <= 4 and
       (if (a.op.in(Set("MulCoeffsAndAdd", "MulCoeffsMontgomeryAndAdd", "MulCoeffsMontgomeryAndSub"))) z.b == 0
        else u(z.b) + 2 <= MAXB)
     else if (a.op == "Neg") x.b <= 1
     else if (a.op.in(UN)) true
     else if (a.op.in(Set("AddScalar", "SubScalar", "AddScalarBigint", "SubScalarBigint"))) x.b == 0
     else if (a.op.in(Set("MulScalar", "MulScalarBigint", "MulByPow2"))) true
     else if (a.op == "MulByVectorMontgomery") not(x.ntt)
     else if (a.op == "MulByVectorMontgomeryAndAddNoMod") not(x.ntt) and u(z.b) + 1 <= MAXB
     else if (a.op == "AddVecNoModAndMulScalarMontgomeryVec") u(x.b) + u(y.b) <= MAXB
     else if (a.op == "AddScalarNoModVec") u(x.b) + 1 <= MAXB
     else if (a.op == "AddScalarNoModAndNegTwoQiNoModVec") x.b <= 2
     else if (a.op.in(Set("MulScalarMontgomeryVec", "MulScalarMontgomeryConstantVec"))) true
     else if (a.op == "MulScalarMontgomeryAndAddVec") z.b == 0
     else if (a.op == "SubVecAndMulScalarMontgomeryTwoQiVec") y.b <= 2 and u(x.b) + 2 <= MAXB
     else if (a.op.in(Set("NTT", "NTTLazy"))) not(x.ntt) and x.b <= 1
     else if (a.op.in(Set("InvNTT", "InvNTTLazy"))) x.ntt and x.b <= 2
     else if (a.op.in(Set("MultByMonomial", "Permute", "BitReverse", "Shift"))) not(x.ntt) and x.b == 0
     else if (a.op == "Mod") not(x.ntt) and x.b == 0
     else if (a.op == "PermuteNTT") x.ntt
     else if (a.op == "PermuteNTTAndAddNoMod") x.ntt and u(x.b) + u(z.b) <= MAXB
     else true)

  pure def permuted(x: Limb, g: int, q: int): List[int] =
    if (not(CI)) autom(x.v, g, N, q)
    else range(0, N).foldl([], (l, i) => l.append(autom(unfold(x.v, N), g, 2 * N, q)[i]))

  pure def bitrev(i: int): int = {
    val bs = bitsOf(i)
    val lg = range(0, 20).foldl(0, (a, k) => if (pow2(k) < N) k + 1 else a)
    range(0, lg).foldl(0, (a, k) => a * 2 + (if (k < length(bs)) bs[k] else 0))
  }

  pure def semLimb(a: Act, x: Limb, y: Limb, z: Limb, q: int): Limb = {
    val ri = rinv(q)
    if (a.op == "Add") { v: addv(x.v, y.v, q), b: maxi(x.b, y.b), ntt: x.ntt }
    else if (a.op == "AddNoMod") { v: addv(x.v, y.v, q), b: u(x.b) + u(y.b), ntt: x.ntt }
    else if (a.op == "Sub") { v: axpy(x.v, -1, y.v, q), b: maxi(x.b, y.b), ntt: x.ntt }
    else if (a.op == "SubNoMod") { v: axpy(x.v, -1, y.v, q), b: u(x.b) + 1, ntt: x.ntt }
    else if (a.op == "MulCoeffs") { v: prodw(x, y, q), b: 0, ntt: x.ntt }
    else if (a.op == "MulCoeffsConstant") { v: prodw(x, y, q), b: 2, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomery") { v: scalev(prodw(x, y, q), ri, q), b: 0, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryConstant") { v: scalev(prodw(x, y, q), ri, q), b: 2, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryConstantAndNeg") { v: scalev(prodw(x, y, q), -ri, q), b: 2, ntt: x.ntt }
    else if (a.op == "MulCoeffsAndAdd") { v: axpy(z.v, 1, prodw(x, y, q), q), b: 0, ntt: x.ntt }
    else if (a.op == "MulCoeffsAndAddNoMod") { v: axpy(z.v, 1, prodw(x, y, q), q), b: u(z.b) + 1, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryAndAdd") { v: axpy(z.v, ri, prodw(x, y, q), q), b: 0, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryAndAddNoMod") { v: axpy(z.v, ri, prodw(x, y, q), q), b: u(z.b) + 1, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryConstantAndAddNoMod") { v: axpy(z.v, ri, prodw(x, y, q), q), b: u(z.b) + 2, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryAndSub") { v: axpy(z.v, -ri, prodw(x, y, q), q), b: 0, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryAndSubNoMod") { v: axpy(z.v, -ri, prodw(x, y, q), q), b: u(z.b) + 1, ntt: x.ntt }
    else if (a.op == "MulCoeffsMontgomeryConstantAndSubNoMod") { v: axpy(z.v, -ri, prodw(x, y, q), q), b: u(z.b) + 2, ntt: x.ntt }
    else if (a.op == "Neg") { v: scalev(x.v, -1, q), b: 1, ntt: x.ntt }
    else if (a.op == "Reduce") { v: x.v, b: 0, ntt: x.ntt }
    else if (a.op == "ReduceConstant") { v: x.v, b: 2, ntt: x.ntt }
    else if (a.op == "MForm") { v: scalev(x.v, TWO64, q), b: 0, ntt: x.ntt }
    else if (a.op == "MFormConstant") { v: scalev(x.v, TWO64, q), b: 2, ntt: x.ntt }
    else if (a.op == "InvMForm") { v: scalev(x.v, ri, q), b: 0, ntt: x.ntt }
    else if (a.op == "AddScalar" or a.op == "AddScalarBigint") { v: addw(x, a.s, q), b: 0, ntt: x.ntt }
    else if (a.op == "SubScalar" or a.op == "SubScalarBigint") { v: addw(x, -a.s, q), b: 0, ntt: x.ntt }
    else if (a.op == "MulScalar" or a.op == "MulScalarBigint") { v: scalev(x.v, a.s, q), b: 0, ntt: x.ntt }
    else if (a.op == "MulByPow2") { v: scalev(x.v, pow2(a.k), q), b: 0, ntt: x.ntt }
    else if (a.op == "MulByVectorMontgomery") { v: scalev(mulv(x.v, a.vec, q), ri, q), b: 0, ntt: false }
    else if (a.op == "MulByVectorMontgomeryAndAddNoMod")
      { v: range(0, N).foldl([], (l, i) => l.append(modp(z.v[i] + x.v[i] * a.vec[i] * ri, q))), b: u(z.b) + 1, ntt: false }
    else if (a.op == "AddVecNoModAndMulScalarMontgomeryVec") { v: scalev(addv(x.v, y.v, q), a.s * ri, q), b: 0, ntt: x.ntt }
    else if (a.op == "AddScalarNoModVec") { v: addw(x, a.s, q), b: u(x.b) + 1, ntt: x.ntt }
    else if (a.op == "AddScalarNoModAndNegTwoQiNoModVec")
      { v: addw({ v: scalev(x.v, -1, q), b: 0, ntt: x.ntt }, a.s, q), b: 3, ntt: x.ntt }
    else if (a.op == "MulScalarMontgomeryVec") { v: scalev(x.v, a.s * ri, q), b: 0, ntt: x.ntt }
    else if (a.op == "MulScalarMontgomeryConstantVec") { v: scalev(x.v, a.s * ri, q), b: 2, ntt: x.ntt }
    else if (a.op == "MulScalarMontgomeryAndAddVec") { v: axpy(z.v, a.s * ri, x.v, q), b: 0, ntt: x.ntt }
    else if (a.op == "SubVecAndMulScalarMontgomeryTwoQiVec") { v: scalev(axpy(x.v, -1, y.v, q), a.s * ri, q), b: 0, ntt: x.ntt }
    else if (a.op == "NTT") { v: x.v, b: 0, ntt: true }
    else if (a.op == "NTTLazy") { v: x.v, b: 2, ntt: true }
    else if (a.op == "InvNTT") { v: x.v, b: 0, ntt: false }
    else if (a.op == "InvNTTLazy") { v: x.v, b: 2, ntt: false }
    else if (a.op == "MultByMonomial") { v: monomial(x.v, a.k, N, q), b: 1, ntt: false }
    else if (a.op == "Permute") { v: autom(x.v, a.k, N, q), b: 1, ntt: false }
    else if (a.op == "PermuteNTT") { v: permuted(x, a.k, q), b: x.b, ntt: true }
    else if (a.op == "PermuteNTTAndAddNoMod") { v: axpy(z.v, 1, permuted(x, a.k, q), q), b: u(x.b) + u(z.b), ntt: true }
    else if (a.op == "BitReverse") { v: range(0, N).foldl([], (l, i) => l.append(x.v[bitrev(i)])), b: 0, ntt: false }
    else if (a.op == "Shift") { v: range(0, N).foldl([], (l, i) => l.append(x.v[modp(i + a.k, N)])), b: 0, ntt: false }
    else if (a.op == "Mod") { v: range(0, N).foldl([], (l, i) => l.append(modp(x.v[i], a.s))), b: 0, ntt: false }
    else if (a.op == "CopyLvl" or a.op == "CopyValues" or a.op == "Copy" or a.op == "CopyFn" or a.op == "CopyValuesLvl") x
    else z
  }

  // ---------------------------------------------------------- transitions
  def lenR(r: int): int = length(regs[r])
  // which limbs the call is about
  def touched(a: Act): Set[int] =
    if (a.op.in(VEC1)) Set(a.lvl) else 0.to(a.lvl)
  // index safe reads
  def lb(r: int, i: int): Limb = if (i < lenR(r)) regs[r][i] else regs[r][0]
  def okAct(a: Act): bool = touched(a).forall(i =>
    i < lenR(a.x) and i < lenR(a.z) and (usesY(a.op) implies i < lenR(a.y)) and okLimb(a, lb(a.x, i), lb(a.y, i), lb(a.z, i)))

  def apply(a: Act): List[Reg] = {
    val nz = range(0, lenR(a.z)).foldl([], (l, i) =>
      l.append(if (touched(a).contains(i)) semLimb(a, regs[a.x][i], lb(a.y, i), regs[a.z][i], QS[i]) else regs[a.z][i]))
    regs.replaceAt(a.z, nz)
  }
  // when a chosen call is outside the documented ranges, bring its operand back to the ordinary
  // representation with another call instead (so that behaviours never get stuck)
  def uniform(r: int, lvl: int): bool = 0.to(lvl).forall(i => regs[r][i].ntt == regs[r][0].ntt)
  def repair(a: Act): Act = {
    val bad = Set(a.x, a.y, a.z).filter(r => 0.to(lenR(r) - 1).exists(i => regs[r][i].b > 0 or regs[r][i].ntt != regs[a.x][0].ntt))
    val r = if (bad.size() == 0) a.z else bad.fold(-1, (m, e) => maxi(m, e))
    val lv = lenR(r) - 1
    if (0.to(lv).exists(i => regs[r][i].b > 0)) mk("Reduce", r, r, r, lv, true)
    else if (not(uniform(r, lv))) mk("SetBig", r, r, r, lv, true)
    else if (regs[r][0].ntt) mk("InvNTT", r, r, r, lv, lenR(r) == L)
    else mk("NTT", r, r, r, lv, lenR(r) == L)
  }

  // integer represented by coefficient j of register r up to lvl, in [0, Q)
  pure def crtConst(lvl: int): List[int] = {
    val Q = prodTo(QS, lvl + 1)
    range(0, lvl + 1).foldl([], (l, i) => l.append((Q / QS[i]) * invmod((Q / QS[i]) % QS[i], QS[i])))
  }
  pure def crt(rs: List[int], cs: List[int], Q: int): int =
    range(0, length(cs)).foldl(0, (s, i) => s + rs[i] * cs[i]) % Q
  def toBig(r: int, lvl: int, gap: int): List[int] = {
    val cs = crtConst(lvl)
    val Q = prodTo(QS, lvl + 1)
    range(0, N / gap).foldl([], (l, j) => l.append(crt(range(0, lvl + 1).foldl([], (l, i) => l.append(regs[r][i].v[j * gap])), cs, Q)))
  }
  // integers for SetCoefficients*: classes of sizes, negative values allowed
  pure def bigData(class: int, seed: int, lvl: int): List[int] = {
    val Q = prodTo(QS, lvl + 1)
    val r = rngList(seed, N)
    range(0, N).foldl([], (l, i) => l.append(if (class == 0) r[i] % 3 - 1
      else if (class == 1) r[i] * r[(i + 1) % N] * r[(i + 2) % N] % Q
      else if (class == 2) [0, 1, Q - 1, -1, (Q - 1) / 2, (Q + 1) / 2, Q - 2, 1 - Q][r[i] % 8]
      else -(r[i] * r[(i + 1) % N] % Q)))
  }
  pure def setBig(x: Reg, c: List[int], lvl: int): Reg =
    range(0, length(x)).foldl([], (l, i) => l.append(
      if (i <= lvl) { v: range(0, N).foldl([], (l, j) => l.append(modp(c[j], QS[i]))), b: 0, ntt: false } else x[i]))

  // run a call if it is within range, otherwise a repairing call
  action exec(a: Act): bool = {
    val c = if (okAct(a)) a else repair(a)
    if (c.op == "SetBig") {
      val cs = bigData(1, 7, c.lvl)
      all { regs' = regs.replaceAt(c.z, setBig(regs[c.z], cs, c.lvl)), act' = c.with("vec", cs) }
    } else all { regs' = apply(c), act' = c }
  }

  action load(r: int, class: int, seed: int): bool = all {
    regs' = regs.replaceAt(r, mkReg(class, seed, lenR(r))),
    act' = { op: "Load", x: r, y: r, z: r, lvl: lenR(r) - 1, full: true, k: class, s: seed, vec: [], out: [] }
  }

  action init = {
    nondet s = oneOf(0.to(1000000000))
    nondet c0 = oneOf(Set(0, 2, 3))
    nondet c1 = oneOf(Set(1, 2, 6))
    all {
      regs' = range(0, R).foldl([], (l, i) => l.append(mkReg(if (i == 0) 2 else if (i == 1) 3 else if (i == 2) c1 else c0, s + 7 * i, LENS[i]))),
      act' = mk("Init", 0, 0, 0, 0, true)
    }
  }

  pure val REGS = 0.to(R - 1)
  def min3(x: int, y: int, z: int): int = mini(mini(lenR(x), lenR(y)), lenR(z)) - 1
  def min2(x: int, z: int): int = mini(lenR(x), lenR(z)) - 1

  action doLoad = {
    nondet r = oneOf(REGS)  nondet class = oneOf(0.to(6))  nondet seed = oneOf(0.to(1000000000))
    load(r, class, seed)
  }
  // level for an X/XLvl pair of methods: the X method works on the common limbs
  def lvlOf(full: bool, m: int, pick: int): int = if (full) m else pick % (m + 1)

  action stepBin(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(REGS)  nondet y = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))
    exec(mk(op, x, y, z, lvlOf(full, min3(x, y, z), p), full))
  }
  action stepUn(ops: Set[str]): bool = {
    nondet op = oneOf(ops)  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))
    exec(mk(op, x, x, z, lvlOf(full, min2(x, z), p), full))
  }
  action stepTrans = {
    nondet op = oneOf(TRANS)  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))
    // the non-Lvl transforms run over every modulus of the ring
    if (full and (lenR(x) < L or lenR(z) < L)) exec(mk(op, x, x, z, min2(x, z), false))
    else exec(mk(op, x, x, z, lvlOf(full, min2(x, z), p), full))
  }
  action stepSingle = {
    nondet op = oneOf(Set("NTT", "NTTLazy", "InvNTT", "InvNTTLazy"))
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet p = oneOf(0.to(7))
    val lv = p % (min2(x, z) + 1)
    val a = mk(op, x, x, z, lv, false)
    if (okLimb(a, regs[x][lv], regs[x][lv], regs[z][lv])) all {
      regs' = regs.replaceAt(z, regs[z].replaceAt(lv, semLimb(a, regs[x][lv], regs[x][lv], regs[z][lv], QS[lv]))),
      act' = a.with("op", op.concatS("Single")) }
    else exec(repair(a))
  }
  pure def concatS(a: str, b: str): str = if (a == "NTT") "NTTSingle" else if (a == "NTTLazy") "NTTSingleLazy"
    else if (a == "InvNTT") "InvNTTSingle" else "InvNTTSingleLazy"

  action stepScal = {
    nondet op = oneOf(SCAL)  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))
    nondet e = oneOf(0.to(7))  nondet r = oneOf(0.to(1000000000))
    val lv = lvlOf(full, min2(x, z), p)
    val qmin = range(0, lv + 1).foldl(QS[0], (m, i) => mini(m, QS[i]))
    val big = rng(r) * rng(r + 1)
    // words for AddScalar/SubScalar must be reduced; MulScalar accepts any word; big integers any integer
    val s = if (op.in(Set("AddScalar", "SubScalar"))) [0, 1, qmin - 1, rng(r) % qmin, qmin / 2, 2, rng(r) % qmin, qmin - 2][e]
      else if (op == "MulScalar") [0, 1, TWO64 - 1, rng(r) % TWO64, QS[0], qmin - 1, QS[0] + 1, rng(r) % qmin][e]
      else [0, 1, -1, big, -big, QS[0], prodTo(QS, lv + 1) - 1, -rng(r)][e]
    val k = [0, 1, 63, 62, r % 64, 32, 7, 33][e]
    exec(mk(op, x, x, z, lv, full).with("s", if (op == "MulByPow2") 0 else s).with("k", if (op == "MulByPow2") k else 0))
  }
  // products of words that come out close to a multiple of the modulus: the second operand of the word at x is
  // (s + its index) divided by that word, with the factor 2^64 that the operation takes away
  pure val QUOT = Set("MulCoeffs", "MulCoeffsConstant", "MulCoeffsMontgomery", "MulCoeffsMontgomeryConstant", "MForm", "MFormConstant", "InvMForm")
  action stepQuot = {
    nondet op = oneOf(QUOT)  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet p = oneOf(0.to(7))
    nondet e = oneOf(0.to(7))  nondet r = oneOf(0.to(1000000000))
    val lv = p % (min2(x, z) + 1)
    val s = [0, 1, -N, -1, rng(r) % 1000, -(rng(r) % 1000), rng(r) % pow2(40), -(rng(r) % pow2(40))][e]
    val divides = not(op.in(Set("MForm", "MFormConstant", "InvMForm")))
    val a = mk("Quot", x, x, z, lv, false).with("s", s).with("out", [range(0, 7).foldl(0, (j, i) => if (op == ["MulCoeffs", "MulCoeffsConstant", "MulCoeffsMontgomery", "MulCoeffsMontgomeryConstant", "MForm", "MFormConstant", "InvMForm"][i]) i else j)])
    if (0.to(lv).forall(i => not(regs[x][i].ntt) and regs[x][i].b == 0))
      all { regs' = regs.replaceAt(z, range(0, lenR(z)).foldl([], (l, i) => l.append(if (i > lv) regs[z][i]
              else { v: range(0, N).foldl([], (w, j) => w.append(if (divides and regs[x][i].v[j] == 0) 0 else modp(s + j, QS[i]))),
                     b: if (op.in(Set("MulCoeffsConstant", "MulCoeffsMontgomeryConstant", "MFormConstant"))) 2 else 0, ntt: false }))), act' = a }
    else exec(mk("InvNTT", x, x, x, lenR(x) - 1, false))
  }
  // the same ring by other constructors, or after others were derived from it
  action stepRing = {
    nondet k = oneOf(0.to(5))
    all { regs' = regs, act' = mk("Ring", 0, 0, 0, 0, true).with("k", k) }
  }
  action stepVec = {
    nondet op = oneOf(VECS)  nondet x = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))  nondet r = oneOf(0.to(1000000000))
    val lv = lvlOf(full, min2(x, z), p)
    val qmin = range(0, lv + 1).foldl(QS[0], (m, i) => mini(m, QS[i]))
    // the products must fit: canonical words times reduced vector entries
    val a = mk(op, x, x, z, lv, full).with("vec", range(0, N).foldl([], (l, i) => l.append(rngList(r, N)[i] % qmin)))
    if (0.to(lv).forall(i => regs[x][i].b == 0)) exec(a) else exec(repair(a))
  }
  action stepVec1 = {
    nondet op = oneOf(VEC1)  nondet x = oneOf(REGS)  nondet y = oneOf(REGS)  nondet z = oneOf(REGS)
    nondet p = oneOf(0.to(7))  nondet r = oneOf(0.to(1000000000))
    val lv = p % (min3(x, y, z) + 1)
    val q = QS[lv]
    exec(mk(op, x, y, z, lv, false).with("s", [0, 1, q - 1, rng(r) % q][r % 4]))
  }
  // calls that run over every modulus of the ring: both polynomials at full level, different receivers
  action stepFullUn(ops: Set[str]): bool = {
    nondet op = oneOf(ops)
    nondet x = oneOf(REGS.filter(r => lenR(r) == L))  nondet z = oneOf(REGS.filter(r => lenR(r) == L))
    nondet k = oneOf(0.to(2 * N))  nondet far = oneOf(0.to(9))
    // elements and amounts out of the first period, negative amounts
    val kk =
      if (op == "Permute") 2 * k + 1 + [0, pow2(33) * (k + 1), pow2(62)][maxi(0, far - 7)]
      else if (far < 3) -k else if (far == 3) -k - pow2(40) else if (far < 7) k else if (far < 9) k + 2 * N else k + pow2(40)
    val zz = if (op == "Permute" and x == z) (if (x == 0) 1 else 0) else z
    exec(mk(op, x, x, zz, L - 1, true).with("k", kk))
  }
  action stepMod = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet full = oneOf(Set(true, false))  nondet p = oneOf(0.to(7))
    nondet r = oneOf(0.to(1000000000))
    val lv = lvlOf(full, min2(x, z), p)
    val qmin = range(0, lv + 1).foldl(QS[0], (m, i) => mini(m, QS[i]))
    exec(mk("Mod", x, x, z, lv, full).with("s", [2, 3, 65537, 256, 2 + rng(r) % (qmin - 2), 17, 1000003, qmin][r % 8]))
  }
  action stepPermNTT = {
    nondet op = oneOf(Set("PermuteNTT", "PermuteNTT", "PermuteNTTAndAddNoMod"))
    nondet x = oneOf(REGS)  nondet z0 = oneOf(REGS)  nondet p = oneOf(0.to(7))  nondet k = oneOf(0.to(NTHROOT / 2 - 1))
    nondet form = oneOf(0.to(2))  nondet far = oneOf(0.to(9))
    val z = if (z0 == x) (x + 1) % R else z0
    val full = form == 0
    val lv = lvlOf(full, min2(x, z), p)
    // the conjugate-invariant ring stores the evaluations at exponents 1 mod 4 only
    val a = mk(op, x, x, z, lv, full).with("k", (if (CI) 4 * (k / 2) + 1 else 2 * k + 1) + [0, pow2(33) * (k + 1) * 4, pow2(62)][maxi(0, far - 7)]).with("s", form)
    if (okAct(a)) exec(a)
    else if (0.to(lenR(x) - 1).forall(i => not(regs[x][i].ntt) and regs[x][i].b <= 1)) exec(mk("NTT", x, x, x, lenR(x) - 1, false))
    else exec(repair(a))
  }
  action stepCopy = {
    nondet op = oneOf(Set("CopyLvl", "CopyValuesLvl", "Copy", "CopyValues"))
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet p = oneOf(0.to(7))
    val full = op == "Copy" or op == "CopyValues"
    exec(mk(op, x, x, z, lvlOf(full, min2(x, z), p), full))
  }
  action stepZero = {
    nondet z = oneOf(REGS)
    all { regs' = regs.replaceAt(z, mkReg(0, 0, lenR(z))), act' = mk("Zero", z, z, z, lenR(z) - 1, true) }
  }
  action stepSetBig = {
    nondet z = oneOf(REGS)  nondet class = oneOf(0.to(3))  nondet seed = oneOf(0.to(1000000000))
    nondet form = oneOf(Set("SetBig", "SetBigLvl", "SetInt64", "SetUint64", "SetString"))  nondet p = oneOf(0.to(7))
    val lv = if (form == "SetBigLvl") p % lenR(z) else lenR(z) - 1
    val cs = if (form == "SetInt64") range(0, N).foldl([], (l, i) => l.append(modp(rngList(seed, N)[i], 2097152) - 1048576))
      else if (form == "SetUint64") range(0, N).foldl([], (l, i) => l.append(rngList(seed, N)[i] % TWO64))
      else bigData(class, seed, lv)
    // SetCoefficients{Int64,Uint64,String} run over every modulus
    val f = if (form.in(Set("SetInt64", "SetUint64", "SetString")) and lenR(z) < L) "SetBig" else form
    all { regs' = regs.replaceAt(z, setBig(regs[z], cs, lv)), act' = mk(f, z, z, z, lv, f != "SetBigLvl").with("vec", cs) }
  }
  // observers: registers are unchanged, `out` is the value to be returned
  action stepObserve = {
    nondet op = oneOf(Set("ToBig", "ToBigCentered", "ToString"))  nondet x = oneOf(REGS)  nondet p = oneOf(0.to(7))
    nondet g = oneOf(Set(1, 1, 2, 4))
    // PolyToString and PolyToBigint are for full-level polynomials
    val lv = if (op == "ToString") lenR(x) - 1 else p % lenR(x)
    val gap = if (op == "ToString") 1 else g
    val a = mk(op, x, x, x, lv, op == "ToString" or lv == L - 1).with("k", gap)
    if (0.to(lv).forall(i => not(regs[x][i].ntt) and regs[x][i].b == 0) and (op == "ToString" implies lenR(x) == L)) {
      val c = toBig(x, lv, gap)
      val Q = prodTo(QS, lv + 1)
      all { regs' = regs, act' = a.with("out", if (op == "ToBigCentered") range(0, N / gap).foldl([], (l, i) => l.append(centered(c[i], Q))) else c) }
    } else exec(repair(a))
  }
  // a polynomial whose evaluations are those of x, n places further: for every k, its value at the (2k+1)-th power of the root
  // is that of x at the (2(k+n)+1)-th
  action stepRotate = {
    nondet x = oneOf(REGS.filter(r => lenR(r) == L))  nondet n = oneOf((-N).to(3 * N))
    val a = mk("RotateValues", x, x, x, L - 1, true).with("k", n)
    if (0.to(L - 1).forall(i => not(regs[x][i].ntt) and regs[x][i].b <= 1)) all { regs' = regs, act' = a }
    else exec(mk("InvNTT", x, x, x, L - 1, true)) }
  // equality ignores representation flags but compares values modulo every prime
  action stepEqual = {
    nondet x = oneOf(REGS)  nondet y = oneOf(REGS)  nondet p = oneOf(0.to(7))  nondet full = oneOf(Set(true, false))
    val m = min2(x, y)
    val f = full and lenR(x) == L and lenR(y) == L
    val lv = lvlOf(f, m, p)
    if (0.to(lv).forall(i => regs[x][i].ntt == regs[y][i].ntt)) all {
      // (the code may replace words by reduced ones of the same value, so bounds can only shrink)
      regs' = regs,
      act' = mk("Equal", x, y, y, lv, f).with("out", if (0.to(lv).forall(i => regs[x][i].v == regs[y][i].v)) [1] else [0])
    } else exec(repair(mk("Add", x, y, y, lv, f)))
  }

  // -------------------------------------------- division by the last moduli
  // integers by limbs up to lvl in coefficient form; k divisions
  def divs(r: int, lvl: int, k: int, round: bool): List[int] = {
    val c = toBig(r, lvl, 1)
    val Q = prodTo(QS, lvl + 1)
    range(0, k).foldl(c, (xs, j) => {
      val q = QS[lvl - j]
      range(0, N).foldl([], (l, i) => l.append(if (round) rdiv(xs[i], q) else xs[i] / q))
    })
  }
  pure def setAll(x: Reg, c: List[int], lvl: int, ntt: bool): Reg =
    range(0, length(x)).foldl([], (l, i) => l.append(
      if (i <= lvl) { v: range(0, N).foldl([], (l, j) => l.append(modp(c[j], QS[i]))), b: 0, ntt: ntt } else x[i]))
  // b = -1 marks a limb whose content the API leaves unspecified
  action stepDiv = {
    nondet x = oneOf(REGS)  nondet z = oneOf(REGS)  nondet p = oneOf(0.to(7))  nondet kk = oneOf(0.to(3))
    nondet round = oneOf(Set(true, false))  nondet many = oneOf(Set(true, false))
    val lv = if (p < 3) lenR(x) - 1 else p % lenR(x)
    val k = if (many) mini(kk, lv) else 1
    val ntt = regs[x][0].ntt
    // the result lives on lvl+1-k limbs; the receiver needs at least those
    if (lv >= 1 and lenR(z) >= lv + 1 - k and 0.to(lv).forall(i => regs[x][i].b == 0 and regs[x][i].ntt == ntt)) all {
      regs' = {
        val c = divs(x, lv, k, round)
        val nz = setAll(regs[z], c, lv - k, ntt)
        // limbs of the receiver between the new and the old level are scratch for the call
        val nz2 = range(0, length(nz)).foldl([], (l, i) => l.append(if (i > lv - k and i <= lv) nz[i].with("b", -1) else nz[i]))
        regs.replaceAt(z, nz2)
      },
      act' = mk(if (round) "DivRound" else "DivFloor", x, x, z, lv, many).with("k", k).with("s", if (ntt) 1 else 0)
    } else exec(repair(mk("Add", x, x, x, lv, false)))
  }
  // unspecified limbs are refreshed by the next Load/Set before being read: okLimb is never
  // satisfied by them because every action first goes through `stepFresh`
  def stale: Set[int] = REGS.filter(r => 0.to(lenR(r) - 1).exists(i => regs[r][i].b < 0))
  action stepFresh = {
    nondet class = oneOf(Set(2, 3, 6))  nondet seed = oneOf(0.to(1000000000))
    nondet r = oneOf(stale)
    load(r, class, seed)
  }

  // ------------------------------------------------------------- the mixes
  action mixR01 = if (stale.size() > 0) stepFresh else any {
    stepTrans, stepTrans, stepTrans, stepSingle, doLoad, stepRing,
    stepBin(Set("MulCoeffs", "MulCoeffsMontgomery", "Add", "MulCoeffsAndAdd", "MulCoeffsMontgomeryConstant"))
  }
  action mixR02 = if (stale.size() > 0) stepFresh else any {
    stepBin(BIN), stepBin(MUL), stepBin(ACC), stepBin(ACC), stepUn(UN), stepScal, stepScal, stepVec, stepVec1, stepMod,
    stepCopy, stepZero, stepSetBig, stepObserve, stepEqual, doLoad, stepTrans, stepQuot, stepQuot, stepRing,
    if (CI) stepCopy else stepFullUn(Set("MultByMonomial", "BitReverse", "Shift"))
  }
  // the part of mixR02 that commutes with the embedding X -> X^k into a larger ring
  action mixR02L = if (stale.size() > 0) stepFresh else any {
    stepBin(BIN), stepBin(MUL), stepBin(ACC), stepUn(UN), stepMod, stepCopy, stepZero, stepSetBig, stepEqual, doLoad, stepTrans,
    if (CI) stepCopy else stepFullUn(Set("MultByMonomial"))
  }
  action mixR03 = if (stale.size() > 0) stepFresh else any {
    stepPermNTT, stepPermNTT, doLoad, stepTrans, stepRing,
    if (CI) stepPermNTT else stepFullUn(Set("Permute")), if (CI) stepPermNTT else stepFullUn(Set("Permute")), if (CI) stepPermNTT else stepRotate
  }
  action mixR05 = if (stale.size() > 0) stepFresh else any { stepDiv, stepDiv, stepDiv, stepTrans, doLoad, stepSetBig, stepRing }
  action step = mixR02

  // ------------------------------------------------------------ invariants
  val wellFormed = REGS.forall(r => 0.to(length(regs[r]) - 1).forall(i =>
    regs[r][i].b <= MAXB and regs[r][i].v.forall2(QS[i])))
  pure def forall2(v: List[int], q: int): bool = v.foldl(true, (a, x) => a and x >= 0 and x < q) and length(v) == N
}
