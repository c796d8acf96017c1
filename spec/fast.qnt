// The fast key-switching packages: frlwe (keys and key switching through an auxiliary ring T) and
// fckks (messages, encryption and evaluation on top of it).
//
// A ciphertext stands for the polynomial m it decrypts to modulo the moduli of its level, under the
// secret X -> X^g of secs[key], up to an error bounded by err. Slots follow from m: the product of two
// messages is the slot-wise product, X -> X^(5^k) rotates the slots by k.
// `aux` describes what the last call on the key level has to give (key rows, switched polynomial).
module fast {
  import lib.* from "./lib"

  const N: int
  const QS: List[int]
  const PS: List[int]
  const TS: List[int]       // auxiliary moduli
  const GAMMA: int          // moduli of P*Q per block of the external product
  const LOGSCALE: int
  const LOGSLOTS: int
  const NK: int             // secrets
  const ROTS: List[int]
  const NC: int
  const NP: int
  const BOUND: int
  const HW: int
  const LIFT: int           // the replayer works in rings LIFT times larger: X stands for X^LIFT there

  type Ct = { deg: int, lvl: int, ntt: bool, key: int, g: int, m: List[int], err: int, junk: bool, sc: int }
  type Pt = { lvl: int, ntt: bool, m: List[int], err: int, junk: bool, sc: int }
  type Act = { op: str, x: int, y: int, z: int, p: int, key: int, g: int, rot: int, new: bool, lvl: int, kind: int, dirty: bool, sc: int }
  type Aux = { a: List[int], m: List[int], err: int, sin: List[int], sout: List[int] }

  var secs: List[List[int]]
  var cts: List[Ct]
  var pts: List[Pt]
  var act: Act
  var aux: Aux

  pure val L = length(QS)
  pure val LP = length(PS)
  pure val NTH = 2 * N
  pure val UNIT = pow2(64)
  pure val DEFSC = UNIT * pow2(LOGSCALE)
  pure val GAP = N / 2 / pow2(LOGSLOTS)
  pure val RS = PS.concat(QS)
  pure val BETA = (L + LP - 1) / LP
  pure val BLOCKS = (L + LP + GAMMA - 1) / GAMMA
  pure def qTo(lvl: int): int = prodTo(QS, lvl + 1)
  pure val PALL = prod(PS)

  // ------------------------------------------------------------ integers
  pure val BIG = pow2(127) - 1
  pure def zprod(a: List[int], b: List[int]): List[int] = {
    val r = negacyclic(a, b, N, BIG)
    range(0, N).foldl([], (l, i) => l.append(centered(r[i], BIG))) }
  pure def galois(s: List[int], g: int): List[int] = {
    val r = autom(s, g, N, BIG)
    range(0, N).foldl([], (l, i) => l.append(centered(r[i], BIG))) }
  pure def galOfRot(k: int): int = powmod(5, modp(k, NTH), NTH)
  pure def galInv(g: int): int = powmod(g, NTH - 1, NTH)
  pure def l1(s: List[int]): int = s.foldl(0, (a, x) => a + absi(x))
  pure def redv(m: List[int], lvl: int): List[int] = { val q = qTo(lvl)  m.foldl([], (l, x) => l.append(modp(x, q))) }
  // size of a message: its centered representative at a level
  pure def size1(m: List[int], lvl: int): int = { val q = qTo(lvl)  m.foldl(0, (a, x) => maxi(a, absi(centered(x, q)))) }

  // ------------------------------------------------------------ errors
  pure def errEnc(pk: bool, s: List[int]): int =
    if (not(pk)) BOUND else BOUND * (HW + 1 + l1(s)) / PS[0] + 3 * (1 + l1(s)) + 3
  pure def digitMax(lvl: int): int =
    range(0, lvl + 1).foldl({ d: 1, m: 1 }, (st, i) => {
      val d = (if (i % LP == 0) 1 else st.d) * QS[i]
      { d: d, m: maxi(st.m, d) } }).m
  pure def errSwitch(lvl: int, sout: List[int]): int =
    ((lvl / LP + 1) * 2 * digitMax(lvl) * N * LIFT * BOUND) / PALL + 3 * (1 + l1(sout)) + 3
  pure def errRescale(e: int, q: int, s: List[int]): int = e / q + 2 + l1(s)
  pure def errProd(ex: int, ey: int, mx: int, my: int): int = N * LIFT * (ex * my + ey * mx + ex * ey)
  // is nothing known about a message with this error?
  pure def lost(e: int, lvl: int): bool = 16 * e >= qTo(lvl)

  // the auxiliary modulus holds the external product: beta digits times key blocks, with sign
  pure def blockMax: int = range(0, L + LP).foldl({ d: 1, m: 1 }, (st, i) => {
      val d = (if (i % GAMMA == 0) 1 else st.d) * RS[i]
      { d: d, m: maxi(st.m, d) } }).m
  val roomInT = 4 * BETA * N * LIFT * digitMax(L - 1) * blockMax < prod(TS)

  // ------------------------------------------------------------ data
  pure def secret(class: int, seed: int): List[int] = {
    val r = rngList(seed, N)
    range(0, N).foldl([], (l, i) => l.append(
      if (class == 0) r[i] % 3 - 1
      else if (class == 1) (if (i == 0 or i == N - 1 or r[i] % 8 == 0) 1 - 2 * (r[i] % 2) else 0)
      else if (class == 2) (if (r[i] % 4 == 0) 0 else 1 - 2 * (r[i] / 4 % 2))
      else r[i] % 19 - 9)) }
  // message polynomials: 0 zero, 1 small, 2 uniform, 3 extremes, 4 a monomial, 5 up to the default scale, 6 constant
  pure def msg(class: int, seed: int, lvl: int): List[int] = {
    val r = rngList(seed, N)
    val q = qTo(lvl)
    range(0, N).foldl([], (l, i) => l.append(modp(
      if (class == 0) 0
      else if (class == 1) r[i] % 2097153 - 1048576
      else if (class == 2) r[i] * 1267650600228229401496703205361 + r[modp(i + 1, N)] * 340282366920938463463374607431768211297 + r[modp(i + 5, N)] * r[modp(i + 3, N)] * r[modp(i + 2, N)] + r[modp(i + 7, N)]
      else if (class == 3) [(q - 1) / 2, (q + 1) / 2, q - 1, 1, 0][r[i] % 5]
      else if (class == 4) (if (i == seed % N) q / 3 else 0)
      else if (class == 5) r[i] % pow2(LOGSCALE + 1) - pow2(LOGSCALE)
      else (if (i == 0) pow2(LOGSCALE) else 0), q))) }
  // as small integers, in the subring of the slots
  pure def smallMsg(class: int, seed: int): List[int] = {
    val r = rngList(seed, N)
    range(0, N).foldl([], (l, i) => l.append(
      if (i % GAP != 0) 0
      else if (class == 0) 0
      else if (class == 1) r[i] % pow2(LOGSCALE - 3) - pow2(LOGSCALE - 4)
      else if (class == 2) (if (i == GAP * (seed % (N / GAP))) pow2(LOGSCALE) else 0)
      else if (class == 3) (if (i == 0) (1 - 2 * (seed % 2)) * pow2(LOGSCALE) else 0)
      else r[i] % pow2(LOGSCALE + 1) - pow2(LOGSCALE))) }
  // polynomials to switch, residue by residue: 0 zero, 1 uniform, 2 all -1, 3 around half, 4 one prime only, 5 all but one prime, 6 monomial with largest residues
  pure def word(class: int, r: int, q: int, i: int, j: int, seed: int): int =
    if (class == 0) 0
    else if (class == 1) r % q
    else if (class == 2) q - 1
    else if (class == 3) [q / 2, q / 2 + 1, q - 1, 0, 1][r % 5]
    else if (class == 4) (if (j == seed % L) r % q else 0)
    else if (class == 5) (if (j == seed % L) 0 else q - 1)
    else (if (i == seed % N) q - 1 else 0)

  pure def mk(op: str): Act =
    { op: op, x: 0, y: 0, z: 0, p: 0, key: 0, g: 1, rot: 0, new: false, lvl: 0, kind: 0, dirty: false, sc: 0 }
  pure val NOAUX: Aux = { a: [], m: [], err: 0, sin: [], sout: [] }
  pure val CREGS = 0.to(NC - 1)
  pure val PREGS = 0.to(NP - 1)
  pure val KEYS = 0.to(NK - 1)
  pure val ROTSET = ROTS.foldl(Set(), (s, k) => s.union(Set(k)))

  action init = {
    nondet s = oneOf(0.to(1000000000))
    all {
      secs' = range(0, NK).foldl([], (l, k) => l.append(secret((s + k) % 4, s + 31 * k))),
      cts' = range(0, NC).foldl([], (l, i) => l.append({ deg: 1, lvl: L - 1 - (i % L), ntt: true, key: 0, g: 1, m: redv(smallMsg(1, s + i), L - 1 - (i % L)), err: 1, junk: false, sc: DEFSC })),
      pts' = range(0, NP).foldl([], (l, i) => l.append({ lvl: L - 1 - (i % L), ntt: (s + i) % 3 > 0, m: msg(2, s + 7 * i, L - 1 - (i % L)), err: 0, junk: false, sc: DEFSC })),
      act' = mk("Init"), aux' = NOAUX
    }
  }
  action setCt(z: int, c: Ct, a: Act): bool = all { cts' = cts.replaceAt(z, c), act' = a, aux' = NOAUX, secs' = secs, pts' = pts }
  action setPt(p: int, c: Pt, a: Act): bool = all { pts' = pts.replaceAt(p, c), act' = a, aux' = NOAUX, secs' = secs, cts' = cts }
  action idle = all { act' = mk("Idle"), aux' = NOAUX, secs' = secs, cts' = cts, pts' = pts }

  // ciphertexts made by the replayer, any message, any error-free degree
  action stepLoadCt = {
    nondet z = oneOf(CREGS)  nondet lvl = oneOf(0.to(L - 1))  nondet class = oneOf(0.to(6))  nondet deg = oneOf(Set(1, 1, 2, 3))  nondet key = oneOf(KEYS)
    nondet s = oneOf(0.to(1000000000))  nondet ntt = oneOf(0.to(5))
    setCt(z, { deg: deg, lvl: lvl, ntt: ntt != 0, key: key, g: 1, m: msg(class, s, lvl), err: 1, junk: false, sc: DEFSC }, mk("LoadCt").with("z", z)) }
  action stepLoadPt = {
    nondet p = oneOf(PREGS)  nondet lvl = oneOf(0.to(L - 1))  nondet ntt = oneOf(Set(true, false))  nondet class = oneOf(0.to(6))
    nondet s = oneOf(0.to(1000000000))
    setPt(p, { lvl: lvl, ntt: ntt, m: msg(class, s, lvl), err: 0, junk: false, sc: DEFSC }, mk("LoadPt").with("p", p)) }

  // ------------------------------------------------------------ messages
  // encode at the default scale and encrypt: the receiver keeps its level and representation
  action stepEncMsg = {
    nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet key = oneOf(KEYS)  nondet class = oneOf(0.to(4))  nondet s = oneOf(0.to(1000000000))
    val c = cts[z]
    val lvl = if (new) L - 1 else c.lvl
    val m = smallMsg(class, s)
    all {
      cts' = cts.replaceAt(z, { deg: 1, lvl: lvl, ntt: new or c.ntt, key: key, g: 1, m: redv(m, lvl), err: 2 + errEnc(true, secs[key]), junk: false, sc: DEFSC }),
      act' = mk("EncryptMsg").with("z", z).with("new", new).with("key", key),
      aux' = { ...NOAUX, m: m }, secs' = secs, pts' = pts } }
  action stepEncPt = {
    nondet z = oneOf(CREGS)  nondet p = oneOf(PREGS)  nondet key = oneOf(KEYS)
    val c = cts[z]
    val lvl = mini(c.lvl, pts[p].lvl)
    setCt(z, { deg: 1, lvl: lvl, ntt: c.ntt, key: key, g: 1, m: redv(pts[p].m, lvl), err: pts[p].err + errEnc(true, secs[key]), junk: pts[p].junk, sc: pts[p].sc },
      mk("EncryptPt").with("z", z).with("p", p).with("key", key)) }
  action stepDec = {
    nondet x = oneOf(CREGS)  nondet p = oneOf(PREGS)
    val c = cts[x]
    val lvl = mini(c.lvl, pts[p].lvl)
    if (c.junk) idle
    else setPt(p, { lvl: lvl, ntt: pts[p].ntt, m: redv(c.m, lvl), err: c.err, junk: lost(c.err, lvl), sc: c.sc },
      mk("Decrypt").with("x", x).with("p", p).with("key", c.key).with("g", c.g)) }
  // the message in the slots, as long as it is not spread over the whole modulus
  pure def clear(c: Ct): bool = not(c.junk) and 4 * (size1(c.m, c.lvl) + c.err) < qTo(c.lvl)
  action stepDecMsg = {
    nondet x0 = oneOf(CREGS)  nondet new = oneOf(Set(true, false))
    val good = CREGS.filter(r => clear(cts[r]))
    if (size(good) == 0) stepEncMsg
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      all { act' = mk("DecryptMsg").with("x", x).with("new", new).with("key", c.key).with("g", c.g), aux' = NOAUX, secs' = secs, cts' = cts, pts' = pts } } }

  // ------------------------------------------------------------ evaluation
  // a register the evaluator accepts: degree one, in the representation evaluators use
  pure def ready(c: Ct): bool = c.deg == 1 and c.ntt and not(c.junk) and c.g == 1
  action stepMulRelin = {
    nondet x0 = oneOf(CREGS)  nondet y0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))
    val good = CREGS.filter(r => ready(cts[r]))
    if (size(good) == 0) stepEncMsg
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val mates = good.filter(r => cts[r].key == cts[x].key)
      val y = if (mates.contains(y0)) y0 else x
      val cx = cts[x]
      val cy = cts[y]
      val lvl = if (new) mini(cx.lvl, cy.lvl) else mini(mini(cx.lvl, cy.lvl), cts[z].lvl)
      val e = errProd(cx.err, cy.err, size1(cx.m, lvl), size1(cy.m, lvl)) + errSwitch(lvl, secs[cx.key])
      if (not(new) and not(cts[z].ntt) or cx.sc * cy.sc / UNIT > UNIT * pow2(200)) stepEncMsg
      else setCt(z, { deg: 1, lvl: lvl, ntt: true, key: cx.key, g: 1, m: negacyclic(redv(cx.m, lvl), redv(cy.m, lvl), N, qTo(lvl)), err: e, junk: lost(e, lvl), sc: cx.sc * cy.sc / UNIT },
        mk("MulRelin").with("x", x).with("y", y).with("z", z).with("new", new).with("key", cx.key)) } }
  action stepRotate = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet k = oneOf(ROTSET)
    val good = CREGS.filter(r => ready(cts[r]))
    if (size(good) == 0 or not(new) and not(cts[z].ntt)) stepEncMsg
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      val lvl = if (new) c.lvl else mini(c.lvl, cts[z].lvl)
      val e = c.err + errSwitch(lvl, secs[c.key])
      setCt(z, { ...c, lvl: lvl, m: autom(redv(c.m, lvl), galOfRot(k), N, qTo(lvl)), err: e, junk: lost(e, lvl) },
        mk("Rotate").with("x", x).with("z", z).with("new", new).with("key", c.key).with("rot", k)) } }
  // with the keys of a rotation: the secret of the result is the inverse image of the secret
  action stepSwitchKeys = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet k = oneOf(ROTSET)
    val good = CREGS.filter(r => ready({ ...cts[r], ntt: true }))
    if (size(good) == 0) stepLoadCt
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      if (new and not(c.ntt)) stepLoadCt
      else {
        val lvl = if (new) c.lvl else mini(c.lvl, cts[z].lvl)
        val e = c.err + errSwitch(lvl, secs[c.key])
        setCt(z, { ...c, lvl: lvl, g: galInv(galOfRot(k)), m: redv(c.m, lvl), err: e, junk: lost(e, lvl) },
          mk("SwitchKeys").with("x", x).with("z", z).with("new", new).with("key", c.key).with("rot", k)) } } }
  action stepLinear = {
    nondet x0 = oneOf(CREGS)  nondet y0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet sub = oneOf(Set(true, false))
    val good = CREGS.filter(r => cts[r].deg == 1 and cts[r].ntt and not(cts[r].junk))
    if (size(good) == 0 or not(new) and not(cts[z].ntt)) stepEncMsg
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val mates = good.filter(r => cts[r].key == cts[x].key and cts[r].g == cts[x].g and cts[r].sc == cts[x].sc)
      val y = if (mates.contains(y0)) y0 else x
      val cx = cts[x]
      val cy = cts[y]
      val lvl = if (new) mini(cx.lvl, cy.lvl) else mini(mini(cx.lvl, cy.lvl), cts[z].lvl)
      val e = cx.err + cy.err
      setCt(z, { ...cx, lvl: lvl, m: axpy(redv(cx.m, lvl), if (sub) -1 else 1, redv(cy.m, lvl), qTo(lvl)), err: e, junk: lost(e, lvl) },
        mk(if (sub) "Sub" else "Add").with("x", x).with("y", y).with("z", z).with("new", new)) } }
  // in place, by as many primes as the default scale allows
  pure def nbRescale(sc: int, lvl: int): { n: int, sc: int, go: bool } =
    range(0, lvl).foldl({ n: 0, sc: sc, go: true }, (st, i) => {
      val q = QS[lvl - st.n]
      if (st.go and 2 * st.sc >= DEFSC * q) { n: st.n + 1, sc: st.sc / q, go: true } else st.with("go", false) })
  pure def sharp(sc: int, lvl: int): bool =
    range(0, lvl).foldl({ n: 0, sc: sc, ok: true }, (st, i) => {
      val q = QS[lvl - st.n]
      val d = absi(2 * st.sc - DEFSC * q)
      { n: st.n + 1, sc: st.sc / q, ok: st.ok and d * pow2(30) > DEFSC * q } }).ok
  action stepRescale = {
    nondet x = oneOf(CREGS)
    val c = cts[x]
    val r = nbRescale(c.sc, c.lvl)
    if (c.junk or not(c.ntt) or c.deg != 1 or r.n == 0 or not(sharp(c.sc, c.lvl))) stepMulRelin
    else {
      val lvl = c.lvl - r.n
      val st = range(0, r.n).foldl({ m: c.m, e: c.err }, (a, i) => {
        val q = QS[c.lvl - i]
        val full = qTo(c.lvl - i)
        { m: a.m.foldl([], (l, v) => l.append(rdiv(centered(v, full), q))), e: errRescale(a.e, q, secs[c.key]) } })
      setCt(x, { ...c, lvl: lvl, m: redv(st.m, lvl), err: st.e, junk: lost(st.e, lvl), sc: r.sc }, mk("Rescale").with("x", x).with("z", x)) } }
  action stepDrop = {
    nondet x = oneOf(CREGS)
    val c = cts[x]
    if (c.lvl == 0 or c.junk) idle
    else setCt(x, { ...c, lvl: c.lvl - 1, m: redv(c.m, c.lvl - 1), junk: lost(c.err, c.lvl - 1) }, mk("DropLevel").with("x", x).with("z", x)) }

  // ------------------------------------------------------------ keys and key switching
  // kind 0: relinearization (s^2 to s), 1: rotation (s to its inverse image)
  pure def keySin(kind: int, s: List[int]): List[int] = if (kind == 0) zprod(s, s) else s
  pure def keySout(kind: int, k: int, s: List[int]): List[int] = if (kind == 0) s else galois(s, galInv(galOfRot(k)))
  action stepKeyGen = {
    nondet key = oneOf(KEYS)  nondet kind = oneOf(Set(0, 1))  nondet k = oneOf((-N).to(N))
    all { act' = mk("GenKey").with("key", key).with("kind", kind).with("rot", k),
          aux' = { ...NOAUX, sin: keySin(kind, secs[key]), sout: keySout(kind, k, secs[key]) }, secs' = secs, cts' = cts, pts' = pts } }
  action stepGenSkPk = {
    nondet key = oneOf(KEYS)  nondet kind = oneOf(Set(0, 1, 2))
    all { act' = mk("GenSkPk").with("key", key).with("kind", kind), aux' = { ...NOAUX, sout: secs[key] }, secs' = secs, cts' = cts, pts' = pts } }
  pure def crt(res: List[int], lvl: int): int =
    range(0, lvl + 1).foldl({ x: 0, m: 1 }, (st, j) => {
      val q = QS[j]
      val t = modp((res[j] - st.x) * invmod(st.m, q), q)
      { x: st.x + t * st.m, m: st.m * q } }).x
  action stepSwitchPoly = {
    nondet key = oneOf(KEYS)  nondet kind = oneOf(Set(0, 1))  nondet k = oneOf(ROTSET)  nondet lvl = oneOf(0.to(L - 1))  nondet class = oneOf(Set(0, 1, 1, 2, 3, 4, 5, 6))
    nondet s = oneOf(0.to(1000000000))  nondet alias = oneOf(0.to(3))  nondet dirty = oneOf(Set(true, false))
    val r = rngList(s, N)
    val a = range(0, N).foldl([], (l, i) => l.append(
      crt(range(0, lvl + 1).foldl([], (w, j) => w.append(word(class, r[i] / (j * 7919 + 1) + j * r[modp(i + j, N)], QS[j], i, j, s))), lvl)))
    val sin = keySin(kind, secs[key])
    val sout = keySout(kind, k, secs[key])
    all { act' = mk("SwitchPoly").with("key", key).with("kind", kind).with("rot", k).with("lvl", lvl).with("x", alias).with("dirty", dirty),
          aux' = { a: a, m: negacyclic(a, sin, N, qTo(lvl)), err: errSwitch(lvl, sout), sin: sin, sout: sout }, secs' = secs, cts' = cts, pts' = pts } }

  // requests that cannot be carried out: 1 a product of degree above two, 2 rotation or 3 switching of another degree
  // than one, 4 a product of something outside the NTT domain, 5 switching of a polynomial in the NTT domain, 6 sum or
  // difference of two plaintexts
  action stepRefuse = {
    nondet x0 = oneOf(CREGS)  nondet y0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet k = oneOf(ROTSET)
    nondet w0 = oneOf(1.to(6))  nondet side = oneOf(Set(true, false))  nondet lvl = oneOf(0.to(L - 1))
    val high = CREGS.filter(r => cts[r].deg > 1)
    val raw = CREGS.filter(r => cts[r].deg == 1 and not(cts[r].ntt))
    val w = if ((w0 <= 3 and size(high) == 0) or (w0 == 4 and size(raw) == 0)) 5 else w0
    val pool = if (w <= 3) high else if (w == 4) raw else CREGS
    val x = if (pool.contains(x0)) x0 else pool.fold(0, (a, r) => maxi(a, r))
    val swap = side and (w == 1 or w == 4)
    all { act' = mk("Refuse").with("kind", w).with("x", if (swap) y0 else x).with("y", if (swap) x else y0).with("z", z).with("new", new).with("key", cts[x].key)
            .with("rot", k).with("lvl", lvl).with("dirty", side),
          aux' = NOAUX, secs' = secs, cts' = cts, pts' = pts } }
  action mixE01 = any { stepRefuse, stepRefuse, stepRefuse, stepLoadCt, stepLoadCt, stepLinear, stepMulRelin, stepRotate }
  action mixF01 = any { stepEncMsg, stepEncMsg, stepDecMsg, stepDecMsg, stepDec, stepEncPt, stepLoadCt, stepLoadPt, stepMulRelin, stepMulRelin, stepMulRelin, stepRotate, stepRotate, stepRotate,
                        stepSwitchKeys, stepSwitchKeys, stepLinear, stepRescale, stepRescale, stepDrop }
  // the same operands again and again, changed in place in between
  action mixAgain = any { stepRotate, stepRotate, stepRotate, stepRotate, stepLinear, stepLinear, stepLinear, stepMulRelin, stepSwitchKeys, stepRescale, stepLoadCt }
  action mixF02 = any { stepSwitchPoly, stepSwitchPoly, stepSwitchPoly, stepSwitchPoly, stepKeyGen, stepGenSkPk }
  action mixK02 = any { stepKeyGen, stepKeyGen, stepGenSkPk }
  action step = mixF01

  val wellFormed = and {
    CREGS.forall(r => { val c = cts[r]  c.lvl >= 0 and c.lvl < L and length(c.m) == N and c.deg >= 1 and c.sc >= UNIT }),
    PREGS.forall(r => { val p = pts[r]  p.lvl >= 0 and p.lvl < L and length(p.m) == N }) }
}
