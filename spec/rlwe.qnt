// Generic RLWE (package rlwe): secrets, encryption, decryption, evaluation keys, key switching,
// and the maps between rings.
//
// Three rings may be in play, all with the same moduli:
//   dim 0  the main ring, degree N (conjugate-invariant when CI)
//   dim 1  a standard ring of smaller degree NS (0: none)
//   dim 2  the conjugate-invariant ring of degree N/2 (when NCI > 0)
// State: the secrets (chosen by the specification), plaintexts and ciphertexts. A ciphertext stands for
//   the polynomial m it decrypts to modulo the moduli of its level, under `key`, up to an error `err`
//   (bound on the coefficients). `junk` marks a message nothing is known about.
// `out` describes the evaluation keys the last call returned: for every key its row relation
//   b_i + a_i * sout = P * [row i] * sin + small error, modulo every prime of Q and P.
module rlwe {
  import lib.* from "./lib"

  const N: int
  const CI: bool
  const NS: int
  const NCI: int
  const QS: List[int]
  const PS: List[int]
  const SECD: List[int]             // the dim of every secret
  const SWKS: List[List[int]]       // switching keys [in, out, levelQ, levelP, level of the input key]
  const NC: int
  const NP: int
  const BOUND: int                  // bound on fresh error coefficients
  const HW: int                     // Hamming weight of ephemeral secrets
  const LIFT: int                   // the replayer works in rings LIFT times larger: X stands for X^LIFT there

  type Ct = { dim: int, deg: int, lvl: int, ntt: bool, key: int, m: List[int], err: int, junk: bool, sc: int }
  type Pt = { lvl: int, ntt: bool, m: List[int], err: int, junk: bool, sc: int }
  type Swk = { id: int, sin: List[int], sout: List[int], lq: int, lp: int }
  type Act = { op: str, x: int, z: int, p: int, key: int, kind: int, who: int, api: int, new: bool, ntt: bool, lvl: int, deg: int, ks: List[int], dirty: bool, sc: int }

  var secs: List[List[int]]
  var cts: List[Ct]
  var pts: List[Pt]
  var act: Act
  var out: List[Swk]

  pure val L = length(QS)
  pure val LP = length(PS)
  pure def qTo(lvl: int): int = prodTo(QS, lvl + 1)
  pure def degOf(dim: int): int = if (dim == 0) N else if (dim == 1) NS else NCI
  pure def ciOf(dim: int): bool = if (dim == 0) CI else dim == 2
  pure def factor(dim: int): int = if (ciOf(dim)) 2 else 1
  pure def l1(s: List[int]): int = s.foldl(0, (a, x) => a + absi(x))
  pure def pTo(lp: int): int = prodTo(PS, lp + 1)
  pure val NTH = if (CI) 4 * N else 2 * N

  // ------------------------------------------------------------ maps between the rings, over the integers
  pure def mapUp(s: List[int]): List[int] = {
    val gap = N / length(s)
    range(0, N).foldl([], (l, i) => l.append(if (i % gap == 0) s[i / gap] else 0)) }
  pure def mapDown(s: List[int], n: int): List[int] = {
    val gap = N / n
    range(0, n).foldl([], (l, i) => l.append(s[i * gap])) }
  // p + p(1/X), read in the basis 1, X^i + X^-i
  pure def fold2(p: List[int]): List[int] =
    range(0, N / 2).foldl([], (l, i) => l.append(if (i == 0) 2 * p[0] else p[i] - p[N - i]))
  // a secret as a polynomial of the ring it is used in
  pure def seen(s: List[int], kdim: int, dim: int): List[int] =
    if (kdim == dim) s else if (kdim == 1) mapUp(s) else unfold(s, NCI)
  // exact product over the integers (operands small): modulo a large odd number, centered
  pure val BIG = pow2(127) - 1
  pure def zprod(a: List[int], b: List[int], dim: int): List[int] = {
    val r = if (ciOf(dim)) conjInvProd(a, b, degOf(dim), BIG) else negacyclic(a, b, degOf(dim), BIG)
    range(0, length(a)).foldl([], (l, i) => l.append(centered(r[i], BIG))) }
  pure def galois(s: List[int], g: int): List[int] = {
    val r = if (CI) { val u = autom(unfold(s, N), g, 2 * N, BIG)  range(0, N).foldl([], (l, i) => l.append(u[i])) } else autom(s, g, N, BIG)
    range(0, N).foldl([], (l, i) => l.append(centered(r[i], BIG))) }
  pure def galOfRot(k: int): int = powmod(5, modp(k, NTH), NTH)
  pure def galInv(g: int): int = powmod(g, NTH - 1, NTH)

  // ------------------------------------------------------------ errors
  pure def errEnc(pk: bool, s: List[int]): int = {
    val c = if (CI) 2 else 1
    if (not(pk)) BOUND
    else if (LP == 0) BOUND * (c * HW + 1 + c * l1(s))
    else BOUND * (c * HW + 1 + c * l1(s)) / PS[0] + 3 * (1 + c * l1(s)) + 3 }
  // switching at a level with a key of levelP lp: digits (below twice their modulus) times key errors, over P, plus rounding
  pure def digitMax(lvl: int, alpha: int): int =
    range(0, lvl + 1).foldl({ d: 1, m: 1 }, (st, i) => {
      val d = (if (i % alpha == 0) 1 else st.d) * QS[i]
      { d: d, m: maxi(st.m, d) } }).m
  pure def errSwitch(lvl: int, lp: int, sout: List[int]): int = {
    val c = if (CI) 2 else 1
    val beta = lvl / (lp + 1) + 1
    (beta * 2 * digitMax(lvl, lp + 1) * N * LIFT * c * BOUND) / pTo(lp) + 3 * (1 + c * l1(sout)) + 3 }

  // ------------------------------------------------------------ evaluation keys
  // factor of row i modulo the j-th prime of Q: P if the prime belongs to digit i; 0 modulo the primes of P
  pure def rowFactor(lp: int, i: int, j: int): int = if (j / (lp + 1) == i) pTo(lp) else 0
  pure def wOf(w: List[int], ss: List[List[int]]): Swk =
    { id: 0, sin: seen(ss[w[0]], SECD[w[0]], 0), sout: seen(ss[w[1]], SECD[w[1]], 0), lq: w[2], lp: w[3] }

  // ------------------------------------------------------------ data
  pure def secret(class: int, seed: int, n: int): List[int] = {
    val r = rngList(seed, n)
    range(0, n).foldl([], (l, i) => l.append(
      if (class == 0) r[i] % 3 - 1
      else if (class == 1) (if (i == 0 or i == n - 1 or r[i] % 8 == 0) 1 - 2 * (r[i] % 2) else 0)
      else if (class == 2) (if (r[i] % 4 == 0) 0 else 1 - 2 * (r[i] / 4 % 2))
      else r[i] % 39 - 19)) }
  pure def msg(class: int, seed: int, n: int, lvl: int): List[int] = {
    val r = rngList(seed, n)
    val q = qTo(lvl)
    range(0, n).foldl([], (l, i) => l.append(modp(
      if (class == 0) 0
      else if (class == 1) r[i] % 2097153 - 1048576
      else if (class == 2) r[i] * 1267650600228229401496703205361 + r[modp(i + 1, n)] * 340282366920938463463374607431768211297 + r[modp(i + 5, n)]
      else if (class == 3) [(q - 1) / 2, (q + 1) / 2, q - 1, 1, 0][r[i] % 5]
      else if (class == 4) (if (i == seed % n) q / 3 else 0)
      else pow2(r[i] % 30), q))) }
  pure def redv(m: List[int], lvl: int): List[int] = { val q = qTo(lvl)  m.foldl([], (l, x) => l.append(modp(x, q))) }

  pure def mk(op: str): Act =
    { op: op, x: 0, z: 0, p: 0, key: 0, kind: 0, who: 0, api: 0, new: false, ntt: true, lvl: 0, deg: 1, ks: [], dirty: false, sc: 0 }
  pure val CREGS = 0.to(NC - 1)
  pure val PREGS = 0.to(NP - 1)
  pure val KEYS0 = 0.to(length(SECD) - 1).filter(k => SECD[k] == 0)
  pure val KEYS1 = 0.to(length(SECD) - 1).filter(k => SECD[k] == 1)
  pure val KEYS2 = 0.to(length(SECD) - 1).filter(k => SECD[k] == 2)

  action init = {
    nondet s = oneOf(0.to(1000000000))
    val ss = range(0, length(SECD)).foldl([], (l, k) => l.append(secret((s + k) % 4, s + 31 * k, degOf(SECD[k]))))
    all {
      secs' = ss,
      cts' = range(0, NC).foldl([], (l, i) => l.append({ dim: 0, deg: 1, lvl: L - 1 - (i % L), ntt: (s + i) % 2 == 0, key: 0, m: msg(1, s + i, N, L - 1 - (i % L)), err: 1, junk: false, sc: 30 })),
      pts' = range(0, NP).foldl([], (l, i) => l.append({ lvl: L - 1 - (i % L), ntt: (s + i) % 3 > 0, m: msg(2, s + 7 * i, N, L - 1 - (i % L)), err: 0, junk: false, sc: 20 + i })),
      act' = mk("Init"), out' = []
    }
  }
  // a ciphertext made by the replayer under a chosen key, in a chosen ring
  action loadCt(z: int, dim: int, deg: int, lvl: int, ntt: bool, key: int, class: int, s: int): bool = all {
    cts' = cts.replaceAt(z, { dim: dim, deg: deg, lvl: lvl, ntt: ntt, key: key, m: msg(class, s, degOf(dim), lvl), err: 1, junk: false, sc: 30 }),
    act' = mk("LoadCt").with("z", z), out' = [], secs' = secs, pts' = pts }

  action stepLoadPt = {
    nondet p = oneOf(PREGS)  nondet lvl = oneOf(0.to(L - 1))  nondet ntt = oneOf(Set(true, false))  nondet class = oneOf(0.to(5))
    nondet s = oneOf(0.to(1000000000))  nondet sc = oneOf(10.to(40))
    all { pts' = pts.replaceAt(p, { lvl: lvl, ntt: ntt, m: msg(class, s, N, lvl), err: 0, junk: false, sc: sc }),
          act' = mk("LoadPt").with("p", p), out' = [], secs' = secs, cts' = cts } }
  action stepLoadCt = {
    nondet z = oneOf(CREGS)  nondet lvl = oneOf(0.to(L - 1))  nondet ntt = oneOf(Set(true, false))  nondet class = oneOf(0.to(5))
    nondet s = oneOf(0.to(1000000000))  nondet key = oneOf(KEYS0)  nondet deg = oneOf(Set(1, 1, 2, 3))
    loadCt(z, 0, deg, lvl, ntt, key, class, s) }

  // ------------------------------------------------------------ encryption
  // into a new ciphertext, or over whatever the register holds (any degree and level, main ring)
  action stepEncrypt = {
    nondet p = oneOf(PREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet key = oneOf(KEYS0)  nondet pk = oneOf(Set(0, 1))
    nondet who = oneOf(0.to(3))  nondet ntt = oneOf(Set(true, false))  nondet api = oneOf(Set(0, 0, 1))  nondet lvl = oneOf(0.to(L - 1))
    val fresh = new or cts[z].dim != 0
    val rl = if (fresh) (if (api == 1) pts[p].lvl else lvl) else cts[z].lvl
    val rn = if (fresh) (if (api == 1) true else ntt) else cts[z].ntt
    val ol = mini(pts[p].lvl, rl)
    all {
      cts' = cts.replaceAt(z, { dim: 0, deg: 1, lvl: ol, ntt: rn, key: key, m: redv(pts[p].m, ol), err: pts[p].err + errEnc(pk == 1, secs[key]), junk: pts[p].junk,
                                sc: if (api == 1) pts[p].sc else if (fresh) 30 else cts[z].sc }),
      act' = mk("Encrypt").with("p", p).with("z", z).with("new", fresh).with("key", key).with("kind", pk).with("who", who).with("api", api).with("ntt", rn).with("lvl", rl),
      out' = [], secs' = secs, pts' = pts } }
  action stepEncryptCRP = {
    nondet p = oneOf(PREGS)  nondet z = oneOf(CREGS)  nondet new = oneOf(Set(true, false))  nondet key = oneOf(KEYS0)
    nondet who = oneOf(0.to(3))  nondet ntt = oneOf(Set(true, false))  nondet api = oneOf(Set(0, 0, 1))  nondet lvl = oneOf(0.to(L - 1))  nondet s = oneOf(0.to(9))
    val fresh = new or cts[z].dim != 0
    val rl = if (fresh) (if (api == 1) pts[p].lvl else lvl) else cts[z].lvl
    val rn = if (fresh) (if (api == 1) true else ntt) else cts[z].ntt
    val ol = mini(pts[p].lvl, rl)
    // the reference polynomial has at least the level of the result
    all {
      cts' = cts.replaceAt(z, { dim: 0, deg: 1, lvl: ol, ntt: rn, key: key, m: redv(pts[p].m, ol), err: pts[p].err + errEnc(false, secs[key]), junk: pts[p].junk,
                                sc: if (api == 1) pts[p].sc else if (fresh) 30 else cts[z].sc }),
      act' = mk("EncryptFromCRP").with("p", p).with("z", z).with("new", fresh).with("key", key).with("who", who).with("api", api).with("ntt", rn)
        .with("lvl", rl).with("deg", if (s < 5) L - 1 else ol),
      out' = [], secs' = secs, pts' = pts } }
  // under a public key (k0, k1) that hides nothing, two constants the specification chooses: there must be one ephemeral u,
  // of coefficients -1, 0, 1 and Hamming weight HW, and small errors e0, e1 with
  //   c0 = (u * k0 + e0) / P + m  and  c1 = (u * k1 + e1) / P   (P is 1 when the parameters have no P)
  // k0 and k1 are P * 2^ks[i] + h, so that u can be read off the quotient; h is where a division by P rounds (0, P / 2, or the last
  // value below P a double tells from it), so that the errors show in the rounding
  action stepEncryptKnown = {
    nondet p = oneOf(PREGS)  nondet who = oneOf(0.to(2))  nondet ntt = oneOf(Set(true, false))  nondet lvl = oneOf(0.to(L - 1))
    nondet k0 = oneOf(8.to(16))  nondet k1 = oneOf(8.to(16))  nondet h = oneOf(0.to(2))  nondet api = oneOf(Set(0, 1))
    all {
      act' = mk("EncryptKnown").with("p", p).with("who", who).with("api", api).with("ntt", ntt).with("lvl", lvl).with("deg", mini(lvl, pts[p].lvl)).with("ks", [k0, k1, h]),
      out' = [], secs' = secs, cts' = cts, pts' = pts } }
  // with the right key or with another one
  action stepDecrypt = {
    nondet x = oneOf(CREGS)  nondet p = oneOf(PREGS)  nondet new = oneOf(Set(true, false))  nondet ok = oneOf(Set(0, 0, 1))  nondet other = oneOf(KEYS0)
    nondet who = oneOf(0.to(3))  nondet ntt = oneOf(Set(true, false))  nondet api = oneOf(Set(0, 0, 1))  nondet lvl = oneOf(0.to(L - 1))
    nondet s = oneOf(0.to(1000000000))
    val c = cts[x]
    // any degree
    if (c.dim != 0 or not(KEYS0.contains(c.key)) or c.junk or s % 8 == 0) loadCt(x, 0, if (s / 8 % 2 == 0) 1 + s % 2 else 1 + s / 16 % 17, lvl, ntt, other, s % 6, s)
    else {
      val key = if (ok == 0) c.key else other
      val rl = if (new) (if (api == 1) c.lvl else lvl) else pts[p].lvl
      val rn = if (new) (if (api == 1) true else ntt) else pts[p].ntt
      val ol = mini(c.lvl, rl)
      all {
        pts' = pts.replaceAt(p, { lvl: ol, ntt: rn, m: redv(c.m, ol), err: c.err, junk: key != c.key or secs[key] != secs[c.key],
                                  sc: if (api == 1) c.sc else if (new) 20 else pts[p].sc }),
        act' = mk("Decrypt").with("x", x).with("p", p).with("new", new).with("key", key).with("who", who).with("api", api).with("ntt", rn).with("lvl", rl),
        out' = [], secs' = secs, cts' = cts } } }
  // element operations
  action stepElement = {
    nondet x = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet k = oneOf(0.to(3))  nondet p = oneOf(PREGS)  nondet p2 = oneOf(PREGS)
    val c = cts[x]
    // a plaintext over another one: the rows both have
    if (k == 3 and pts[p2].lvl <= pts[p].lvl)
      all { pts' = pts.replaceAt(p2, { ...pts[p], lvl: pts[p2].lvl, m: redv(pts[p].m, pts[p2].lvl), sc: pts[p2].sc }), act' = mk("CopyPt").with("x", p).with("p", p2), out' = [], secs' = secs, cts' = cts }
    else if (k == 0) all { cts' = cts.replaceAt(z, c), act' = mk("CopyNew").with("x", x).with("z", z), out' = [], secs' = secs, pts' = pts }
    else if (k == 1 and cts[z].dim == c.dim and cts[z].deg == c.deg and cts[z].lvl == c.lvl)
      all { cts' = cts.replaceAt(z, { ...c, sc: c.sc }), act' = mk("Copy").with("x", x).with("z", z), out' = [], secs' = secs, pts' = pts }
    else if (c.dim == 0 and c.deg == 1)
      all { cts' = cts.replaceAt(x, { ...c, deg: 2 }), act' = mk("Resize").with("x", x).with("z", x).with("deg", 2), out' = [], secs' = secs, pts' = pts }
    else all { cts' = cts, act' = mk("Idle"), out' = [], secs' = secs, pts' = pts } }

  // ------------------------------------------------------------ key switching
  // the last component of a ciphertext of degree 1 goes from key a to key b
  action stepSwitch = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet w = oneOf(0.to(length(SWKS) - 1))  nondet kind = oneOf(0.to(4))  nondet who = oneOf(0.to(1))
    nondet class = oneOf(1.to(5))  nondet ntt = oneOf(Set(true, false))  nondet lv = oneOf(0.to(L - 1))  nondet s = oneOf(0.to(1000000000))
    val k = SWKS[w]
    val good = CREGS.filter(r => cts[r].dim == 0 and cts[r].deg == 1 and cts[r].key == k[0] and cts[r].lvl <= k[2] and not(cts[r].junk))
    if (size(good) == 0 or s % 4 == 0) loadCt(x0, 0, 1, mini(lv, k[2]), ntt, k[0], class, s)
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      val sout = seen(secs[k[1]], SECD[k[1]], 0)
      val e = c.err + errSwitch(c.lvl, k[3], sout)
      all {
        // direct calls keep the representation, the hoisted ones return the NTT form
        cts' = cts.replaceAt(z, { ...c, key: k[1], err: e, ntt: if (kind == 1 or kind == 3) true else c.ntt, junk: 16 * e >= qTo(c.lvl) }),
        act' = mk("SwitchKeys").with("x", x).with("z", z).with("key", w).with("kind", kind).with("who", who),
        out' = [], secs' = secs, pts' = pts } } }
  action stepRelin = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet kind = oneOf(0.to(4))  nondet who = oneOf(0.to(1))  nondet lv = oneOf(0.to(L - 1))
    nondet class = oneOf(1.to(5))  nondet ntt = oneOf(Set(true, false))  nondet s = oneOf(0.to(1000000000))  nondet key = oneOf(KEYS0)  nondet deg = oneOf(Set(2, 2, 3))
    val good = CREGS.filter(r => cts[r].dim == 0 and cts[r].deg >= 2 and not(cts[r].junk))
    if (size(good) == 0 or s % 4 == 0) loadCt(x0, 0, deg, lv, ntt, key, class, s)
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      val e = c.err + errSwitch(c.lvl, LP - 1, secs[c.key])
      all {
        cts' = cts.replaceAt(z, { ...c, deg: c.deg - 1, err: e, ntt: if (kind == 1 or kind == 3) true else c.ntt, junk: 16 * e >= qTo(c.lvl) }),
        act' = mk("Relinearize").with("x", x).with("z", z).with("kind", kind).with("who", who).with("key", c.key).with("deg", c.deg),
        out' = [], secs' = secs, pts' = pts } } }

  // ------------------------------------------------------------ maps between rings, as the code's procedures on ciphertexts
  // up: Y -> X^gap of a ciphertext of the small ring; unfold: from the conjugate-invariant ring
  action stepUp = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet dim = oneOf(Set(1, 2).filter(d => degOf(d) > 0))  nondet ntt = oneOf(Set(true, false))  nondet dirty = oneOf(Set(true, false))
    nondet key = oneOf(if (dim == 1) KEYS1 else KEYS2)
    nondet lv = oneOf(0.to(L - 1))  nondet class = oneOf(1.to(5))  nondet s = oneOf(0.to(1000000000))
    val good = CREGS.filter(r => cts[r].dim == dim)
    if (size(good) == 0 or s % 4 == 0) loadCt(x0, dim, 1, lv, ntt or dim == 2, key, class, s)
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      all {
        cts' = cts.replaceAt(z, { ...c, dim: 0, m: redv(if (dim == 1) mapUp(c.m) else unfold(c.m, NCI), c.lvl) }),
        act' = mk(if (dim == 1) "DegreeUp" else "Unfold").with("x", x).with("z", z).with("dirty", dirty), out' = [], secs' = secs, pts' = pts } } }
  action stepDown = {
    nondet x0 = oneOf(CREGS)  nondet z = oneOf(CREGS)  nondet dim = oneOf(Set(1, 2).filter(d => degOf(d) > 0))  nondet ntt = oneOf(Set(true, false))  nondet dirty = oneOf(Set(true, false))
    nondet key = oneOf(if (dim == 1) KEYS1 else KEYS2)  nondet drop = oneOf(0.to(1))
    nondet lv = oneOf(0.to(L - 1))  nondet class = oneOf(1.to(5))  nondet s = oneOf(0.to(1000000000))
    val good = CREGS.filter(r => cts[r].dim == 0 and SECD[cts[r].key] == dim and (dim == 1 or cts[r].ntt))
    if (size(good) == 0 or s % 4 == 0) loadCt(x0, 0, 1, lv, ntt or dim == 2, key, class, s)
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, r) => maxi(a, r))
      val c = cts[x]
      val ol = maxi(0, c.lvl - drop)
      all {
        cts' = cts.replaceAt(z, { ...c, dim: dim, lvl: ol, m: redv(if (dim == 1) mapDown(c.m, NS) else fold2(c.m), ol), err: if (dim == 1) c.err else 2 * c.err }),
        act' = mk(if (dim == 1) "DegreeDown" else "Fold").with("x", x).with("z", z).with("dirty", dirty).with("lvl", ol), out' = [], secs' = secs, pts' = pts } } }

  // ------------------------------------------------------------ key generation
  action stepGenSk = {
    nondet kind = oneOf(0.to(3))  nondet k = oneOf(Set(0, 1, 2, 5, N / 2, N - 1, N))
    all { act' = mk("GenSecretKey").with("kind", kind).with("lvl", k), out' = [], secs' = secs, cts' = cts, pts' = pts } }
  action stepGenPk = {
    nondet key = oneOf(KEYS0)
    all { act' = mk("GenPublicKey").with("key", key), out' = [{ id: 0, sin: secret(0, 0, 0), sout: secs[key], lq: L - 1, lp: LP - 1 }], secs' = secs, cts' = cts, pts' = pts } }
  action stepGenSwk = {
    nondet a = oneOf(0.to(length(SECD) - 1))  nondet b = oneOf(0.to(length(SECD) - 1))  nondet lq = oneOf(0.to(L - 1))  nondet lp = oneOf(0.to(LP - 1))
    nondet la = oneOf(0.to(L - 1))  nondet full = oneOf(Set(true, false))
    val lq2 = if (full) L - 1 else lq
    val lp2 = if (full) LP - 1 else lp
    // the larger ring is the main one; an input key of a lower level is extended
    if (SECD[a] == 2 or SECD[b] == 2 or (SECD[a] > 0 and SECD[b] > 0))
      all { act' = mk("Idle"), out' = [], secs' = secs, cts' = cts, pts' = pts }
    else {
      val la2 = if (SECD[b] == 1) maxi(la, lq2) else la
      val k = [a, b, lq2, lp2, la2]
      all { act' = mk("GenSwitchingKey").with("ks", k), out' = [wOf(k, secs)], secs' = secs, cts' = cts, pts' = pts } } }
  action stepGenRelin = {
    nondet key = oneOf(KEYS0)  nondet deg = oneOf(1.to(3))
    val s = secs[key]
    val l = range(0, deg).foldl({ l: [], p: s }, (st, i) => {
      val p = zprod(st.p, s, 0)
      { l: st.l.append({ id: i, sin: p, sout: s, lq: L - 1, lp: LP - 1 }), p: p } })
    all { act' = mk("GenRelinearizationKey").with("key", key).with("deg", deg), out' = l.l, secs' = secs, cts' = cts, pts' = pts } }
  pure def rotKeys(gals: List[int], s: List[int]): List[Swk] =
    gals.foldl([], (l, g) => l.append({ id: g, sin: s, sout: galois(s, galInv(g)), lq: L - 1, lp: LP - 1 }))
  action stepGenRot = {
    nondet key = oneOf(KEYS0)  nondet kind = oneOf(0.to(5))  nondet k1 = oneOf((-N).to(N))  nondet k2 = oneOf((-3).to(3))  nondet s = oneOf(0.to(1000000))
    nondet conj = oneOf(Set(true, false))
    val cj = conj and not(CI)
    val gals =
      if (kind == 0) [galOfRot(k1), galOfRot(k2)].concat(if (cj) [NTH - 1] else [])          // GenRotationKeysForRotations
      else if (kind == 1) [if (CI) galOfRot(s) else modp(2 * s + 1, NTH), galOfRot(k1)]                                  // GenRotationKeys
      else if (kind == 2) [galOfRot(k1)]                                                        // GenSwitchingKeyForRotationBy
      else if (kind == 3) [if (CI) galOfRot(k2) else NTH - 1]                                   // GenSwitchingKeyForRowRotation
      else if (kind == 4) [if (CI) galOfRot(s) else modp(2 * s + 1, NTH)]                                                // GenSwitchingKeyForGalois
      else range(0, LOGN).foldl([], (l, i) => l.append(                                         // GenRotationKeysForInnerSum
        if (i < LOGN - 1 or CI) galOfRot(pow2(i)) else NTH - 1))
    // kinds 1 and 4 take any element: odd, or a power of 5 in the conjugate-invariant ring
    all { act' = mk("GenRotationKeys").with("key", key).with("kind", if (CI and kind == 3) 2 else kind)
            .with("ks", if (kind == 0 or kind == 2) [k1, k2] else if (kind == 3) [k2] else if (kind == 1 or kind == 4) gals else []).with("new", cj),
          out' = rotKeys(gals, secs[key]), secs' = secs, cts' = cts, pts' = pts } }
  pure val LOGN = range(0, 20).foldl(0, (a, k) => if (pow2(k) == N) k else a)
  action stepGenRing = {
    nondet a = oneOf(KEYS0)  nondet b = oneOf(KEYS2)
    all { act' = mk("GenSwitchingKeysForRingSwap").with("key", a).with("x", b),
          out' = [wOf([a, b, L - 1, LP - 1], secs), wOf([b, a, L - 1, LP - 1], secs)], secs' = secs, cts' = cts, pts' = pts } }

  action mixC06 = any { stepLoadPt, stepLoadPt, stepEncrypt, stepEncrypt, stepEncrypt, stepEncryptCRP, stepEncryptKnown, stepDecrypt, stepDecrypt, stepDecrypt, stepElement }
  action mixK01 = any { stepSwitch, stepSwitch, stepSwitch, stepRelin, stepRelin }
  action mixK02 = any { stepGenSk, stepGenPk, stepGenSwk, stepGenSwk, stepGenRelin, stepGenRot, stepGenRot, stepGenRot }
  action mixK02NoP = any { stepGenSk, stepGenPk }
  action mixK02C = any { mixK02, stepGenRing }
  action mixK03 = any { stepUp, stepUp, stepDown, stepDown, stepSwitch }
  action step = mixC06

  val wellFormed = and {
    CREGS.forall(r => { val c = cts[r]  c.lvl >= 0 and c.lvl < L and length(c.m) == degOf(c.dim) and c.deg >= 1 and c.deg <= 17 }),
    PREGS.forall(r => { val p = pts[r]  p.lvl >= 0 and p.lvl < L and length(p.m) == N }) }
  // switching there and back never changes the message: maps are inverse to one another
  val mapsInverse = act.op == "Init" implies and {
    KEYS1.forall(k => mapDown(mapUp(secs[k]), NS) == secs[k]),
    KEYS2.forall(k => fold2(unfold(secs[k], NCI)) == secs[k].foldl([], (l, x) => l.append(2 * x))) }
}
