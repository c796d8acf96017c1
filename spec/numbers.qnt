// Prime numbers, NTT-friendly primes and the small arithmetic helpers everything else is built on.
//
// A prime is NTT-friendly for a root order r when it is 1 modulo r. Primes of a requested size are those
// closest to the power of two (above and below alternately), or the largest ones below it.
module numbers {
  import lib.* from "./lib"
  import primes.* from "./primes"

  const SIZES: List[int]      // bit sizes asked for
  const ROOTS: List[int]      // log2 of the root orders

  type Act = { op: str, a: List[int], b: List[int], res: List[int], err: bool }
  var act: Act
  var found: List[int]        // primes generated last
  var root: int               // their root order

  pure val WORD = pow2(64)
  pure def mk(op: str): Act = { op: op, a: [], b: [], res: [], err: false }

  // ------------------------------------------------------------ steps
  pure val KNOWN = [1152921504606584833, 2305843009211662337, 1125899904679937, 33292289, 786433, 65537, 12289, 257, 97, 3]
  action init = all { act' = mk("Init"), found' = [2305843009211662337], root' = 16 }
  action keep(a: Act): bool = all { act' = a, found' = found, root' = root }

  action stepGenerate = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 6)
    val lr = ROOTS[r[0] % length(ROOTS)]
    val bl = maxi(lr, SIZES[r[1] % length(SIZES)])
    val n = 1 + r[2] % (if (r[3] % 6 == 0) 12 else 4)
    val l = primesFor(bl, pow2(lr), n)
    all { act' = { ...mk("Generate"), a: [bl, pow2(lr), n], res: l }, found' = if (length(l) > 0) l else found, root' = if (length(l) > 0) pow2(lr) else root } }
  // sizes that cannot be had
  action stepGenerateBad = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 4)
    val lr = 4 + r[0] % 12
    val bl = if (r[1] % 3 == 0) 62 + r[2] % 3 else 1 + r[2] % (lr - 1)
    keep({ ...mk("Generate"), a: [bl, pow2(lr), 1 + r[3] % 3], err: true }) }
  // downward only, from any size; running out is an error
  action stepLargest = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 6)
    val lr = ROOTS[r[0] % length(ROOTS)]
    val small = r[4] % 2 == 0
    val bl = if (small) lr + r[1] % 8 else maxi(lr, SIZES[r[1] % length(SIZES)])
    val n = 1 + r[2] % (if (small) 12 else 4)
    val l = largest(bl, pow2(lr), n)
    keep({ ...mk("Largest"), a: [bl, pow2(lr), n], res: l.l, err: length(l.l) < n }) }
  action stepNext = {
    nondet s = oneOf(0.to(1000000000))  nondet up = oneOf(Set(true, false))
    val r = rngList(s, 4)
    val p = if (r[0] % 4 == 0) largest(61, root, 1 + r[2] % 3).l[r[2] % 3] else if (r[0] % 4 == 1) largest(maxi(twos(root) + 5, 12), root, 1).l[0] else found[r[1] % length(found)]
    val e = range(1, FAR).foldl({ v: 0, stop: false }, (st, k) =>
      if (st.v > 0 or st.stop) st
      else {
        val x = if (up) p + k * root else p - k * root
        if (x < 2 or x >= pow2(61)) { v: 0, stop: true } else if (isPrime(x)) { v: x, stop: false } else st })
    keep({ ...mk(if (up) "Next" else "Previous"), a: [p, root], res: [e.v], err: e.v == 0 }) }
  // chains of moduli from sizes; the sizes come from a few values so that primes are shared out
  action stepChain = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 40)
    val logn = if (r[0] % 8 == 0) [-1, 0, 3, 18][r[1] % 4] else 4 + r[1] % 10
    val base = [SIZES[r[2] % length(SIZES)], SIZES[r[3] % length(SIZES)], if (r[4] % 10 == 0) 1 + r[5] % 16 else 60]
    val lq = range(0, 1 + r[6] % 6).foldl([], (l, i) => l.append(if (r[7] % 12 == 0 and r[8] % 6 == i) [0, -1, 61, 62, 100][r[9] % 5] else mini(60, maxi(logn + 1, base[r[10 + i] % 3]))))
    val lp = range(0, r[16] % 4).foldl([], (l, i) => l.append(if (r[17] % 12 == 0 and r[18] % 3 == i) [0, -3, 62, 64][r[19] % 4] else if (r[20 + i] % 4 == 3) 61 else maxi(logn + 1, base[r[20 + i] % 3])))
    val low = if (r[30] % 8 == 0) lq.replaceAt(0, maxi(1, logn - r[31] % 4)) else lq
    val c = chain(logn, low, lp)
    keep({ ...mk("Chain"), a: [logn].concat(low), b: lp, res: c.q.concat(c.p), err: not(c.ok) }) }
  // the same, at the edge where the primes of neighbouring sizes meet
  action stepChainTiny = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 20)
    val logn = 4 + r[0] % 4
    val lq = range(0, 1 + r[1] % 4).foldl([], (l, i) => l.append(logn + r[2 + i] % 6))
    val lp = range(0, r[6] % 3).foldl([], (l, i) => l.append(logn + 1 + r[7 + i] % 5))
    val c = chain(logn, lq, lp)
    keep({ ...mk("Chain"), a: [logn].concat(lq), b: lp, res: c.q.concat(c.p), err: not(c.ok) }) }

  pure val ODD = [341, 561, 1105, 1729, 2047, 3215031751, 3825123056546413051, 318665857834031151, 25326001, 3474749660383, 341550071728321, 4294967297, 18446744065119617029, 18446744073709551615, 18446744073709551557, 0, 1, 2, 3, 4, 9, 25, 1373653]
  action stepIsPrime = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 4)
    val x = if (r[0] % 3 == 0) ODD[r[1] % length(ODD)]
      else if (r[0] % 3 == 1) (if (r[3] % 2 == 0) found[r[1] % length(found)] else (found[r[1] % length(found)] % 4294967296) * (found[r[2] % length(found)] % 4294967296))
      else (2 * r[1] + 1) % WORD
    keep({ ...mk("IsPrime"), a: [x], res: [if (isPrime(x)) 1 else 0] }) }
  // order of the root of unity chosen for a prime, observed on a ring
  action stepRoot = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 3)
    val p = found[r[0] % length(found)]
    val top = mini(twos(p - 1), 13)
    if (top < 5) stepGenerate
    else keep({ ...mk("Root"), a: [p, 4 + r[1] % (top - 4), if (r[2] % 3 == 0 and top > 5) 1 else 0] }) }

  // ------------------------------------------------------------ words modulo a prime
  pure def edge(x: int, q: int): int =
    if (x % 5 == 0) x % 3 else if (x % 5 == 1) q - 1 - (x / 8) % 3 else if (x % 5 == 2) modp(2 * q - 1 - (x / 8) % 2, WORD) else if (x % 5 == 3) WORD - 1 - (x / 8) % 3 else (x * 1125899906842597) % WORD
  pure val OPS = ["MForm", "MFormConstant", "InvMForm", "InvMFormConstant", "MRedParams", "MRed", "MRedConstant", "BRedAdd", "BRedAddConstant", "BRed", "BRedConstant", "CRed", "PowerOf2", "ModExp", "ModexpMontgomery"]
  pure def inv64(q: int): int = range(0, 7).foldl(1, (y, i) => modp(y * (2 - q * y), WORD))   // inverse of an odd word
  action stepModular = {
    nondet s = oneOf(0.to(1000000000))  nondet k = oneOf(0.to(14))
    val r = rngList(s, 6)
    val q = if (r[0] % 2 == 0) KNOWN[r[1] % length(KNOWN)] else found[r[1] % length(found)]
    val op = OPS[k]
    val x = edge(r[2], q)
    val y = edge(r[3], q)
    val w = powmod(WORD, q - 2, q)      // 2^-64
    val e = if (r[5] % 3 == 0) r[4] % 8 else if (r[5] % 3 == 1) q - 1 - r[4] % 2 else r[4] % WORD
    // operands within the range each function is defined on
    if (op == "MForm" or op == "MFormConstant") keep({ ...mk(op), a: [x], b: [q], res: [x * (WORD % q) % q] })
    else if (op == "InvMForm" or op == "InvMFormConstant") keep({ ...mk(op), a: [x], b: [q], res: [x % q * w % q] })
    else if (op == "MRedParams") keep({ ...mk(op), b: [q], res: [inv64(q)] })
    else if (op == "MRed" or op == "MRedConstant") keep({ ...mk(op), a: [x, y % q], b: [q], res: [(x % q) * (y % q) % q * w % q] })
    else if (op == "BRedAdd" or op == "BRedAddConstant") keep({ ...mk(op), a: [x], b: [q], res: [x % q] })
    else if (op == "BRed" or op == "BRedConstant") keep({ ...mk(op), a: [x, y], b: [q], res: [x * y % q] })
    else if (op == "CRed") keep({ ...mk(op), a: [x % (2 * q)], b: [q], res: [x % (2 * q) % q] })
    else if (op == "PowerOf2") keep({ ...mk(op), a: [x % q, e % 64], b: [q], res: [(x % q) * pow2(e % 64) % q * w % q] })
    else if (op == "ModExp") {
      val m = if (r[1] % 3 == 0) [pow2(17), 18446744073709551557, 9223372036854775783, 32, pow2(64) - 1][r[0] % 5] else q
      keep({ ...mk(op), a: [x % m, e], b: [m], res: [powmod(x, e, m)] }) }
    else keep({ ...mk(op), a: [x % q, e % pow2(62)], b: [q], res: [powmod((x % q) * w % q, e % pow2(62), q) * (WORD % q) % q] }) }

  // ------------------------------------------------------------ helpers on words and slices
  pure def rot(l: List[int], k: int): List[int] = range(0, length(l)).foldl([], (r, i) => r.append(l[modp(i + k, length(l))]))
  action stepSlices = {
    nondet s = oneOf(0.to(1000000000))  nondet k = oneOf(0.to(9))
    val r = rngList(s, 24)
    val n = [0, 1, 2, 3, 4, 7, 8][r[0] % 7]
    val l = range(0, n).foldl([], (a, i) => a.append(if (r[1] % 3 == 0) r[2 + i] % 3 else r[2 + i] % WORD))
    val sh = r[12] % 40 - 20
    val m = if (r[13] % 4 == 0) l else if (r[13] % 4 == 1 and n > 0) l.replaceAt(r[14] % n, (l[r[14] % n] + 1) % WORD) else if (r[13] % 4 == 2 and n > 0) l.slice(0, n - 1) else l.append(r[15] % 3)
    val x = if (n > 0 and r[16] % 2 == 0) l[r[17] % n] else r[17] % 4
    if (k == 0) keep({ ...mk("Equal"), a: l, b: m, res: [if (l == m) 1 else 0] })
    else if (k == 1) keep({ ...mk("IsIn"), a: l, b: [x], res: [if (l.indices().exists(i => l[i] == x)) 1 else 0] })
    else if (k == 2) keep({ ...mk("AllDistinct"), a: l, res: [if (l.indices().exists(i => l.indices().exists(j => i != j and l[i] == l[j]))) 0 else 1] })
    else if (k == 3) keep({ ...mk("Rotate"), a: l, b: [sh], res: rot(l, sh) })
    else if (k == 4) {
      val e = l.concat(l.slice(0, n % 2))     // even length
      val h = length(e) / 2
      keep({ ...mk("RotateSlots"), a: e, b: [sh], res: rot(e.slice(0, h), sh).concat(rot(e.slice(h, length(e)), sh)) }) }
    else if (k == 5) keep({ ...mk("MaxSlice"), a: l, res: [l.foldl(0, (a, v) => maxi(a, v))] })
    else if (k == 6) keep({ ...mk("MinMax"), a: [edge(r[18], pow2(32)), edge(r[19], pow2(32))], res: [mini(edge(r[18], pow2(32)), edge(r[19], pow2(32))), maxi(edge(r[18], pow2(32)), edge(r[19], pow2(32)))] })
    else if (k == 7) {
      val b = r[18] % 65
      val v = (r[19] * 1125899906842597) % pow2(b)
      keep({ ...mk("BitReverse"), a: [v, b], res: [range(0, b).foldl(0, (a, i) => 2 * a + (v / pow2(i)) % 2)] }) }
    else if (k == 8) {
      val v = edge(r[19], pow2(60))
      keep({ ...mk("Hamming"), a: [v], res: [range(0, 64).foldl(0, (a, i) => a + (v / pow2(i)) % 2)] }) }
    else {
      val d0 = r[20] % pow2(1 + r[21] % 60) + 1
      val d = if (r[22] % 2 == 0) d0 else -d0
      val v0 = if (r[23] % 3 == 0) d0 * (r[19] % 1000) + d0 / 2 + r[18] % 2 else r[19] * r[18]
      val v = if (r[17] % 2 == 0) v0 else -v0
      // the nearest integer, halves away from zero
      val e = rdivAway(absi(v), absi(d))
      keep({ ...mk("DivRound"), a: [v, d], res: [if ((v < 0) == (d < 0)) e else -e] }) } }

  // complex numbers of arbitrary precision, on Gaussian integers: the operations are exact when the result fits
  action stepComplex = {
    nondet s = oneOf(0.to(1000000000))  nondet k = oneOf(0.to(3))  nondet alias = oneOf(0.to(2))
    val r = rngList(s, 12)
    val v = range(0, 4).foldl([], (l, i) => l.append(
      if (r[4 + i] % 6 == 0) 0 else if (r[4 + i] % 6 == 1) 1 - 2 * (r[i] % 2) else (r[i] * 1125899906842597 + r[i + 4]) % pow2(1 + r[i + 1] % 90) * (1 - 2 * (r[8 + i] % 2))))
    val d = if (v[2] == 0 and v[3] == 0) [3, -4] else [v[2], v[3]]
    val prod = [v[0] * d[0] - v[1] * d[1], v[0] * d[1] + v[1] * d[0]]
    if (k == 0) keep({ ...mk("CAdd"), a: [v[0], v[1], alias], b: d, res: [v[0] + d[0], v[1] + d[1]] })
    else if (k == 1) keep({ ...mk("CSub"), a: [v[0], v[1], alias], b: d, res: [v[0] - d[0], v[1] - d[1]] })
    else if (k == 2) keep({ ...mk("CMul"), a: [v[0], v[1], alias], b: d, res: prod })
    else keep({ ...mk("CDiv"), a: [prod[0], prod[1], alias], b: d, res: [v[0], v[1]] }) }

  action mixR07 = any { stepComplex, stepGenerate, stepGenerate, stepGenerateBad, stepLargest, stepNext, stepNext, stepChain, stepChainTiny, stepIsPrime, stepRoot, stepModular, stepModular, stepModular, stepModular, stepSlices, stepSlices }
  action step = mixR07

  val wellFormed = and {
    found.indices().forall(i => found[i] % root == 1),
    found.indices().forall(i => found.indices().forall(j => i == j or found[i] != found[j])) }
}
