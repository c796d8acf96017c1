// Arithmetic shared by all specifications: modular integers, lists, and a
// small deterministic generator that turns a seed into operand data.
module lib {
  pure def modp(x: int, q: int): int = { val r = x % q  if (r < 0) r + q else r }
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def maxi(a: int, b: int): int = if (a > b) a else b
  pure def absi(a: int): int = if (a < 0) -a else a
  // floor division for any sign of the numerator (d > 0)
  pure def fdiv(x: int, d: int): int = (x - modp(x, d)) / d
  // nearest integer, halves towards +infinity
  pure def rdiv(x: int, d: int): int = fdiv(2 * x + d, 2 * d)
  // nearest integer, halves away from zero
  pure def rdivAway(x: int, d: int): int = if (x >= 0) fdiv(2 * x + d, 2 * d) else -fdiv(-2 * x + d, 2 * d)
  // centered representative in [-floor(q/2), ceil(q/2)-1] for odd q: (-q/2, q/2)
  pure def centered(x: int, q: int): int = { val r = modp(x, q)  if (2 * r > q) r - q else r }

  pure def bitsOf(e: int): List[int] =
    // binary digits, least significant first, of e < 2^128
    range(0, 128).foldl((List(), e), (acc, i) =>
      if (acc._2 == 0) acc else (acc._1.append(acc._2 % 2), acc._2 / 2))._1
  pure def powmod(x: int, e: int, q: int): int =
    bitsOf(e).foldl((1, modp(x, q)), (acc, b) =>
      (if (b == 1) acc._1 * acc._2 % q else acc._1, acc._2 * acc._2 % q))._1
  // inverse modulo a prime
  pure def invmod(x: int, q: int): int = powmod(x, q - 2, q)
  pure def pow2(k: int): int = range(0, k).foldl(1, (a, i) => a * 2)
  pure def intpow(x: int, k: int): int = range(0, k).foldl(1, (a, i) => a * x)

  // NOTE: no helper takes an operator as argument. The Rust evaluator of Quint 0.32 keeps the
  // parameters of a definition in shared cells, so a higher-order helper that is re-entered through
  // its own operator argument silently computes with the inner call's parameters.
  pure def addv(x: List[int], y: List[int], q: int): List[int] =
    range(0, length(x)).foldl([], (l, i) => l.append(modp(x[i] + y[i], q)))
  // x + c * y
  pure def axpy(x: List[int], c: int, y: List[int], q: int): List[int] =
    range(0, length(x)).foldl([], (l, i) => l.append(modp(x[i] + c * y[i], q)))
  pure def mulv(x: List[int], y: List[int], q: int): List[int] =
    range(0, length(x)).foldl([], (l, i) => l.append(modp(x[i] * y[i], q)))
  pure def scalev(x: List[int], s: int, q: int): List[int] = {
    val t = modp(s, q)
    range(0, length(x)).foldl([], (l, i) => l.append(x[i] * t % q)) }
  pure def addsv(x: List[int], s: int, q: int): List[int] =
    range(0, length(x)).foldl([], (l, i) => l.append(modp(x[i] + s, q)))
  pure def sum(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def prod(l: List[int]): int = l.foldl(1, (a, x) => a * x)
  pure def prodTo(l: List[int], k: int): int = range(0, k).foldl(1, (a, i) => a * l[i])
  pure def maxAbs(l: List[int]): int = l.foldl(0, (a, x) => maxi(a, absi(x)))

  // one step of the generator: a 127-bit multiplicative congruential state
  pure def rngNext(x: int): int =
    (x * 47026247687942121848144207491837418733 + 25487264123573411) % 170141183460469231731687303715884105727
  pure def rngList(seed: int, n: int): List[int] =
    range(0, n).foldl(([], rngNext(rngNext(seed + 1))), (acc, i) => {
      val s = rngNext(acc._2)
      (acc._1.append(s / 1099511627776), s)
    })._1
  pure def rng(seed: int): int = rngNext(rngNext(rngNext(seed + 1))) / 1099511627776

  // negacyclic product modulo X^n+1, coefficients modulo q
  pure def negacyclic(a: List[int], b: List[int], n: int, q: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append(modp(
      range(0, n).foldl(0, (s, i) => if (i <= k) s + a[i] * b[k - i] else s - a[i] * b[n + k - i]), q)))
  // product in the subring of X+X^-1 of Z_q[X]/(X^{2n}+1), basis 1, X^i+X^-i
  pure def unfold(a: List[int], n: int): List[int] =
    range(0, 2 * n).foldl([], (l, i) => l.append(if (i < n) a[i] else if (i == n) 0 else -a[2 * n - i]))
  pure def conjInvProd(a: List[int], b: List[int], n: int, q: int): List[int] = {
    val u = unfold(b, n)
    // coefficient k of (sum_i a_i (X^i + X^-i)) * u, for k < n, X^{2n} = -1
    range(0, n).foldl([], (l, k) => l.append(modp(
      range(0, n).foldl(0, (s, i) => {
        val lo = if (k - i >= 0) u[k - i] else -u[2 * n + k - i]
        val hi = u[k + i]
        if (i == 0) s + a[0] * u[k] else s + a[i] * (lo + hi) }), q)))
  }
  // X -> X^g in Z_q[X]/(X^n+1), g odd
  pure def autom(a: List[int], g: int, n: int, q: int): List[int] = {
    val ginv = powmod(g, n - 1, 2 * n)   // the unit group of Z_2n has exponent dividing n
    range(0, n).foldl([], (l, k) => {
      val s = k * ginv % (2 * n)
      // X^s maps to X^k; X^(s-n) maps to -X^k
      l.append(if (s < n) modp(a[s], q) else modp(-a[s - n], q)) })
  }
  // a * X^k, any k
  pure def monomial(a: List[int], k: int, n: int, q: int): List[int] =
    range(0, n).foldl([], (l, i) => {
      val s = modp(i - k, 2 * n)
      l.append(if (s < n) a[s] else modp(-a[s - n], q)) })
}
