// Primality, NTT-friendly primes and moduli chains.
module primes {
  import lib.* from "./lib"

  pure val TOP = pow2(64)
  // ------------------------------------------------------------ primality
  pure val BASES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
  pure def twos(n: int): int = range(0, 64).foldl({ n: n, k: 0 }, (st, i) => if (st.n % 2 == 0) { n: st.n / 2, k: st.k + 1 } else st).k
  // Miller-Rabin, exact below 2^64 with these bases
  pure def witness(n: int, b: int, d: int, k: int): bool = {
    val x = powmod(b, d, n)
    if (x == 1 or x == n - 1) false
    else not(range(0, k).foldl({ x: x, ok: false }, (st, i) => if (st.ok) st else { x: st.x * st.x % n, ok: st.x == n - 1 }).ok) }
  pure def isPrime(n: int): bool =
    if (n < 2) false
    else if (BASES.indices().exists(i => n == BASES[i])) true
    else if (BASES.indices().exists(i => n % BASES[i] == 0)) false
    else {
      val k = twos(n - 1)
      val d = (n - 1) / pow2(k)
      range(0, 12).foldl(true, (ok, i) => ok and not(witness(n, BASES[i], d, k))) }

  // ------------------------------------------------------------ NTT-friendly primes
  pure val FAR = 3000
  // n primes closest to 2^logq + 1 that are 1 modulo r, alternating above and below; fewer when the search is given up
  pure def closest(logq: int, r: int, n: int): List[int] = {
    val c = pow2(logq) + 1
    range(1, FAR).foldl([], (l, k) =>
      if (length(l) >= n) l
      else {
        val u = c + k * r
        val d = c - k * r
        val l1 = if (u < TOP and isPrime(u)) l.append(u) else l
        if (length(l1) < n and d > 1 and isPrime(d)) l1.append(d) else l1 }) }
  // the n largest primes below 2^logp that are 1 modulo r
  pure def largest(logp: int, r: int, n: int): { l: List[int], more: bool } = {
    val c = pow2(logp) + 1
    range(1, FAR).foldl({ l: [], more: true }, (st, k) =>
      if (length(st.l) >= n or not(st.more)) st
      else {
        val d = c - k * r
        if (d <= 1) st.with("more", false) else if (isPrime(d)) st.with("l", st.l.append(d)) else st }) }
  pure def primesFor(bitlen: int, r: int, n: int): List[int] = if (bitlen == 61) largest(61, r, n).l else closest(bitlen, r, n)

  // moduli chains from sizes: the primes of each size are handed out in order, first to Q and then to P
  pure def chain(logn: int, lq: List[int], lp: List[int]): { ok: bool, q: List[int], p: List[int] } = {
    val bad = { ok: false, q: [], p: [] }
    val sizes = lq.concat(lp)
    if (logn < 4 or logn > 17 or length(lq) > 100 or length(lp) > 100) bad
    else if (lq.indices().exists(i => lq[i] <= 0 or lq[i] > 60) or lp.indices().exists(i => lp[i] <= 0 or lp[i] > 61)) bad
    else if (sizes.indices().exists(i => sizes[i] < logn + 1)) bad
    else {
      val r = pow2(logn + 1)
      val pools = range(0, 62).foldl([], (l, s) => {
        val n = sizes.indices().filter(i => sizes[i] == s).size()
        l.append(if (n == 0) [] else primesFor(s, r, n)) })
      val got = range(0, length(sizes)).foldl({ l: [], used: range(0, 62).foldl([], (u, i) => u.append(0)) }, (st, i) => {
        val s = sizes[i]
        { l: st.l.append(pools[s][st.used[s]]), used: st.used.replaceAt(s, st.used[s] + 1) } }).l
      if (got.indices().exists(i => got.indices().exists(j => i != j and got[i] == got[j]))) bad
      else { ok: true, q: got.slice(0, length(lq)), p: got.slice(length(lq), length(sizes)) } } }
}
