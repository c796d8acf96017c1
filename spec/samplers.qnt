// The keyed generator and the samplers that read from it.
//
// A generator is a position in the byte stream of its key; drawing n bytes moves it by n bytes and its clock by one,
// setting the clock forwards is drawing that many times, setting it backwards is refused. A sample is a set of
// allowed polynomials: reduced words for the uniform sampler, and for the others one small integer polynomial seen
// modulo every prime of the level, of bounded coefficients and, when a weight is set, with exactly that many
// non-zero ones. The state keeps a bound on the integer polynomial each register holds, as samples are written over
// it or added to it. Expected counts and variances of long samples are computed here from the distributions.
module samplers {
  import lib.* from "./lib"

  const RINGS: List[{ logn: int, ci: bool, qs: List[int], ps: List[int] }]
  const NG: int      // generators
  const NS: int      // samplers
  const NP: int      // polynomials

  // kind 0: bytes of the stream of its key; 1: the same stream with words at the edges of the ranges mixed in
  type Gen = { live: bool, kind: int, key: List[int], off: int, clk: int, edges: List[int] }
  // kind 0 uniform, 1 ternary of density num/den, 2 ternary of fixed weight, 3 Gaussian; sg in tenths
  type Sam = { live: bool, kind: int, gen: int, ring: int, num: int, den: int, hw: int, sg: int, bound: int, mont: bool }
  // norm: bound on the centered integer coefficients, -1 when there is none
  type Pol = { live: bool, ring: int, lvl: int, norm: int, red: bool }
  type Stat = { name: str, e: int, v: int, d: int }
  type Act = { op: str, x: int, z: int, g: int, n: int, lvl: int, ring: int, err: bool, norm: int, gen: Gen, sam: Sam, seed: int, stats: List[Stat], lo: int, hi: int }

  var gens: List[Gen]
  var sams: List[Sam]
  var pols: List[Pol]
  var act: Act

  pure val GREGS = 0.to(NG - 1)
  pure val SREGS = 0.to(NS - 1)
  pure val PREGS = 0.to(NP - 1)
  pure val WORD = pow2(64)
  pure val NOGEN: Gen = { live: false, kind: 0, key: [], off: 0, clk: 0, edges: [] }
  pure val NOSAM: Sam = { live: false, kind: 0, gen: 0, ring: 0, num: 1, den: 2, hw: 0, sg: 32, bound: 19, mont: false }
  pure val NOPOL: Pol = { live: false, ring: 0, lvl: 0, norm: -1, red: false }
  pure def mk(op: str): Act = { op: op, x: 0, z: 0, g: 0, n: 0, lvl: 0, ring: 0, err: false, norm: -1, gen: NOGEN, sam: NOSAM, seed: 0, stats: [], lo: 0, hi: 0 }
  pure def top(ring: int): int = length(RINGS[ring].qs) - 1
  pure def degree(ring: int): int = pow2(RINGS[ring].logn)

  action init = all {
    gens' = range(0, NG).foldl([], (l, i) => l.append(NOGEN)),
    sams' = range(0, NS).foldl([], (l, i) => l.append(NOSAM)),
    pols' = range(0, NP).foldl([], (l, i) => l.append(NOPOL)),
    act' = mk("Init") }
  action stay(a: Act): bool = all { gens' = gens, sams' = sams, pols' = pols, act' = a }
  action toGen(z: int, g: Gen, a: Act): bool = all { gens' = gens.replaceAt(z, g), sams' = sams, pols' = pols, act' = a }
  // a sample moves its generator by an amount the distribution decides
  action toPol(z: int, p: Pol, g: int, a: Act): bool = all {
    gens' = gens.replaceAt(g, { ...gens[g], off: -1, clk: -1 }), sams' = sams, pols' = pols.replaceAt(z, p), act' = a }

  pure def liveGen(l: List[Gen], s: int): int = {
    val w = range(0, length(l)).foldl([], (a, i) => if (l[i].live) a.append(i) else a)
    if (length(w) == 0) 0 else w[s % length(w)] }
  pure def liveSam(l: List[Sam], s: int, add: bool): int = {
    val w = range(0, length(l)).foldl([], (a, i) => if (l[i].live and (not(add) or l[i].kind == 3)) a.append(i) else a)
    if (length(w) == 0) 0 else w[s % length(w)] }
  pure def livePol(l: List[Pol], s: int, ring: int, red: bool): int = {
    val w = range(0, length(l)).foldl([], (a, i) => if (l[i].live and (ring < 0 or l[i].ring == ring) and (not(red) or l[i].red)) a.append(i) else a)
    if (length(w) == 0) s % length(l) else w[s % length(w)] }

  // ------------------------------------------------------------ generators
  pure def bytes(r: List[int], at: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append((r[at + i / 5] / pow2(8 * (i % 5))) % 256))
  pure val KEYLENS = [0, 1, 16, 32, 32, 32, 63, 64]
  // words that fall on the edges of what the samplers of a ring distinguish
  pure def edgesOf(ring: int, s: int): List[int] = {
    val q = RINGS[ring].qs[s % length(RINGS[ring].qs)]
    [q - 1, q, q + 1, WORD - 1, 0, q - 1 + pow2(63), 2 * q - 1, 1] }
  action stepGen = {
    nondet s = oneOf(0.to(1000000000))  nondet z = oneOf(GREGS)  nondet o = oneOf(GREGS)
    val r = rngList(s, 24)
    val other = gens[o].key
    val n = length(other)
    // same key, a key that differs in one bit or in its length, or another key
    val key = if (r[0] % 4 == 0) other
      else if (r[0] % 4 == 1 and n > 0) other.replaceAt(r[1] % n, (other[r[1] % n] + pow2(r[2] % 8)) % 256)
      else if (r[0] % 8 == 2 and n > 0) other.slice(0, n - 1)
      else if (r[0] % 8 == 6 and n < 64) other.append(r[1] % 2)
      else bytes(r, 8, KEYLENS[r[1] % length(KEYLENS)])
    val edge = r[3] % 3 == 0
    val g = { ...NOGEN, live: true, kind: if (edge) 1 else 0, key: key, edges: if (edge) edgesOf(r[4] % length(RINGS), r[5]) else [] }
    // samplers bound to the old generator keep reading from it: they are dropped here
    all { gens' = gens.replaceAt(z, g),
      sams' = range(0, NS).foldl([], (l, i) => l.append(if (sams[i].gen == z) NOSAM else sams[i])),
      pols' = pols, act' = { ...mk("Gen"), z: z, gen: g } } }
  action stepGenBad = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 24)
    stay({ ...mk("GenBad"), gen: { ...NOGEN, key: bytes(r, 0, 65 + r[20] % 16) }, err: true }) }
  pure val LENS = [0, 1, 3, 8, 32, 64, 65, 128, 200, 512, 1024]
  action stepDraw = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 2)
    val z = liveGen(gens, rng(s))
    val n = LENS[r[0] % length(LENS)]
    val g = gens[z]
    if (not(g.live)) stay(mk("None"))
    else toGen(z, { ...g, off: if (g.off < 0) -1 else g.off + n, clk: if (g.clk < 0) -1 else g.clk + 1 }, { ...mk("Draw"), z: z, n: n }) }
  // set the clock d ticks away, with buffers of n bytes
  action stepSetClock = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 3)
    val z = liveGen(gens, rng(s))
    val n = LENS[r[0] % length(LENS)]
    val g = gens[z]
    val d = [0, 1, 2, 5, 17, -1, -3][r[1] % 7]
    if (not(g.live) or g.clk < 0 and d < 0 or g.clk >= 0 and g.clk + d < 0) stay(mk("None"))
    else if (d < 0) stay({ ...mk("SetClock"), z: z, n: n, lo: d, err: true })
    else toGen(z, { ...g, off: if (g.off < 0) -1 else g.off + n * d, clk: if (g.clk < 0) -1 else g.clk + d }, { ...mk("SetClock"), z: z, n: n, lo: d }) }
  // one word below v
  action stepWord = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 4)
    val z = liveGen(gens, rng(s))
    val bits = r[0] % 64
    val v = if (r[1] % 3 == 0) pow2(bits) else if (r[1] % 3 == 1) pow2(bits) + 1 else pow2(bits) + r[2] % pow2(bits)
    // the mask covers v-1
    val w = if (v > pow2(bits)) pow2(bits + 1) - 1 else pow2(bits) - 1
    val g = gens[z]
    if (not(g.live) or g.kind == 1) stay(mk("None"))
    else toGen(z, { ...g, off: -1, clk: -1 }, { ...mk("Word"), z: z, hi: v, lo: w }) }
  // generators without a key: all different from each other and from every stream seen
  action stepFresh = stay(mk("Fresh"))
  // numbers from the system's generator
  action stepSystem = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 4)
    val a = r[0] % 2000 - 1000
    stay({ ...mk("System"), lo: a, hi: a + [0, 1, 1000, pow2(40)][r[1] % 4], n: 1 + r[2] % pow2(1 + r[3] % 39) }) }

  // ------------------------------------------------------------ samplers
  // a density that is not a half is drawn by walking a tree; a stream made of edge words can fall off its end
  pure def usable(g: Gen, s: Sam): bool = g.live and (g.kind == 0 or s.kind != 1 or 2 * s.num == s.den)
  pure def density(s: int): { num: int, den: int } =
    [{ num: 1, den: 2 }, { num: 1, den: 3 }, { num: 2, den: 3 }, { num: 1, den: 4 }, { num: 3, den: 4 }, { num: 1, den: 10 }, { num: 9, den: 10 }, { num: 1, den: 1000 }, { num: 999, den: 1000 }, { num: 1, den: 2 }][s % 10]
  pure def sampler(r: List[int], at: int): Sam = {
    val ring = r[at] % length(RINGS)
    val n = degree(ring)
    val kind = r[at + 1] % 4
    val d = density(r[at + 2])
    // deviations from a fraction to more than the smallest moduli
    val sg = [5, 10, 32, 32, 32, 64, 1000, 10 * pow2(20), 10 * pow2(35)][r[at + 3] % 9]
    val b = [sg / 10 * 6, sg / 10 * 6, sg * 25 / 100, sg / 10, sg, sg / 20][r[at + 4] % 6]
    val hw = [0, 1, 2, 3, n / 4, n / 2 + 1, n - 1, n, n + 1, 3 * n, r[at + 5] % n, r[at + 5] % n][r[at + 6] % 12]
    { ...NOSAM, live: true, kind: kind, ring: ring, num: d.num, den: d.den, hw: hw, sg: sg, bound: maxi(b, 1), mont: r[at + 7] % 2 == 0 and kind > 0 and kind < 3 } }
  action stepSampler = {
    nondet s = oneOf(0.to(1000000000))  nondet z = oneOf(SREGS)
    val r = rngList(s, 9)
    val g = liveGen(gens, r[8])
    val m = { ...sampler(r, 0), gen: g }
    if (not(usable(gens[g], m))) stay(mk("None"))
    else all { gens' = gens, pols' = pols, sams' = sams.replaceAt(z, m), act' = { ...mk("Sampler"), z: z, g: g, sam: m } } }

  // contents a sample will be written over or added to
  action stepGarbage = {
    nondet s = oneOf(0.to(1000000000))  nondet z = oneOf(PREGS)
    val r = rngList(s, 6)
    val ring = if (r[4] % 3 == 0) r[0] % length(RINGS) else sams[liveSam(sams, r[5], false)].ring
    val lvl = if (r[1] % 2 == 0) top(ring) else r[2] % (top(ring) + 1)
    val red = r[3] % 2 == 0
    all { gens' = gens, sams' = sams, pols' = pols.replaceAt(z, { ...NOPOL, live: true, ring: ring, lvl: lvl, red: red }),
      act' = { ...mk("Garbage"), z: z, ring: ring, lvl: lvl, seed: s, err: not(red) } } }

  // largest coefficient of one sample
  pure def reach(s: Sam): int = if (s.kind == 0) -1 else if (s.kind == 3) s.bound else 1
  action stepRead = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 8)
    val x = liveSam(sams, r[3], false)
    val m = sams[x]
    val k = r[0] % 6
    val z = if (k < 2) r[4] % NP else livePol(pols, r[4], m.ring, false)
    val p = pols[z]
    // the integer of a sample in Montgomery form is not small
    val b = reach(m)
    val c = if (m.mont) -1 else b
    if (not(m.live)) stay(mk("None"))
    else if (k == 0) toPol(z, { live: true, ring: m.ring, lvl: top(m.ring), norm: c, red: true }, m.gen, { ...mk("ReadNew"), x: x, z: z, ring: m.ring, lvl: top(m.ring), norm: b })
    else if (k == 1) {
      val l = r[1] % (top(m.ring) + 1)
      toPol(z, { live: true, ring: m.ring, lvl: l, norm: c, red: true }, m.gen, { ...mk("ReadLvlNew"), x: x, z: z, ring: m.ring, lvl: l, norm: b }) }
    else if (not(p.live) or p.ring != m.ring) stay(mk("None"))
    else if (k == 2) {
      // Read: the uniform sampler fits the receiver, the others want the whole ring
      if (m.kind != 0 and p.lvl < top(m.ring)) stay(mk("None"))
      else toPol(z, { ...p, norm: c, red: true }, m.gen, { ...mk("Read"), x: x, z: z, ring: m.ring, lvl: p.lvl, norm: b }) }
    else {
      val l = if (r[1] % 2 == 0) p.lvl else r[2] % (p.lvl + 1)
      toPol(z, { ...p, norm: if (l == p.lvl) c else -1, red: p.red or l == p.lvl }, m.gen, { ...mk("ReadLvl"), x: x, z: z, ring: m.ring, lvl: l, norm: b }) } }
  action stepReadAdd = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 14)
    val x = liveSam(sams, r[10], true)
    val m = sams[x]
    val k = r[0] % 4
    val z = livePol(pols, r[11], if (k < 2) m.ring else -1, k < 3)
    val p = pols[z]
    val f = sampler(r, 2)
    val b = if (k < 2) m.bound else f.bound
    val sg = if (k < 2) m.sg else f.sg
    // the calls that name the ring accept any
    if (not(m.live) or m.kind != 3 or not(p.live) or (k < 2 and p.ring != m.ring) or (k != 3 and not(p.red))) stay(mk("None"))
    else {
      val l = if (r[1] % 2 == 0) p.lvl else r[9] % (p.lvl + 1)
      val norm = if (k == 3) (if (l == p.lvl) b else -1) else if (p.norm < 0 or l != p.lvl) -1 else p.norm + b
      toPol(z, { ...p, norm: norm, red: p.red or (k == 3 and l == p.lvl) }, m.gen,
        { ...mk(if (k < 2) "ReadAndAddLvl" else if (k == 2) "ReadAndAddFromDistLvl" else "ReadFromDistLvl"), x: x, z: z, ring: p.ring, lvl: l, norm: b, sam: { ...f, sg: sg, bound: b } }) } }
  // uniform samples modulo Q and P, and random ciphertexts
  action stepQP = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 6)
    val z = liveGen(gens, rng(s))
    val ring = r[0] % length(RINGS)
    val g = gens[z]
    if (not(g.live)) stay(mk("None"))
    else toGen(z, { ...g, off: -1, clk: -1 }, { ...mk(if (r[1] % 2 == 0) "ReadQP" else "RandomCt"), z: z, ring: ring, lvl: r[2] % (top(ring) + 1), n: r[3] % 4, hi: r[4] % 3 }) }

  // ------------------------------------------------------------ long samples
  pure def st(name: str, e: int, v: int, d: int): Stat = { name: name, e: e, v: v, d: d }
  // expected counts (times d) and variances of a sample of T = M N coefficients
  pure def ternaryStats(t: int, num: int, den: int): List[Stat] = {
    val q = den - num       // q/den: probability of a non-zero coefficient
    val d = den * den
    [ st("zeros", t * num, t * num * q / den, den), st("sum", 0, t * q, den),
      // neighbours: both non-zero; sign of one against non-zero of the next; sign against sign
      st("pairs", t * q * q, 3 * t * q * q, d), st("signNext", 0, t * q * q, d), st("nextSign", 0, t * q * q, d), st("signSign", 0, t * q * q, d), st("repeated", 0, 0, 1) ] }
  // m polynomials of degree n and weight h, h <= n
  pure def sparseStats(m: int, n: int, h: int): List[Stat] =
    [ st("sum", 0, m * h, 1), st("firstHalf", m * h, m * h, 2), st("even", m * h, m * h, 2), st("quarter", m * h, 3 * m * h, 4),
      // the sum of the squares of the signs' sums
      st("sumSquares", m * h, 2 * m * h * h, 1), st("signSign", 0, m * h, 1) ]
  // deviations in tenths, at least 10; bound of six deviations; 1/12 of rounding
  pure def gaussStats(t: int, sg: int): List[Stat] = {
    val s2 = sg * sg * 12 + 100       // (variance) * 1200
    [ st("sum", 0, t * s2, 1200), st("squares", t * s2, 2 * t * s2 * s2 / 1200 + t, 1200), st("signSign", 0, t, 1), st("prodNext", 0, t * s2 / 1200 * s2, 1200),
      // positive against all non-zero ones
      st("signs", 0, t, 1), st("repeated", 0, 0, 1) ] }
  // for deviations of 100 and more the shares beyond 1, 2 and 3 deviations, per million
  pure def gaussTails(t: int): List[Stat] =
    [ st("beyond1", t * 317311, t * 216625, 1000000), st("beyond2", t * 45500, t * 43430, 1000000), st("beyond3", t * 2700, t * 2693, 1000000) ]
  // truncated at one deviation and at two and a half: the variance left, per thousand
  pure def truncStats(t: int, sg: int, share: int): List[Stat] =
    [ st("sum", 0, t * sg * sg / 100, 1), st("squares", t * sg * sg * share / 1000, t * sg * sg / 100 * sg * sg / 100 * 100, 100), st("signs", 0, t, 1), st("signSign", 0, t, 1), st("repeated", 0, 0, 1) ]
  pure def uniformStats(t: int): List[Stat] =
    range(0, 8).foldl([ st("ups", t, t, 2), st("repeats", 0, 0, 1), st("reused", 0, 0, 1) ], (l, i) => l.append(st(["top0", "top1", "top2", "top3", "top4", "top5", "top6", "top7"][i], t, 7 * t / 8, 8))
      .append(st(["low0", "low1", "low2", "low3", "low4", "low5", "low6", "low7"][i], t, 7 * t / 8, 8)))
      .append(st("limbs", t, 7 * t / 8, 8)).append(st("nextTop", t, 7 * t / 8, 8))
  action stepStats = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 24)
    val m0 = sampler(r, 0)
    val n = degree(m0.ring)
    val m = maxi(30000 / n, 4)
    val t = m * n
    val h = mini(m0.hw, n)
    val dens = density(r[8] % 7)
    val sg = [10, 32, 64, 1000, 10 * pow2(20)][r[9] % 5]
    val trunc = if (sg >= 1000) r[10] % 3 else 0
    val b = if (trunc == 1) sg / 10 else if (trunc == 2) sg * 25 / 100 else sg * 6 / 10
    val sam = { ...m0, num: dens.num, den: dens.den, hw: h, sg: sg, bound: b }
    val stats = if (m0.kind == 0) uniformStats(t) else if (m0.kind == 1) ternaryStats(t, dens.num, dens.den) else if (m0.kind == 2) sparseStats(m, n, h).select(x => x.name != "sumSquares" or m >= 100)
      else if (trunc == 1) truncStats(t, sg, 291) else if (trunc == 2) truncStats(t, sg, 911)
      else if (sg >= 1000) gaussStats(t, sg).concat(gaussTails(t)) else gaussStats(t, sg)
    if (m0.kind == 2 and m * h < 1000) stay(mk("None"))
    else stay({ ...mk("Stats"), sam: sam, n: m, gen: { ...NOGEN, live: true, key: bytes(r, 11, 32) }, stats: stats }) }

  // what lies far out, of many samples: beyond 3, 3.5, 4 and 4.5 deviations, per 10^9
  pure def farStats(t: int): List[Stat] =
    [ st("beyond03", t * 764177, t * 180210, 1000000), st("beyond10", t * 317311, t * 216625, 1000000), st("beyond20", t * 45500, t * 43430, 1000000), st("beyond30", t * 2699796, t * 2692507, 1000000000), st("beyond35", t * 465258, t * 465041, 1000000000),
      st("beyond40", t * 63342, t * 63338, 1000000000), st("beyond45", t * 6795, t * 6795, 1000000000),
      st("repeated", 0, 0, 1) ]
  action stepFar = {
    nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 24)
    val m0 = sampler(r, 0)
    val sg = [200000, 20000, 10 * pow2(20)][r[9] % 3]
    val t = 4000000 / degree(m0.ring) * degree(m0.ring)
    val dens = density(r[8] % 7)
    if (r[10] % 16 == 1)
      stay({ ...mk("Far"), sam: { ...m0, kind: 1, num: dens.num, den: dens.den }, n: 4000000 / degree(m0.ring), gen: { ...NOGEN, live: true, key: bytes(r, 11, 32) },
             stats: ternaryStats(t, dens.num, dens.den).select(x => x.name != "repeated") })
    else if (r[10] % 16 > 0) stay(mk("None"))
    else stay({ ...mk("Far"), sam: { ...m0, kind: 3, sg: sg, bound: sg * 6 / 10 }, n: 3000000 / degree(m0.ring), gen: { ...NOGEN, live: true, key: bytes(r, 11, 32) },
                stats: farStats(3000000 / degree(m0.ring) * degree(m0.ring)) }) }

  action mixR06 = any { stepFar, stepGen, stepGen, stepGenBad, stepDraw, stepDraw, stepSetClock, stepSetClock, stepWord, stepFresh, stepSystem, stepSampler, stepSampler, stepSampler, stepSampler, stepSampler,
    stepGarbage, stepGarbage, stepRead, stepRead, stepRead, stepRead, stepRead, stepRead, stepRead, stepReadAdd, stepReadAdd, stepReadAdd, stepReadAdd, stepQP, stepStats }
  // large rings: what a sample is, where its coefficients fall, and what is added to what
  action mixLarge = any { stepGen, stepGen, stepSampler, stepSampler, stepSampler, stepGarbage, stepRead, stepRead, stepRead, stepReadAdd, stepReadAdd, stepQP, stepStats, stepStats, stepStats, stepStats }
  action step = mixR06

  val wellFormed = and {
    SREGS.forall(i => sams[i].live implies gens[sams[i].gen].live),
    PREGS.forall(i => pols[i].live implies (pols[i].lvl <= top(pols[i].ring) and (pols[i].norm >= 0 implies pols[i].red))),
    GREGS.forall(i => gens[i].clk < 0 or gens[i].clk == 0 implies gens[i].off <= 0) }
}
