// Several workers, each with objects of its own: encoders, encryptors, decryptors, evaluators, key switchers and
// basis extenders, most of them shallow copies of another worker's object, some bound to another key. Within a phase
// workers run at the same time; each step reads registers of its worker and published values and writes a register
// of its worker, so the steps of two workers commute and every interleaving of a phase ends in the state computed
// here. Copies are taken and values published between phases.
module threads {
  import lib.* from "./lib"

  const NW: int              // workers
  const NR: int              // registers of a worker
  const NSH: int             // published values
  const NK: int              // secret keys
  const QL: int              // maximal level
  const SLOTS: int
  const ROTS: List[int]
  const FAST: bool           // the fast scheme: no copies, no rescaling
  const CI: bool

  // kind 0 nothing, 1 plaintext, 2 ciphertext; sc: the power of the scale
  type Reg = { kind: int, vals: List[int], key: int, lvl: int, sc: int }
  // what a worker's encryptor and decryptor are bound to (pk: to a public key), and the key of its evaluator
  type Obj = { enc: int, pk: bool, dec: int, ev: int }
  type Ref = { sh: bool, i: int }
  type Act = { op: str, w: int, z: int, x: Ref, y: Ref, key: int, src: int, how: int, k: int, lvl: int, vals: List[int], ok: bool, sync: bool }

  var objs: List[Obj]
  var regs: List[List[Reg]]
  var shared: List[Reg]
  var act: Act

  pure val NONE: Reg = { kind: 0, vals: [], key: 0, lvl: 0, sc: 1 }
  pure val OWN: Ref = { sh: false, i: 0 }
  pure def mk(op: str, w: int): Act = { op: op, w: w, z: 0, x: OWN, y: OWN, key: 0, src: 0, how: 0, k: 0, lvl: 0, vals: [], ok: true, sync: false }
  pure val LIMIT = 2048
  pure def fits(v: List[int]): bool = maxAbs(v) <= LIMIT
  pure def plus(a: List[int], b: List[int]): List[int] = range(0, SLOTS).foldl([], (l, i) => l.append(a[i] + b[i]))
  pure def minus(a: List[int], b: List[int]): List[int] = range(0, SLOTS).foldl([], (l, i) => l.append(a[i] - b[i]))
  pure def times(a: List[int], b: List[int]): List[int] = range(0, SLOTS).foldl([], (l, i) => l.append(a[i] * b[i]))
  pure def turn(a: List[int], k: int): List[int] = range(0, SLOTS).foldl([], (l, i) => l.append(a[modp(i + k, SLOTS)]))

  def look(w: int, r: Ref): Reg = if (r.sh) shared[r.i] else regs[w][r.i]
  action write(w: int, z: int, v: Reg, a: Act): bool = all {
    objs' = objs, shared' = shared, regs' = regs.replaceAt(w, regs[w].replaceAt(z, v)), act' = a }
  action stay(a: Act): bool = all { objs' = objs, shared' = shared, regs' = regs, act' = a }

  action init = all {
    objs' = range(0, NW).foldl([], (l, i) => l.append({ enc: 0, pk: true, dec: 0, ev: 0 })),
    regs' = range(0, NW).foldl([], (l, i) => l.append(range(0, NR).foldl([], (m, j) => m.append(NONE)))),
    shared' = range(0, NSH).foldl([], (l, i) => l.append(NONE)),
    act' = { ...mk("Init", 0), sync: true } }

  // ------------------------------------------------------------ between phases
  // how 0: a shallow copy of all of a worker's objects; 1: copies bound to another secret or public key
  action stepCopy = {
    nondet w = oneOf(0.to(NW - 1))  nondet src = oneOf(0.to(NW - 1))  nondet key = oneOf(0.to(NK - 1))  nondet pk = oneOf(0.to(1))  nondet how = oneOf(0.to(2))
    val o = objs[src]
    // evaluators have no copies: a new one over the same keys; the fast scheme only has new objects
    val n = if (how == 0) o else { enc: key, pk: pk == 1, dec: key, ev: key }
    all { objs' = objs.replaceAt(w, n), regs' = regs, shared' = shared, act' = { ...mk("Copy", w), src: src, key: key, how: mini(how, 1), ok: pk == 1, sync: true } } }
  action stepPublish = {
    nondet w = oneOf(0.to(NW - 1))  nondet i = oneOf(0.to(NR - 1))  nondet z = oneOf(0.to(NSH - 1))
    all { objs' = objs, regs' = regs, shared' = shared.replaceAt(z, regs[w][i]), act' = { ...mk("Publish", w), x: { sh: false, i: i }, z: z, sync: true } } }
  action stepSync = stay({ ...mk("Sync", 0), sync: true })

  // ------------------------------------------------------------ work
  // an operand of a kind: one of the worker's registers or of the published values
  pure def findRef(own: List[Reg], sh: List[Reg], kind: int, key: int, s: int): Ref = {
    val a = range(0, length(own)).foldl([], (l, i) => if (own[i].kind == kind and (key < 0 or own[i].key == key)) l.append({ sh: false, i: i }) else l)
    val b = range(0, length(sh)).foldl(a, (l, i) => if (sh[i].kind == kind and (key < 0 or sh[i].key == key)) l.append({ sh: true, i: i }) else l)
    if (length(b) == 0) { sh: false, i: -1 } else b[s % length(b)] }

  action stepEncode = {
    nondet w = oneOf(0.to(NW - 1))  nondet z = oneOf(0.to(NR - 1))  nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, SLOTS + 3)
    val v = range(0, SLOTS).foldl([], (l, i) => l.append(r[i] % 41 - 20))
    val lvl = if (FAST or r[SLOTS] % 3 > 0) QL else r[SLOTS + 1] % (QL + 1)
    write(w, z, { kind: 1, vals: v, key: 0, lvl: lvl, sc: 1 }, { ...mk("Encode", w), z: z, vals: v, lvl: lvl, how: if (FAST) 0 else r[SLOTS + 2] % 3 }) }
  action stepDecode = {
    nondet w = oneOf(0.to(NW - 1))  nondet s = oneOf(0.to(1000000000))
    val x = findRef(regs[w], shared, 1, -1, s)
    if (x.i < 0) stay(mk("None", w))
    else stay({ ...mk("Decode", w), x: x, vals: look(w, x).vals, how: s % 4 }) }
  action stepEncrypt = {
    nondet w = oneOf(0.to(NW - 1))  nondet z = oneOf(0.to(NR - 1))  nondet s = oneOf(0.to(1000000000))
    val x = findRef(regs[w], shared, 1, -1, s)
    if (x.i < 0) stay(mk("None", w))
    else {
      val p = look(w, x)
      write(w, z, { ...p, kind: 2, key: objs[w].enc }, { ...mk("Encrypt", w), x: x, z: z, vals: p.vals, lvl: p.lvl, key: objs[w].enc }) } }
  // with another key than the ciphertext's the plaintext is of no use
  action stepDecrypt = {
    nondet w = oneOf(0.to(NW - 1))  nondet z = oneOf(0.to(NR - 1))  nondet s = oneOf(0.to(1000000000))
    val x = findRef(regs[w], shared, 2, if (s % 4 == 0) -1 else objs[w].dec, s / 4)
    if (x.i < 0) stay(mk("None", w))
    else {
      val c = look(w, x)
      val good = c.key == objs[w].dec
      write(w, z, if (good) { ...c, kind: 1, key: 0 } else NONE, { ...mk("Decrypt", w), x: x, z: z, vals: c.vals, ok: good }) } }
  // op 0 add, 1 subtract, 2 product, 3 product with a plaintext, 4 rotation, 5 negation, 6 rescaling, 7 conjugation, 8 plaintext sum
  action stepEvaluate = {
    nondet w = oneOf(0.to(NW - 1))  nondet z = oneOf(0.to(NR - 1))  nondet s = oneOf(0.to(1000000000))
    val r = rngList(s, 4)
    val e = objs[w].ev
    val op = r[0] % 9
    val x = findRef(regs[w], shared, 2, e, r[1])
    val y = findRef(regs[w], shared, if (op == 3 or op == 8) 1 else 2, if (op == 3 or op == 8) -1 else e, r[2])
    val k = ROTS[r[3] % length(ROTS)]
    if (x.i < 0 or y.i < 0 or FAST and (op == 3 or op >= 5)) stay(mk("None", w))
    else {
      val a = look(w, x)
      val b = look(w, y)
      val lvl = mini(a.lvl, b.lvl)
      val m = { ...mk(["Add", "Sub", "Mul", "MulPlain", "Rotate", "Neg", "Rescale", "Conjugate", "AddPlain"][op], w), x: x, y: y, z: z, k: k, key: e }
      val v = if (op == 0 or op == 8) plus(a.vals, b.vals) else if (op == 1) minus(a.vals, b.vals) else if (op == 2 or op == 3) times(a.vals, b.vals)
        else if (op == 4) turn(a.vals, k) else if (op == 5) minus(turn(a.vals, 0).foldl([], (l, t) => l.append(0)), a.vals) else a.vals
      val unary = op >= 4 and op < 8
      val out = { kind: 2, vals: v, key: e, lvl: if (op == 6) a.lvl - 1 else if (unary) a.lvl else lvl, sc: if (op == 6) 1 else if (op == 2 or op == 3) 2 else a.sc }
      val good = fits(v) and (if (op == 2 or op == 3) a.sc == 1 and b.sc == 1 and lvl >= 1 else if (op == 6) a.sc == 2 and a.lvl >= 1 else unary or a.sc == b.sc)
        and (op != 7 or not(CI))
      if (good) write(w, z, out, { ...m, vals: v, lvl: out.lvl }) else stay(mk("None", w)) } }
  action stepSwitch = {
    nondet w = oneOf(0.to(NW - 1))  nondet z = oneOf(0.to(NR - 1))  nondet s = oneOf(0.to(1000000000))  nondet k = oneOf(0.to(NK - 1))
    val x = findRef(regs[w], shared, 2, -1, s)
    if (x.i < 0 or FAST) stay(mk("None", w))
    else if (look(w, x).key == k) stay(mk("None", w))
    else {
      val c = look(w, x)
      write(w, z, { ...c, key: k }, { ...mk("Switch", w), x: x, z: z, key: k, k: c.key, lvl: c.lvl, vals: c.vals, how: s % 3 }) } }
  // basis extension of a plaintext's polynomial and back
  action stepExtend = {
    nondet w = oneOf(0.to(NW - 1))  nondet s = oneOf(0.to(1000000000))
    val x = findRef(regs[w], shared, 1, -1, s)
    if (x.i < 0 or FAST) stay(mk("None", w))
    else stay({ ...mk("Extend", w), x: x, lvl: look(w, x).lvl, how: s % 4 }) }

  action stepBoundary = any { stepCopy, stepCopy, stepPublish, stepSync }
  // evaluators work on what is there, so their share is high
  action stepWork = any { stepEvaluate, stepEvaluate, stepEvaluate, stepEvaluate, stepEvaluate, stepEvaluate, stepEvaluate, stepEvaluate, stepSwitch, stepSwitch }
  action stepCode = any { stepEncode, stepEncode, stepEncode, stepDecode, stepEncrypt, stepEncrypt, stepEncrypt, stepDecrypt, stepDecrypt, stepExtend }
  action mixT01 = any { stepWork, stepWork, stepWork, stepWork, stepWork, stepWork, stepCode, stepCode, stepCode, stepCode, stepCode, stepBoundary }
  action step = mixT01

  // a step leaves every register of the other workers and every published value as they were
  val wellFormed = and {
    regs.indices().forall(w => regs[w].indices().forall(i => regs[w][i].kind == 0 or (length(regs[w][i].vals) == SLOTS and regs[w][i].lvl >= 0 and regs[w][i].sc <= 2))),
    shared.indices().forall(i => shared[i].kind == 0 or length(shared[i].vals) == SLOTS) }
}
