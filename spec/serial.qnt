// Serialization, deep copies and equality of every kind of object that has an encoding.
//
// An object is a value: its kind, its shape and flags, and an identifier of its contents (`seed`; the replayer
// expands it into residues), with one word altered if `tw` is not zero. A blob is the value that was encoded and the codec used. Decoding a blob gives
// its value, whatever the receiver was; copying gives the value; mutating one object changes no other one.
// A buffer is a first-in first-out queue of words.
module serial {
  import lib.* from "./lib"

  const NRINGS: int          // rings known to the replayer
  const NO: int              // registers of objects
  const NB: int              // registers of blobs

  // kinds: 0 polynomial, 1 pair Q,P, 2 rlwe ciphertext, 3 ckks ciphertext, 4 secret key, 5 public key, 6 switching key,
  //        7 relinearization key, 8 rotation keys, 9 ring
  type Obj = { kind: int, logn: int, n: int, m: int, lq: int, lp: int, fl: int, seed: int, sc: int, gals: List[int], small: bool, tw: int }
  // codecs: 0 MarshalBinary, 1 WriteTo into a used buffer, 2 the same with 32-bit words, 3 the words alone
  type Blob = { o: Obj, codec: int, full: bool }
  type Act = { op: str, x: int, z: int, fresh: bool, res: bool, inc: bool, ws: List[{ b: int, v: int }] }

  var objs: List[Obj]
  var blobs: List[Blob]
  var queue: List[{ b: int, v: int }]
  var act: Act

  pure val OREGS = 0.to(NO - 1)
  pure val BREGS = 0.to(NB - 1)
  pure val WORD = pow2(64)
  pure val EMPTY: Obj = { kind: 0, logn: 4, n: 0, m: 0, lq: 0, lp: -1, fl: 0, seed: 0, sc: 0, gals: [], small: false, tw: 0 }
  pure def mk(op: str): Act = { op: op, x: 0, z: 0, fresh: false, res: false, inc: false, ws: [] }

  // ------------------------------------------------------------ objects of a kind
  pure val LEVELS = [0, 1, 2, 3, 5, 20]
  pure def shape(kind: int, s: int): Obj = {
    val r = rngList(s, 16)
    // now and then a large degree, with few moduli
    val huge = r[13] % 25 == 0 and kind <= 5
    val logn = if (huge) 7 + r[14] % 9 else 4 + (r[0] % 3)
    val lq = if (huge) r[1] % 2 else LEVELS[r[1] % (if (r[2] % 8 == 0) 6 else 4)]
    val lp = if (r[3] % 3 == 0) -1 else r[4] % 3
    val o: Obj = { ...EMPTY, kind: kind, logn: logn, lq: lq, fl: r[5] % 256, seed: r[6] % 1000000007, small: r[7] % 3 == 0 }
    if (kind == 0) { ...o, lq: if (r[8] % 20 == 0 and not(huge)) 200 else lq }
    else if (kind == 1) (if (r[8] % 4 == 0) { ...o, lq: -1, lp: r[4] % 3 } else o.with("lp", lp))
    else if (kind == 2) o.with("n", r[8] % 5)
    else if (kind == 3) { ...o, n: r[8] % 4, sc: if (r[9] % 8 == 0) 0 else 1 + r[10] % WORD }
    else if (kind == 4) o.with("lp", lp)
    else if (kind == 5) o.with("lp", lp)
    else if (kind == 6) { ...o, lq: r[1] % 4, lp: lp, m: 1 + r[8] % 4 }
    else if (kind == 7) { ...o, lq: r[1] % 3, lp: lp, m: 1 + r[8] % 3, n: r[9] % 3 }
    else if (kind == 8) {
      val k = r[9] % 6
      { ...o, logn: 4, lq: r[1] % 2, lp: lp, m: 1 + r[8] % 2, n: k,
        gals: range(0, 6).foldl([], (l, i) => {
          val g = if (i == 3) 2 * 16 - 1 else if (i == 4) pow2(31) + 2 * (r[10] % 1000) + 1 else powmod(5, r[11] % 64 + i * (1 + r[12] % 5), 65536)
          if (length(l) == k or l.indices().exists(j => l[j] == g)) l else l.append(g) }) } }
    else { ...EMPTY, kind: 9, seed: r[6] % NRINGS } }
  pure def fix(o: Obj): Obj = if (o.kind == 8) o.with("n", length(o.gals)) else o

  // can this codec write the object?
  pure def writable(o: Obj, codec: int): bool =
    codec == 0 and o.kind != 1 or codec == 1 and (o.kind == 0 or o.kind == 1) or codec == 2 and o.kind == 0 and o.small or codec == 3 and o.kind == 0
  // kinds with a deep copy; the copy of an empty key is nothing
  pure def copyable(o: Obj): bool = o.kind <= 6 or o.kind == 7 and o.n > 0
  pure def members(l: List[int]): Set[int] = l.foldl(Set(), (a, g) => a.union(Set(g)))
  // flags of a polynomial are not part of its equality
  pure def comparable(o: Obj): bool = o.kind == 0 or o.kind == 1 or o.kind >= 5 and o.kind <= 8
  pure def same(a: Obj, b: Obj): bool =
    if ((a.kind == 7 or a.kind == 8) and a.kind == b.kind and a.n == 0 and b.n == 0) true   // no contents
    else a.with("fl", 0).with("gals", []) == b.with("fl", 0).with("gals", []) and members(a.gals) == members(b.gals)
  // a set of rotation keys includes another one if it has a key for each of its elements
  pure def includes(a: Obj, b: Obj): bool = a.kind == 8 and b.kind == 8 and members(b.gals).subseteq(members(a.gals))
  // two different altered words may be the same one
  pure def decided(a: Obj, b: Obj): bool = a.tw == b.tw or a.tw == 0 or b.tw == 0

  action init = {
    nondet s = oneOf(0.to(1000000000))
    all {
      objs' = range(0, NO).foldl([], (l, i) => l.append(fix(shape((s + i) % 10, s + 17 * i)))),
      blobs' = range(0, NB).foldl([], (l, i) => l.append({ o: EMPTY, codec: 0, full: false })),
      queue' = [], act' = mk("Init")
    }
  }
  action setObj(z: int, o: Obj, a: Act): bool = all { objs' = objs.replaceAt(z, o), act' = a, blobs' = blobs, queue' = queue }

  action stepMake = {
    nondet z = oneOf(OREGS)  nondet kind = oneOf(0.to(9))  nondet s = oneOf(0.to(1000000000))
    setObj(z, fix(shape(kind, s)), mk("Make").with("z", z)) }
  // other contents in the same memory
  action stepMutate = {
    nondet z = oneOf(OREGS)  nondet s = oneOf(0.to(1000000000))
    val o = objs[z]
    if (o.kind == 9) stepMake
    else setObj(z, o.with("tw", 0).with("seed", s).with("fl", rng(s) % 256), mk("Mutate").with("z", z)) }
  action stepEncode = {
    nondet x = oneOf(OREGS)  nondet b = oneOf(BREGS)  nondet codec = oneOf(Set(0, 1, 2, 3))
    val c = if (writable(objs[x], codec)) codec else if (writable(objs[x], 0)) 0 else 1
    all { blobs' = blobs.replaceAt(b, { o: objs[x], codec: c, full: true }), act' = mk("Encode").with("x", x).with("z", b), objs' = objs, queue' = queue } }
  action stepDecode = {
    nondet b0 = oneOf(BREGS)  nondet z0 = oneOf(OREGS)  nondet fresh = oneOf(Set(true, false, false))
    val written = BREGS.filter(i => blobs[i].full)
    if (size(written) == 0) stepEncode
    else {
      val b = if (written.contains(b0)) b0 else written.fold(0, (a, i) => maxi(a, i))
      val o = blobs[b].o
      // a used receiver is of the same kind
      val peers = OREGS.filter(i => objs[i].kind == o.kind)
      val words = blobs[b].codec == 3
      val z = if (fresh or words or size(peers) == 0 or peers.contains(z0)) z0 else peers.fold(0, (a, i) => maxi(a, i))
      // the words alone do not tell the flags
      setObj(z, if (words) o.with("fl", 0) else o, mk("Decode").with("x", b).with("z", z).with("fresh", objs[z].kind != o.kind or fresh or words)) } }
  // A document cut short is refused by a new receiver; rotation keys are one document after another, and what is cut
  // between two keys holds those before. Ciphertexts also refuse what follows them.
  // x: the blob, z: whole keys kept, ws: one number of thousandths of what follows (v), or of bytes appended (b = 8);
  // res: is it taken as a (smaller) object?
  action stepCut = {
    nondet b0 = oneOf(BREGS)  nondet s = oneOf(0.to(1000000000))
    val written = BREGS.filter(i => blobs[i].full)
    if (size(written) == 0) stepEncode
    else {
      val r = rngList(s, 4)
      val texts = written.filter(i => blobs[i].o.kind == 2 or blobs[i].o.kind == 3)
      val from = if (r[0] % 3 == 0 and size(texts) > 0) texts else written
      val b = if (from.contains(b0)) b0 else from.fold(0, (a, i) => maxi(a, i))
      val o = blobs[b].o
      val more = (o.kind == 2 or o.kind == 3) and r[0] % 2 == 0
      val t = if (o.kind == 8 and o.n > 0) r[1] % o.n else 0
      val f = if (r[2] % 4 == 0) 0 else if (r[2] % 4 == 1) 999 else r[3] % 1000
      all { act' = { ...mk("Cut"), x: b, z: t, res: o.kind == 8 and (f == 0 or o.n == 0), ws: [{ b: if (more) 8 else 1, v: if (more) 1 + r[3] % 40 else f }] },
            objs' = objs, blobs' = blobs, queue' = queue } } }
  action stepCopy = {
    nondet x0 = oneOf(OREGS)  nondet z = oneOf(OREGS)
    val good = OREGS.filter(i => copyable(objs[i]))
    if (size(good) == 0) stepMake
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, i) => maxi(a, i))
      setObj(z, objs[x], mk("Copy").with("x", x).with("z", z)) } }
  action stepEqual = {
    nondet x0 = oneOf(OREGS)  nondet z0 = oneOf(OREGS)
    val good = OREGS.filter(i => comparable(objs[i]))
    if (size(good) == 0) stepMake
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, i) => maxi(a, i))
      val peers = good.filter(i => objs[i].kind == objs[x].kind and decided(objs[i], objs[x]))
      val z = if (peers.contains(z0)) z0 else peers.fold(0, (a, i) => maxi(a, i))
      all { act' = mk("Equal").with("x", x).with("z", z).with("res", same(objs[x], objs[z])).with("inc", includes(objs[x], objs[z])), objs' = objs, blobs' = blobs, queue' = queue } } }
  // comparison with a new object that differs from another one in one respect, or in none
  pure def near(o: Obj, k: int, r: int): Obj = {
    val l = length(o.gals)
    val other = { ...o, tw: if (o.tw > 0 or (o.kind == 7 or o.kind == 8) and o.n == 0) o.tw else 1 + r }
    if (k == 0) o
    else if (k == 1) o.with("fl", 255 - o.fl)
    else if (k == 2 and o.lq >= 0 and o.kind > 0) o.with("lp", if (o.lp >= 0) o.lp - 1 else r % 3)
    else if (k == 3 and o.lq >= 0) o.with("lq", if (o.lq > 0 and r % 2 == 0) o.lq - 1 else o.lq + 1)
    else if (k == 3 and o.kind == 1) o.with("lq", 0)
    else if (k == 4 and o.kind == 1 and o.lp >= 0 and o.lq >= 0) o.with("lq", -1)
    else if (k == 4 and o.kind >= 6) o.with("m", if (o.m > 1 and r % 2 == 0) o.m - 1 else o.m + 1)
    else if (k == 5 and o.kind == 7) o.with("n", if (o.n > 0 and r % 2 == 0) o.n - 1 else o.n + 1)
    // sets of rotation keys: one less, one more, another one, the same in another order
    else if (k <= 7 and k >= 5 and o.kind == 8) {
      val c = r % 4
      val g = 2 * (r / 4 % 1000) + 100001
      if (c == 0 and l > 0) (if (r / 4 % 2 == 0) { ...o, gals: o.gals.slice(0, l - 1), n: l - 1 } else { ...o, gals: o.gals.slice(1, l), n: l - 1 })
      else if (c == 1) { ...o, gals: o.gals.append(g), n: l + 1 }
      else if (c == 2 and l > 0) { ...o, gals: o.gals.replaceAt(r / 4 % l, g) }
      else { ...o, gals: o.gals.foldl([], (a, b) => [b].concat(a)) } }
    else if (k == 6) o.with("seed", o.seed + 1)
    else other }
  action stepNear = {
    nondet x0 = oneOf(OREGS)  nondet s = oneOf(0.to(1000000000))
    val good = OREGS.filter(i => comparable(objs[i]))
    if (size(good) == 0) stepMake
    else {
      val x = if (good.contains(x0)) x0 else good.fold(0, (a, i) => maxi(a, i))
      val r = rngList(s, 4)
      val v0 = near(objs[x], r[0] % 10, r[1])
      val v = if ((v0.kind == 7 or v0.kind == 8) and v0.n == 0) v0.with("tw", 0) else v0
      setObj((x + 1 + r[2] % (NO - 1)) % NO, v, mk("Equal").with("x", x).with("z", (x + 1 + r[2] % (NO - 1)) % NO).with("res", same(objs[x], v)).with("inc", includes(objs[x], v)).with("fresh", true)) } }
  // an object that differs from another one in one respect only
  action stepVariant = {
    nondet x = oneOf(OREGS)  nondet z = oneOf(OREGS)  nondet what = oneOf(0.to(4))
    val o = objs[x]
    if (o.kind == 9 or o.kind == 8 and what > 2) stepMake
    else {
      val v = if (what == 0) o.with("fl", 255 - o.fl)
        else if (what == 1 and o.lp >= 0 and o.lq >= 0 and (o.kind == 1 or o.kind >= 4)) o.with("lp", -1)
        else if (what == 2 and o.lq > 0) o.with("lq", o.lq - 1)
        else if (what == 3 and (o.kind == 6 or o.kind == 7)) o.with("m", o.m + 1)
        else if (what == 4 and o.kind == 1 and o.lp >= 0 and o.lq >= 0) o.with("lq", -1)
        else o.with("seed", o.seed + 1)
      setObj(z, v, mk("Make").with("z", z)) } }

  // ------------------------------------------------------------ buffers
  action stepPut = {
    nondet s = oneOf(0.to(1000000000))  nondet kind = oneOf(0.to(3))
    val r = rngList(s, 8)
    val n = if (kind < 2) 1 else r[7] % 5
    val ws = range(0, n).foldl([], (l, i) => l.append(
      if (kind % 2 == 0) { b: 1, v: r[i] % 256 } else { b: 8, v: if (r[i] % 5 == 0) WORD - 1 - r[i] % 3 else r[i] * 1125899906842597 % WORD }))
    all { queue' = queue.concat(ws), act' = { ...mk(if (kind < 2) "Put" else "PutMany"), ws: ws, x: if (kind % 2 == 0) 1 else 8 }, objs' = objs, blobs' = blobs } }
  action stepTake = {
    nondet k0 = oneOf(1.to(4))  nondet many = oneOf(Set(true, false))
    if (length(queue) == 0) stepPut
    else {
      // the longest run of words of one size, at most k0
      val k = range(0, length(queue)).foldl({ n: 0, go: true }, (st, i) => if (st.go and i < k0 and queue[i].b == queue[0].b) { n: i + 1, go: true } else st.with("go", false)).n
      val t = if (many) k else 1
      all { queue' = queue.slice(t, length(queue)), act' = { ...mk(if (many) "TakeMany" else "Take"), ws: queue.slice(0, t), x: queue[0].b }, objs' = objs, blobs' = blobs } } }

  action mixS01 = any { stepMake, stepMutate, stepMutate, stepEncode, stepEncode, stepEncode, stepDecode, stepDecode, stepDecode, stepDecode, stepCut, stepCut, stepCopy, stepCopy, stepEqual, stepNear, stepNear, stepNear, stepVariant, stepPut, stepTake }
  action step = mixS01

  val wellFormed = and {
    OREGS.forall(i => { val o = objs[i]  o.kind >= 0 and o.kind <= 9 and (o.kind == 8 implies length(o.gals) == o.n) and (o.lq >= 0 or o.lp >= 0) }),
    BREGS.forall(i => blobs[i].full implies writable(blobs[i].o, blobs[i].codec)) }
}
