// Which requests about keys, encryptors, decryptors and maps between rings can be carried out. There are several sets
// of parameters (a ring degree, the ring type, with or without an auxiliary modulus), each with secret keys of its
// own, and slots that hold an encryptor or a decryptor. A request that can be carried out is; one that cannot is
// refused, and no key, polynomial or slot is different after it.
module refuse {
  import lib.* from "./lib"

  const RINGS: List[List[int]]   // each [log of the degree, 1 for conjugate-invariant, 1 with an auxiliary modulus]
  const NK: int                  // secret keys of each
  const NS: int                  // slots
  const QL: int                  // maximal level

  // what 0 nothing, 1 an encryptor under a secret key, 2 under a public key, 3 a decryptor
  type Slot = { what: int, ring: int, kr: int, key: int }
  // kind of a key: 0 secret, 1 public, 2 a public key with one part of another set of parameters, 3 no key at all
  type Act = { op: str, api: int, z: int, z2: int, ring: int, kind: int, kr: int, kr2: int, key: int, k: int, lvl: int, ckks: bool, legal: bool }

  var slots: List[Slot]
  var act: Act

  pure def mk(op: str): Act = { op: op, api: 0, z: 0, z2: 0, ring: 0, kind: 0, kr: 0, kr2: 0, key: 0, k: 0, lvl: 0, ckks: false, legal: true }
  pure val NONE: Slot = { what: 0, ring: 0, kr: 0, key: 0 }
  pure val ALL = 0.to(RINGS.length() - 1)
  pure def dim(r: int): int = pow2(RINGS[r][0])
  pure def ci(r: int): bool = RINGS[r][1] == 1
  pure def aux(r: int): bool = RINGS[r][2] == 1
  // keys of parameters that differ in nothing but their type or their auxiliary modulus are not told apart
  pure def sound(r: int, kr: int): bool = dim(kr) == dim(r) implies kr == r
  pure def fits(kind: int, r: int, kr: int, kr2: int): bool =
    if (kind == 3) false else if (kind == 2) dim(kr) == dim(r) and dim(kr2) == dim(r) else dim(kr) == dim(r)
  pure def made(api: int, r: int): bool = aux(r) and not(ci(r) and (api == 4 or api == 8))

  action hold(z: int, s: Slot, a: Act): bool = all { slots' = slots.replaceAt(z, s), act' = a }
  action stay(a: Act): bool = all { slots' = slots, act' = a }

  action init = all { slots' = range(0, NS).foldl([], (l, i) => l.append(NONE)), act' = mk("Init") }

  // an encryptor (api 0) or a decryptor (api 1), new (op New) or from one that is there (op WithKey)
  action stepKey = {
    nondet z = oneOf(0.to(NS - 1))  nondet z2 = oneOf(0.to(NS - 1))  nondet api = oneOf(0.to(1))  nondet r0 = oneOf(ALL)
    nondet kr = oneOf(ALL)  nondet kr1 = oneOf(ALL)  nondet kd = oneOf(0.to(7))  nondet key = oneOf(0.to(NK - 1))  nondet ck = oneOf(Set(true, false))
    nondet from = oneOf(Set(true, false))  nondet k = oneOf(0.to(5))  nondet own = oneOf(Set(true, false))
    val old = slots[z]
    val has = from and (if (api == 1) old.what == 3 else old.what == 1 or old.what == 2)
    val r = if (has) old.ring else r0
    val krX = if (own) r else kr
    val kind0 = if (api == 1) 0 else if (kd < 3) 0 else if (kd < 6) 1 else if (kd == 6) 2 else 3
    val kr2 = if (kind0 == 2) kr1 else krX
    val k1 = if (sound(r, krX)) krX else r
    val k2 = if (kind0 != 2) k1 else if (sound(r, kr2)) kr2 else r
    val kind = if (kind0 == 2 and k2 == k1) 1 else kind0
    val ok = fits(kind, r, k1, k2)
    val a = { ...mk(if (has) "WithKey" else "New"), api: api, z: z, z2: z2, ring: r, kind: kind, kr: k1, kr2: k2, key: key, k: k, ckks: ck, legal: ok }
    if (ok) hold(z2, { what: if (api == 1) 3 else 1 + kind, ring: r, kr: k1, key: key }, a) else stay(a) }

  // encryption with a given mask: under a secret key
  action stepMask = {
    nondet z = oneOf(0.to(NS - 1))  nondet lvl = oneOf(0.to(QL))
    val s = slots[z]
    if (s.what == 1 or s.what == 2) stay({ ...mk("Mask"), z: z, lvl: lvl, ring: s.ring, legal: s.what == 1 })
    else stay({ ...mk("RowGalois"), ring: s.ring, legal: not(ci(s.ring)) }) }

  // keys: 0 between two keys, 1 and 2 relinearization of one or two degrees, 3 rotation by k, 4 conjugation, 5 for a
  // Galois element, 6 for inner sums, 7 for rotations, 8 with conjugation, 9 for Galois elements
  action stepGen = {
    nondet r = oneOf(ALL)  nondet api = oneOf(0.to(9))  nondet k = oneOf((-3).to(3))  nondet key = oneOf(0.to(NK - 1))
    stay({ ...mk("Gen"), ring: r, api: api, k: k, key: key, legal: made(api, r) }) }

  // the Galois element of the conjugation (api 0), all those of inner sums (api 1)
  action stepGalois = {
    nondet r = oneOf(ALL)  nondet api = oneOf(0.to(1))
    stay({ ...mk(if (api == 0) "RowGalois" else "SumGalois"), ring: r, legal: api == 1 or not(ci(r)) }) }

  // maps between a ring and one of twice its degree: 0 unfolding, 1 folding, 2 folding onto itself, 3 padding
  action stepMap = {
    nondet r = oneOf(ALL)  nondet r2 = oneOf(ALL)  nondet api = oneOf(0.to(3))  nondet lvl = oneOf(0.to(QL))
    val up = 2 * dim(r) == dim(r2)
    val down = dim(r) == 2 * dim(r2)
    val ok = if (api == 0) up and ci(r) and not(ci(r2)) else if (api == 1) down and not(ci(r)) and ci(r2) else false
    // degrees that fit between rings of other types, and padding that can be done: the same ring twice instead
    val fit = if (api == 1) down else api != 2 and up
    stay({ ...mk("Map"), ring: r, kr: if (fit and not(ok)) r else r2, api: api, lvl: lvl, legal: ok }) }

  action mixE01 = any { stepKey, stepKey, stepKey, stepKey, stepMask, stepGen, stepGalois, stepMap }
  action step = mixE01

  val wellFormed = slots.length() == NS and slots.indices().forall(i => slots[i].what == 0 or (dim(slots[i].ring) == dim(slots[i].kr) and slots[i].what <= 3))
  // without an auxiliary modulus there are no switching keys, and in a conjugate-invariant ring nothing to conjugate
  val keysNeedAux = (act.op == "Gen" and act.legal) implies aux(act.ring)
  val noConjugation = (act.legal and ci(act.ring)) implies not((act.op == "Gen" and (act.api == 4 or act.api == 8)) or act.op == "RowGalois")
}
