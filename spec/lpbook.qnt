// -*- mode: Bluespec; -*-
/// What the tracker of a pool's LP tokens remembers, by block: each holder's tokens and the supply.
module lpbook {
  import snapshots as sn from "./snapshots"

  type Book = { of: str -> List[{ t: int, v: int }], total: List[{ t: int, v: int }] }
  pure def empty(who: Set[str]): Book = { of: who.mapBy(_ => []), total: [] }
  /// in block h these accounts come to have this much; the supply then seen (a burn is only seen by the next movement)
  pure def enter(b: Book, h: int, now: List[{ who: str, n: int }], total: int): Book =
    { of: now.foldl(b.of, (m, x) => m.set(x.who, sn::stamp(m.get(x.who), h, x.n))), total: sn::stamp(b.total, h, total) }
  pure def held(b: Book, who: str, h: int, now: int): int = sn::valueAt(b.of.get(who), h, now)
  pure def total(b: Book, h: int, now: int): int = sn::valueAt(b.total, h, now)
}
