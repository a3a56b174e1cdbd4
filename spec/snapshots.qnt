// -*- mode: Bluespec; -*-
/// Values remembered by moment (a block height or a second), the last one of each moment.
module snapshots {
  type Mark = { t: int, v: int }
  pure def stamp(l: List[Mark], t: int, v: int): List[Mark] =
    if (l.length() > 0 and l[l.length() - 1].t == t) l.replaceAt(l.length() - 1, { t: t, v: v }) else l.append({ t: t, v: v })
  /// what held when moment t began
  pure def before(l: List[Mark], t: int): int = l.foldl(0, (acc, m) => if (m.t < t) m.v else acc)
  pure def latest(l: List[Mark]): int = if (l.length() == 0) 0 else l[l.length() - 1].v
  pure def valueAt(l: List[Mark], t: int, now: int): int = if (t == now) latest(l) else before(l, t)
}
