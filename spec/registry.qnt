// -*- mode: Bluespec; -*-
/// The registry of native coins' decimals.
module registry {
  import math.* from "./math"
  import upgrades.* from "./upgrades"

  type Entry = { d: int, n: int }       // coin number (names are in byte order), decimals
  type Msg =
      Add({ who: str, l: List[Entry] })
    | Register({ who: str, l: List[Entry], coins: List[int] })   // `coins`: numbers of the coins sent along, one or more of each
    | Remove({ who: str, l: List[int] })
    | Handover({ who: str, next: str })
    | Upgrade(Release)
    | Created
  type State = { owner: str, decimals: int -> int, held: int -> int }
  type Probe = { coin: int, n: int, after: int, limit: int, page: List[Entry] }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val COINS = 0.to(8)
  pure val MONEY = Set(0, 1, 2, 3)        // alice holds these

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def numbers(l: List[Entry]): List[int] = l.foldl([], (r, e) => r.append(e.d))
  pure def setOf(l: List[int]): Set[int] = l.foldl(Set(), (r, x) => r.union(Set(x)))
  pure def distinct(l: List[int]): bool = setOf(l).size() == l.length()
  pure def decimalsOk(l: List[Entry]): bool = l.foldl(true, (b, e) => b and e.n <= 18)
  pure def put_(s: State, l: List[Entry]): State = { ...s, decimals: l.foldl(s.decimals, (m, e) => m.put(e.d, e.n)) }

  pure val RELEASES = ["1.0.1"]

  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, "astroport-native-coin-registry", RELEASES)) accept(s) else refuse(s, "release")
    | Add(x) =>
        if (x.who != s.owner) refuse(s, "unauthorized")
        else if (not(distinct(numbers(x.l)))) refuse(s, "duplicate")
        else if (not(decimalsOk(x.l))) refuse(s, "decimals")
        else accept(put_(s, x.l))
    | Register(x) =>
        // whoever registers must hold (and show) some of the coin
        if (x.coins.length() == 0) refuse(s, "no_coins")
        else if (x.coins.foldl(false, (b, d) => b or x.who != "alice" or not(MONEY.contains(d)))) refuse(s, "insufficient_balance")
        else if (numbers(x.l).foldl(false, (b, d) => b or not(setOf(x.coins).contains(d)))) refuse(s, "not_shown")
        else if (not(distinct(numbers(x.l)))) refuse(s, "duplicate")
        else if (not(decimalsOk(x.l))) refuse(s, "decimals")
        else if (numbers(x.l).foldl(false, (b, d) => b or s.decimals.keys().contains(d))) refuse(s, "exists")
        else accept(put_(s, x.l))
    | Remove(x) =>
        if (x.who != s.owner) refuse(s, "unauthorized")
        else if (not(distinct(x.l))) refuse(s, "duplicate")
        else if (x.l.foldl(false, (b, d) => b or not(s.decimals.keys().contains(d)))) refuse(s, "not_registered")
        else accept({ ...s, decimals: s.decimals.keys().exclude(setOf(x.l)).mapBy(d => s.decimals.get(d)) })
    | Handover(x) => if (x.who != s.owner or x.next == x.who) refuse(s, "unauthorized") else accept({ ...s, owner: x.next })
    | Created => accept(s)
  }
  pure def look(s: State, coin: int, after: int, limit: int): Probe = {
    val all_ = range(0, 70).select(d => s.decimals.keys().contains(d) and d > after)
    val n = if (limit == NONE) 50 else limit
    { coin: coin, n: if (s.decimals.keys().contains(coin)) s.decimals.get(coin) else NONE, after: after, limit: limit,
      page: all_.slice(0, min2(n, all_.length())).foldl([], (r, d) => r.append({ d: d, n: s.decimals.get(d) })) }
  }
  action perform(m: Msg): bool = {
    nondet c = COINS.oneOf()
    nondet a_ = RND.oneOf()
    nondet l_ = RND.oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, c, if (a_ % 2 == 0) -1 else a_ % 100 / 8, pick([NONE, NONE, 1, 2, 3, 60, 0, 100], l_)) }
  }
  action init = {
    nondet k_ = RND.oneOf()
    // a long list to page through, or an empty one
    val l = if (k_ % 2 == 0) range(9, 9 + pick([3, 45, 50, 60], k_ / 2)) else []
    val s: State = { owner: "owner", decimals: l.foldl(Map(), (m, d) => m.put(d, d % 19)), held: MONEY.mapBy(d => 1000) }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 0, -1, NONE) }
  }
  pure def caller(s: State, k_: int): str = if (k_ % 5 == 0) pick(["owner", "alice", "bob"], k_ / 5) else s.owner
  pure def entry(a_: int): Entry = { d: a_ % 9, n: pick([6, 18, 0, 8, 6, 19, 255, 6, 18, 0, 6, 8, 18], a_ / 9) }
  pure def entries(k_: int, a_: int, b_: int, c_: int): List[Entry] =
    if (k_ % 8 < 4) [entry(a_)] else if (k_ % 8 < 6) [entry(a_), entry(b_)] else if (k_ % 8 == 6) [entry(a_), entry(b_), entry(c_)] else []
  action doAdd = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    perform(Add({ who: caller(st, w_), l: entries(k_, a_, b_, c_) }))
  }
  action doRegister = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet m_ = RND.oneOf()
    // coins alice has, mostly
    val l = entries(k_, a_, b_, c_).foldl([], (r, e) => r.append(if (w_ % 8 == 0) e else { d: e.d % 4, n: e.n }))
    val shown = numbers(l).foldl([], (r, d) => if (setOf(r).contains(d)) r else r.append(d))
    val coins = pick([shown, shown, shown.concat(range(0, 4).select(d => not(setOf(shown).contains(d)))), shown, shown.select(d => d != a_ % 4), [b_ % 4]], m_)
    perform(Register({ who: if (w_ % 10 == 0) "bob" else "alice", l: l, coins: coins }))
  }
  action doRemove = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val have = range(0, 70).select(d => st.decimals.keys().contains(d))
    val one = if (have.length() > 0 and k_ % 5 > 0) pick(have, a_) else a_ % 9
    perform(Remove({ who: caller(st, w_), l: if (k_ % 3 == 0) [one, if (have.length() > 0) pick(have, b_) else 0] else if (k_ % 17 == 1) [] else [one] }))
  }
  action doHandover = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    perform(Handover({ who: caller(st, w_), next: pick(["owner", "alice", "bob"], n_) }))
  }
  action go = any { doAdd, doAdd, doRegister, doRegister, doRegister, doRemove, doRemove, doHandover }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, "astroport-native-coin-registry", RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }
  val Safe = st.decimals.keys().forall(d => st.decimals.get(d) >= 0 and st.decimals.get(d) <= 18)
}
