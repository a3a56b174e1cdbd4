// -*- mode: Bluespec; -*-
/// The maker: fees of many kinds are traded into ASTRO along configured bridges by anyone who asks, and the ASTRO is
/// split between a second receiver, governance, a development fund (in an asset of its choice) and the stakers.
module maker {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import curve.* from "./curve"
  import pools.priceGuard from "./pools"

  type Wish = { i: int, limit: int }          // an asset to sell and how much of it at most (NONE: all)
  type Bridge = { of: int, via: int }
  type Dev = { share: int, asset: int }       // share 0: no development fund
  /// "" and NONE: as it is. to "": the development fund stays
  type Change = { factory: str, staking: bool, gov: str, percent: int, base: int, spread: int, cut: int, cooldown: int, astro: int, dev: Dev, to: str }
  type Msg =
      Collect({ who: str, wishes: List[Wish] })
    | Internal({ who: str, kind: str, i: int })              // the maker's own steps, called by others
    | Staking({ who: str })                                  // a staking contract is set
    | Govern({ who: str, on: bool, percent: int })           // on: governance receives; percent NONE: unchanged
    | Second({ who: str, cut: int })
    | Develop({ who: str, dev: Dev, to: str })
    | Limits({ who: str, spread: int, cooldown: int })
    | Together({ who: str, new: Change })                    // many settings in one message
    | Default({ who: str, i: int })                          // the default bridge
    | Astro({ who: str, i: int })                            // what counts as ASTRO
    | Bridges({ who: str, add: List[Bridge], remove: List[int] })
    | Enable({ who: str, blocks: int })
    | Seize({ who: str, wishes: List[Wish] })
    | Seizable({ who: str, to: str, list: List[int] })
    | Give({ who: str, i: int, n: int })
    | Close({ k: int })
    | Fees({ bps: int, maker: int })
    | Wait({ seconds: int, blocks: int })
    | Another({ staking: bool, gov: bool, percent: int, spread: int, cut: int, cooldown: int, base: int })     // one more maker
    | Upgrade({ was: Release, cut: int, cooldown: int })
    | Created
  /// main: the factory asked for pools is the one that has them
  type Cfg = { main: bool, base: int, staking: bool, gov: bool, percent: int, spread: int, cut: int, cooldown: int, dev: Dev, astro: int,
               enabled: bool, blocks: int, lastBlock: int, remainder: int, pre: int }
  type State = { bal: List[str -> int], live: List[bool], fee: int, mfee: int, now: int, height: int, cfg: Cfg, via: List[int],
                 last: int, seizer: str, seizable: List[int], kinds: List[str] }
  /// what the last message shared out: of how much ASTRO, and to whom
  type Share = { of: int, second: int, gov: int, dev: int, staking: int, promised: int }
  type Probe = { assets: List[int], held: List[int], share: Share }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val ASSETS = [0, 1, 2, 3, 4, 5]
  pure val PAIRS = [[0, 1], [1, 2], [2, 3], [0, 2], [3, 4], [4, 5]]
  pure val POOLS = ["p0", "p1", "p2", "p3", "p4", "p5"]
  pure val OTHERS = ["staking", "gov", "second", "dev", "seizer"]
  pure val ALL = Set("alice", "maker", "p0", "p1", "p2", "p3", "p4", "p5", "staking", "gov", "second", "dev", "seizer")
  pure val DEFAULT_SLIPPAGE = 5 * 10^15
  pure val MAX_SLIPPAGE = 5 * 10^17
  pure val NO_SHARE: Share = { of: 0, second: 0, gov: 0, dev: 0, staking: 0, promised: 0 }

  type Next = { s: State, why: str, share: Share }
  pure def refuse(s: State, why: str): Next = { s: s, why: why, share: NO_SHARE }
  pure def accept(s: State): Next = { s: s, why: "ok", share: NO_SHARE }
  pure def held(s: State, i: int, who: str): int = s.bal[i].get(who)
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  pure def pairOf(s: State, a: int, b: int): int =
    PAIRS.indices().fold(-1, (acc, k) => if (s.cfg.main and s.live[k] and Set(PAIRS[k][0], PAIRS[k][1]) == Set(a, b)) k else acc)
  pure def paired(s: State, a: int, b: int): bool = pairOf(s, a, b) >= 0

  // ---- routes ---------------------------------------------------------------------------------------------------

  /// Does trading `f` for its bridge `b` lead on to ASTRO, within three trades?
  pure def leads(s: State, f: int, b: int): bool =
    range(0, 4).foldl({ f: f, b: b, done: false, ok: true }, (x, d) =>
      if (x.done) x
      else if (not(paired(s, x.f, x.b))) { ...x, done: true, ok: false }
      else if (x.b == s.cfg.astro or paired(s, x.b, s.cfg.astro)) { ...x, done: true }
      else if (d >= 2 or s.via[x.b] < 0) { ...x, done: true, ok: false }
      else { ...x, f: x.b, b: s.via[x.b] }).ok
  /// what `i` is traded for next: -1 if nothing
  pure def target(s: State, i: int): int =
    if (s.via[i] >= 0) { if (leads(s, i, s.via[i])) s.via[i] else -1 }
    else if (s.cfg.base >= 0 and s.cfg.base != i and paired(s, i, s.cfg.base)) s.cfg.base
    else if (paired(s, i, s.cfg.astro)) s.cfg.astro
    else -1
  /// the default bridge is a stop on the way even where it is ASTRO itself
  pure def stop(s: State, i: int, t: int): bool = t != s.cfg.astro or (s.via[i] < 0 and s.cfg.base == t)

  pure def trade(x: Next, o: int, a: int, n: int): Next = {
    val k = pairOf(x.s, o, a)
    if (x.why != "ok") x
    else if (k < 0) refuse(x.s, "no_pair")
    else if (held(x.s, o, "maker") < n) refuse(x.s, "insufficient")
    else {
      val q = quote(held(x.s, o, POOLS[k]), held(x.s, a, POOLS[k]), n, 0, bps(x.s.fee))
      if (not(q.ok)) refuse(x.s, "no_quote")
      else {
        val g = priceGuard(NONE, x.s.cfg.spread, n, q.ret + q.fee, q.spread, DEFAULT_SLIPPAGE, MAX_SLIPPAGE)
        if (g != "") refuse(x.s, g)
        // the maker is who the pools' own fees go to
        else { ...x, s: pay(pay(x.s, o, "maker", POOLS[k], n), a, POOLS[k], "maker", q.ret + mulDec(q.fee, bps(x.s.mfee))) }
      }
    }
  }
  type Leg = { o: int, a: int, n: int }
  type Round = { x: Next, more: Set[int], traded: bool }
  /// One round of trades, planned on what the maker holds before the first of them.
  pure def sell(s: State, wishes: List[Wish]): Round = {
    val legs = wishes.foldl({ l: [], ok: true }, (acc, w) => {
      val b = held(s, w.i, "maker")
      val n = if (w.limit > 0 and w.limit < b) w.limit else b
      val t = target(s, w.i)
      if (n == 0) acc
      else if (t < 0) { ...acc, ok: false }
      else { ...acc, l: acc.l.append({ o: w.i, a: t, n: n }) }
    })
    if (not(legs.ok)) { x: refuse(s, "cannot_swap"), more: Set(), traded: true }
    else { x: legs.l.foldl(accept(s), (x, g) => trade(x, g.o, g.a, g.n)),
           more: legs.l.foldl(Set(), (acc, g) => if (stop(s, g.o, g.a)) acc.union(Set(g.a)) else acc),
           traded: legs.l.length() > 0 }
  }

  // ---- sharing out -----------------------------------------------------------------------------------------------

  pure def split(s: State, n: int, promised: int): Share = {
    val second = n * s.cfg.cut / 100
    val gov = if (s.cfg.gov) (n - second) * s.cfg.percent / 100 else 0
    val dev = mulDec(n, s.cfg.dev.share)
    { of: n, second: second, gov: gov, dev: dev, staking: if (s.cfg.staking) n - second - gov - dev else 0, promised: promised }
  }
  pure def handOut(s: State, n: int, promised: int): Next = {
    val h = split(s, n, promised)
    val i = s.cfg.astro
    val d = s.cfg.dev.asset
    val paid = pay(pay(s, i, "maker", "second", h.second), i, "maker", "gov", h.gov)
    val before = if (h.dev > 0) held(paid, d, "maker") else 0
    val x = if (h.dev > 0) trade(accept(paid), i, d, h.dev) else accept(paid)
    if (h.staking < 0) refuse(s, "shares_exceed")
    else if (x.why != "ok") x
    // only what the trade brought goes to the fund, not what fees the maker holds in that asset
    else {
      val y = if (h.dev > 0) pay(x.s, d, "maker", "dev", held(x.s, d, "maker") - before) else x.s
      { s: pay(y, i, "maker", "staking", h.staking), why: "ok", share: h }
    }
  }
  pure def distribute(s: State): Next = {
    val c = s.cfg
    val amount = held(s, c.astro, "maker")
    if (amount == 0) accept(s)
    else if (not(c.enabled)) accept({ ...s, cfg: { ...c, pre: amount, remainder: amount } })
    else if (c.remainder == 0) handOut(s, amount, 0)
    else if (s.height == c.lastBlock) accept(s)
    else if (amount < c.remainder) refuse(s, "overflow")
    else {
      val due = min2((s.height - c.lastBlock) * (c.pre / c.blocks), c.remainder)
      handOut({ ...s, cfg: { ...c, remainder: c.remainder - due, lastBlock: s.height } }, amount - c.remainder + due, due)
    }
  }
  pure def collect(s: State, wishes: List[Wish]): Next = {
    val asked = wishes.select(w => w.i != s.cfg.astro)
    val first = sell({ ...s, last: s.now }, asked)
    if (s.cfg.cooldown != NONE and s.now < s.last + s.cfg.cooldown) refuse(s, "cooldown")
    else if (wishes.indices().exists(a => wishes.indices().exists(b => a != b and wishes[a].i == wishes[b].i))) refuse(s, "duplicate")
    else if (not(first.traded)) distribute({ ...s, last: s.now })
    else {
      val r = range(0, 6).foldl(first, (r, d) =>
        if (r.x.why != "ok" or r.more == Set()) r
        else if (d >= 5) { ...r, x: refuse(s, "too_deep") }
        else {
          val q = sell(r.x.s, ASSETS.select(i => r.more.contains(i)).foldl([], (l, i) => l.append({ i: i, limit: NONE })))
          { x: if (q.traded) q.x else refuse(s, "nothing_to_swap"), more: q.more, traded: true }
        })
      if (r.x.why != "ok") refuse(s, r.x.why) else distribute(r.x.s)
    }
  }

  // ---- settings ---------------------------------------------------------------------------------------------------

  pure def given(a: int, b: int): int = if (a == NONE) b else a
  /// one setting after the other, all or none
  pure def together(s: State, x: Change): Next = {
    val c = { ...s.cfg, main: if (x.factory == "") s.cfg.main else x.factory == "main", staking: s.cfg.staking or x.staking,
              gov: if (x.gov == "") s.cfg.gov else x.gov == "set", percent: given(x.percent, s.cfg.percent), base: given(x.base, s.cfg.base),
              spread: given(x.spread, s.cfg.spread), cut: given(x.cut, s.cfg.cut), cooldown: given(x.cooldown, s.cfg.cooldown), astro: given(x.astro, s.cfg.astro),
              dev: if (x.to == "") s.cfg.dev else if (x.dev.share == NONE) { share: 0, asset: 0 } else x.dev }
    val s1 = { ...s, cfg: c }
    if (x.factory == "bad") refuse(s, "bad_address")
    else if (x.gov == "remove" and not(c.staking)) refuse(s, "nobody_left")
    else if (x.percent > 100) refuse(s, "percent")
    else if (not(c.staking) and x.percent != NONE and x.percent != 100) refuse(s, "must_be_100")
    else if (x.spread != NONE and (x.spread == 0 or x.spread > MAX_SLIPPAGE)) refuse(s, "spread")
    else if (x.cut != NONE and (x.cut == 0 or x.cut > 50)) refuse(s, "cut")
    else if (x.cooldown != NONE and (x.cooldown < 30 or x.cooldown > 600)) refuse(s, "cooldown")
    else if (x.to == "" or x.dev.share == NONE) accept(s1)
    else if (x.to == "x" or x.dev.share == 0 or x.dev.share > E18) refuse(s, "dev_share")
    else if (not(paired(s1, c.astro, x.dev.asset))) refuse(s, "no_pair")
    else accept(s1)
  }

  /// the shares together are at most everything
  pure def within(c: Cfg): bool =
    (100 * c.cut + (if (c.gov) (100 - c.cut) * c.percent else 0)) * E18 / 10000 + c.dev.share <= E18
  pure def owned(s: State, who: str, n: Next): Next =
    if (who != "owner") refuse(s, "unauthorized") else if (n.why != "ok") n
    else if (not(within(n.s.cfg))) refuse(s, "shares_exceed") else n
  pure val CONTRACT = "astroport-maker"
  pure val RELEASES = ["1.2.0", "1.4.0", "1.5.0", "1.6.0"]
  /// Older releases have nothing that can be seized, those before 1.6 no development fund, and the oldest no cooldown.
  pure def upgrade(s: State, was: Release, cut: int, cooldown: int): Next = {
    val c = { ...s.cfg, dev: if (was.version == "1.6.0") s.cfg.dev else { share: 0, asset: 0 } }
    val s1 = { ...s, seizer: "", seizable: [], cfg: c }
    if (not(knows(was, CONTRACT, RELEASES))) refuse(s, "release")
    else if (was.version != "1.2.0") accept(s1)
    else if (cooldown != NONE and (cooldown < 30 or cooldown > 600)) refuse(s, "cooldown")
    else if (cut != NONE and (cut <= 0 or cut > 50)) refuse(s, "cut")
    else accept({ ...s1, last: s.now, cfg: { ...c, cooldown: cooldown, cut: if (cut == NONE) c.cut else cut } })
  }
  pure def exec(s: State, m: Msg): Next = {
    val c = s.cfg
    match m {
      | Collect(x) => {
          val r = collect(s, x.wishes)
          if (r.why == "ok") r else refuse(s, r.why)
        }
      | Internal(x) => refuse(s, "unauthorized")
      | Staking(x) => owned(s, x.who, accept({ ...s, cfg: { ...c, staking: true } }))
      | Govern(x) => owned(s, x.who,
          if (not(x.on) and not(c.staking)) refuse(s, "nobody_left")
          else if (x.percent > 100) refuse(s, "percent")
          else if (not(c.staking) and x.percent != NONE and x.percent != 100) refuse(s, "must_be_100")
          else accept({ ...s, cfg: { ...c, gov: x.on, percent: if (x.percent == NONE) c.percent else x.percent } }))
      | Second(x) => owned(s, x.who, if (x.cut <= 0 or x.cut > 50) refuse(s, "cut") else accept({ ...s, cfg: { ...c, cut: x.cut } }))
      | Develop(x) => owned(s, x.who,
          if (x.dev.share == NONE) accept({ ...s, cfg: { ...c, dev: { share: 0, asset: 0 } } })
          else if (x.to == "x" or x.dev.share == 0 or x.dev.share > E18) refuse(s, "dev_share")
          else if (not(paired(s, c.astro, x.dev.asset))) refuse(s, "no_pair")
          else accept({ ...s, cfg: { ...c, dev: x.dev } }))
      | Another(x) =>
          if (x.percent > 100) refuse(s, "percent")
          else if (not(x.staking) and x.percent != 100) refuse(s, "must_be_100")
          else if (x.spread == 0 or x.spread > MAX_SLIPPAGE) refuse(s, "spread")
          else if (x.cooldown != NONE and (x.cooldown < 30 or x.cooldown > 600)) refuse(s, "cooldown")
          else if (x.cut != NONE and (x.cut == 0 or x.cut > 50)) refuse(s, "cut")
          else if (not(x.staking) and not(x.gov)) refuse(s, "nobody_left")
          else accept(s)
      | Limits(x) => owned(s, x.who,
          if (x.spread != NONE and (x.spread == 0 or x.spread > MAX_SLIPPAGE)) refuse(s, "spread")
          else if (x.cooldown != NONE and (x.cooldown < 30 or x.cooldown > 600)) refuse(s, "cooldown")
          else accept({ ...s, cfg: { ...c, spread: if (x.spread == NONE) c.spread else x.spread, cooldown: if (x.cooldown == NONE) c.cooldown else x.cooldown } }))
      | Together(x) => owned(s, x.who, together(s, x.new))
      | Default(x) => owned(s, x.who, accept({ ...s, cfg: { ...c, base: x.i } }))
      | Astro(x) => owned(s, x.who, accept({ ...s, cfg: { ...c, astro: x.i } }))
      | Bridges(x) =>
          if (x.who != "owner") refuse(s, "unauthorized")
          else {
            val s0 = { ...s, via: x.remove.foldl(s.via, (l, i) => l.replaceAt(i, -1)) }
            val r = x.add.foldl(accept(s0), (y, b) =>
              if (y.why != "ok") y
              else if (b.of == b.via) refuse(s, "same")
              else if (not(leads(y.s, b.of, b.via))) refuse(s, "no_route")
              else accept({ ...y.s, via: y.s.via.replaceAt(b.of, b.via) }))
            if (r.why == "ok") r else refuse(s, r.why)
          }
      | Enable(x) =>
          if (x.who != "owner") refuse(s, "unauthorized")
          else if (c.enabled) refuse(s, "already")
          else if (x.blocks == 0) refuse(s, "zero_blocks")
          else accept({ ...s, cfg: { ...c, enabled: true, blocks: x.blocks, lastBlock: s.height } })
      | Seize(x) =>
          if (x.wishes.length() == 0) refuse(s, "empty")
          else if (s.seizable.length() == 0) refuse(s, "nothing_seizable")
          else if (x.wishes.indices().exists(k => s.seizable.indices().forall(j => s.seizable[j] != x.wishes[k].i))) refuse(s, "not_seizable")
          else {
            // each wish is measured against what was held at first
            val r = x.wishes.foldl(accept(s), (y, w) => {
              val b = held(s, w.i, "maker")
              val n = if (w.limit == NONE) b else min2(w.limit, b)
              if (y.why != "ok" or n == 0) y
              else if (s.seizer == "") refuse(s, "no_receiver")
              else if (held(y.s, w.i, "maker") < n) refuse(s, "insufficient")
              else accept(pay(y.s, w.i, "maker", s.seizer, n))
            })
            if (r.why == "ok") r else refuse(s, r.why)
          }
      | Seizable(x) => if (x.who != "owner") refuse(s, "unauthorized") else accept({ ...s, seizer: if (x.to == "") s.seizer else x.to, seizable: x.list })
      | Give(x) => if (x.n == 0 or held(s, x.i, x.who) < x.n) refuse(s, "insufficient") else accept(pay(s, x.i, x.who, "maker", x.n))
      | Close(x) => if (not(s.live[x.k])) refuse(s, "no_pair") else accept({ ...s, live: s.live.replaceAt(x.k, false) })
      | Fees(x) => accept({ ...s, fee: x.bps, mfee: x.maker })
      | Wait(x) => accept({ ...s, now: s.now + x.seconds, height: s.height + x.blocks })
      | Upgrade(x) => upgrade(s, x.was, x.cut, x.cooldown)
      | Created => accept(s)
    }
  }

  // ---- behaviours -----------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet off = 0.to(5).oneOf()
    nondet len = 0.to(6).oneOf()
    val r = exec(st, m)
    val ask = range(0, len).foldl([], (l, k) => l.append((off + k) % 6))
    all { st' = r.s, msg' = m, res' = r.why,
          probe' = { assets: ask, held: ask.foldl([], (l, i) => l.append(held(r.s, i, "maker"))), share: r.share } }
  }
  pure def ownerMostly(k: int): str = if (k % 16 == 0) "alice" else "owner"

  action init = {
    nondet rich = 5.to(14).oneOf()
    nondet skew_ = RND.oneOf()
    nondet fee_ = RND.oneOf()
    nondet cfg_ = RND.oneOf()
    nondet pct = 0.to(100).oneOf()
    val fill = range(0, 6).foldl([], (l, k) => l.append({
      a: (1000 + (skew_ * (k + 3)) % 997) * 10^rich / 100,
      b: (1000 + (skew_ * (k + 11)) % 991) * 10^rich / 100 * pick([1, 1, 1, 10, 1000, 1, 1], skew_ / (k + 1)) }))
    val bal = range(0, 6).foldl([], (l, i) => l.append(ALL.mapBy(a =>
      if (a == "alice") 500 * 10^rich
      else {
        val k = POOLS.indices().fold(-1, (acc, j) => if (POOLS[j] == a) j else acc)
        if (k < 0) 0 else if (PAIRS[k][0] == i) fill[k].a else if (PAIRS[k][1] == i) fill[k].b else 0
      })))
    val staking = cfg_ % 4 != 0
    val gov = not(staking) or cfg_ % 3 != 0
    val c: Cfg = { main: true, base: pick([1, 1, -1, 2, 0, 1], cfg_ / 5), staking: staking, gov: gov, percent: if (staking) pct else 100,
      spread: pick([5 * 10^16, 5 * 10^16, 5 * 10^17, 10^16], cfg_ / 7), cut: pick([0, 0, 10, 50, 33], cfg_ / 11), cooldown: pick([NONE, 30, 600, 60, NONE], cfg_ / 13),
      dev: { share: 0, asset: 0 }, astro: 0, enabled: false, blocks: 0, lastBlock: 0, remainder: 0, pre: 0 }
    val s: State = { bal: bal, live: [true, true, true, true, true, true], fee: pick([30, 30, 0, 100, 3000], fee_), mfee: pick([0, 3333, 10000, 5000], fee_ / 5),
      now: 1600000000, height: 100, cfg: c, via: [-1, -1, -1, -1, -1, -1], last: 1600000000, seizer: "", seizable: [],
      kinds: [pick(["native", "cw20"], cfg_ / 17), "native", "native", "cw20", "native", "cw20"] }
    all { st' = s, msg' = Created, res' = "ok", probe' = { assets: [], held: [], share: NO_SHARE } }
  }

  /// a list of assets to sell or seize, some of them twice
  pure def wish(s: State, start: int, n: int, k: int): List[Wish] =
    range(0, n).foldl([], (l, j) => {
      val i = if (k % 32 == 0 and j == 1) start else (start + j * pick([1, 5], k / 32)) % 6
      val b = held(s, i, "maker")
      l.append({ i: i, limit: pick([NONE, NONE, NONE, NONE, b / 2, b / 3 + 1, b, b + 1, 0, 1], k / (j + 3)) })
    })
  pure def resting(s: State): bool = s.cfg.cooldown != NONE and s.now < s.last + s.cfg.cooldown
  action doCollect = {
    nondet i = 0.to(5).oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    perform(Collect({ who: "alice", wishes: wish(st, i, pick([0, 1, 1, 2, 2, 3, 4, 6], n_), k_) }))
  }
  action doSeize = {
    nondet i = 0.to(5).oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet own_ = RND.oneOf()
    val w = wish(st, i, pick([0, 1, 1, 2, 2, 3], n_), k_)
    val l = st.seizable.length()
    // mostly of what may be seized
    val w2 = if (l == 0 or own_ % 4 == 0) w else w.indices().fold([], (acc, j) => acc.append({ ...w[j], i: st.seizable[(k_ + j) % l] }))
    perform(Seize({ who: "alice", wishes: w2 }))
  }
  action doSeizable = {
    nondet who_ = RND.oneOf()
    nondet to_ = RND.oneOf()
    nondet i = 0.to(5).oneOf()
    nondet n = 0.to(3).oneOf()
    nondet step_ = Set(1, 5, 3, 0).oneOf()
    val list = range(0, n).foldl([], (l, j) => l.append((i + j * step_) % 6))
    // ASTRO itself only now and then
    perform(Seizable({ who: ownerMostly(who_), to: if (st.seizer == "") "seizer" else pick(["", "second", "seizer"], to_),
                       list: if (to_ % 5 == 0) list else list.select(x => x > 0) }))
  }
  action doGive = {
    nondet i_ = RND.oneOf()
    nondet e = 1.to(6).oneOf()
    nondet f = 1.to(999).oneOf()
    nondet odd = 0.to(99).oneOf()
    val i = pick([0, 1, 2, 3, 4, 5], i_)
    perform(Give({ who: "alice", i: i, n: if (odd == 0) held(st, i, "alice") + 1 else held(st, i, "alice") * f / (1000 * 10^e) + odd % 3 }))
  }
  action doBridges = {
    nondet who_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet i = 0.to(5).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet rem_ = RND.oneOf()
    val add = pick([
      [{ of: 3, via: 2 }, { of: 4, via: 3 }, { of: 5, via: 4 }], [{ of: 3, via: 2 }], [{ of: 3, via: 2 }, { of: 4, via: 3 }],
      [{ of: 4, via: 3 }], [{ of: 5, via: 4 }], [{ of: 2, via: 0 }], [{ of: 2, via: 1 }], [{ of: 1, via: 0 }], [{ of: 1, via: 2 }],
      [{ of: i, via: j }], [{ of: i, via: j }, { of: j, via: 2 }], []], k_)
    perform(Bridges({ who: ownerMostly(who_), add: add, remove: pick([[], [], [], [i], [j], [i, j], [3], [i, 3, i]], rem_) }))
  }
  action doGovern = {
    nondet who_ = RND.oneOf()
    nondet p = 0.to(101).oneOf()
    nondet k_ = RND.oneOf()
    perform(Govern({ who: ownerMostly(who_), on: k_ % 3 != 0, percent: pick([NONE, p, p, 100, 0, 101], k_ / 3) }))
  }
  action doDevelop = {
    nondet who_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet e = 0.to(18).oneOf()
    nondet f = 0.to(110).oneOf()
    nondet a_ = RND.oneOf()
    // up to exactly what the other shares leave
    val left = E18 - (100 * st.cfg.cut + (if (st.cfg.gov) (100 - st.cfg.cut) * st.cfg.percent else 0)) * E18 / 10000
    perform(Develop({ who: ownerMostly(who_), to: pick(["dev", "dev", "dev", "dev", "dev", "dev", "x"], who_ / 16),
      dev: { share: pick([NONE, f * 10^16, left * f / 101, left, left + 1, left / 3, left / 7], k_), asset: pick([1, 1, 2, 2, 1, 2, 3, 0], a_) } }))
  }
  action doSecond = {
    nondet who_ = RND.oneOf()
    nondet cut = Set(0, 1, 3, 10, 33, 50, 51).oneOf()
    perform(Second({ who: ownerMostly(who_), cut: cut }))
  }
  action doLimits = {
    nondet who_ = RND.oneOf()
    nondet sp = Set(NONE, 0, 1, 10^15, 5 * 10^16, 5 * 10^17, 5 * 10^17 + 1).oneOf()
    nondet cd = Set(NONE, 29, 30, 31, 60, 600, 601).oneOf()
    nondet safe = 0.to(2).oneOf()
    perform(Limits({ who: ownerMostly(who_), spread: if (safe > 0 and sp < 5 * 10^16) NONE else sp, cooldown: cd }))
  }
  action doTogether = {
    nondet who_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    nondet p = 0.to(101).oneOf()
    nondet f = 0.to(110).oneOf()
    val few = d_ % 3 == 0
    perform(Together({ who: ownerMostly(who_), new: {
      factory: if (not(st.cfg.main)) pick(["main", "main", "", "bad"], a_) else pick(["", "", "", "", "main", "", "", "", "empty", "bad"], a_),
      staking: a_ / 10 % 4 == 0, gov: pick(["", "set", "remove", "set"], a_ / 40), percent: pick([NONE, p, p, 100, NONE, p, 101], b_),
      base: if (few) NONE else pick([NONE, 1, 2, NONE, 0], b_ / 7), spread: if (few) NONE else pick([NONE, NONE, 5 * 10^16, 5 * 10^17, 5 * 10^17, 0], b_ / 35),
      cut: pick([NONE, 1, 10, 50, NONE, 20, 51], c_), cooldown: if (few) NONE else pick([NONE, 30, 60, NONE, 600, 300, 29], c_ / 7),
      astro: if (few) NONE else pick([NONE, NONE, NONE, NONE, 0, 1], c_ / 49), to: pick(["", "dev", "dev", "dev", "", "dev", "x"], d_ / 3),
      dev: { share: pick([NONE, f * 10^16, f * 10^15, f * 10^14, f * 5 * 10^15], d_ / 21), asset: pick([1, 2, 1, 2, 3], d_ / 105) } } }))
  }
  action doAnother = {
    nondet k_ = RND.oneOf()
    nondet p = Set(NONE, 0, 1, 99, 100, 100, 101).oneOf()
    nondet sp = Set(NONE, NONE, 0, 1, 10^15, 5 * 10^17, 5 * 10^17 + 1).oneOf()
    nondet cut = Set(NONE, 0, 1, 50, 51).oneOf()
    nondet cd = Set(NONE, 29, 30, 600, 601).oneOf()
    nondet i = Set(NONE, 1, 3).oneOf()
    // mostly one value that may be wrong
    val odd = k_ % 6
    perform(Another({ staking: k_ / 6 % 3 != 0, gov: k_ / 18 % 3 != 0, percent: if (odd < 2 or k_ / 54 % 2 == 0) (if (k_ / 6 % 3 == 0 and odd > 0) 100 else p) else NONE,
                      spread: if (odd == 2) sp else if (sp > 0 and sp <= 5 * 10^17) sp else NONE, cut: if (odd == 3) cut else if (cut > 0 and cut <= 50) cut else NONE,
                      cooldown: if (odd == 4) cd else if (cd >= 30 and cd <= 600) cd else NONE, base: i }))
  }
  action doDefault = {
    nondet who_ = RND.oneOf()
    nondet i_ = RND.oneOf()
    perform(Default({ who: ownerMostly(who_), i: pick([1, 1, 1, 2, 2, 3, 0], i_) }))
  }
  action doAstro = {
    nondet who_ = RND.oneOf()
    nondet i_ = RND.oneOf()
    perform(Astro({ who: ownerMostly(who_), i: pick([0, 0, 1, 2], i_) }))
  }
  action doEnable = {
    nondet who_ = RND.oneOf()
    nondet n = Set(0, 1, 2, 3, 10, 100, 1000).oneOf()
    perform(Enable({ who: ownerMostly(who_), blocks: n }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    nondet extra = 0.to(3).oneOf()
    val left = max2(st.last + st.cfg.cooldown - st.now, 0)
    val n = pick([left, left, left, left + 1, max2(left - 1, 0), 0, 1, 60, 600, 4000], k_)
    perform(Wait({ seconds: n, blocks: n / 6 + extra }))
  }
  action doClose = {
    nondet k = 0.to(5).oneOf()
    perform(Close({ k: k }))
  }
  action doFees = {
    nondet b = Set(0, 1, 30, 100, 3000).oneOf()
    nondet m = Set(0, 1, 3333, 5000, 10000).oneOf()
    perform(Fees({ bps: b, maker: m }))
  }
  action doStaking = {
    nondet who_ = RND.oneOf()
    perform(Staking({ who: ownerMostly(who_) }))
  }
  action doInternal = {
    nondet i = 0.to(5).oneOf()
    nondet kind = Set("distribute", "bridge").oneOf()
    nondet who_ = RND.oneOf()
    perform(Internal({ who: pick(["alice", "owner"], who_), kind: kind, i: i }))
  }
  action rare = {
    nondet k_ = RND.oneOf()
    if (not(st.cfg.main) and k_ % 2 == 0) doTogether
    else if (k_ % 100 < 20) doFees
    else if (k_ % 100 < 38) doTogether
    else if (k_ % 100 < 50) doLimits
    else if (k_ % 100 < 65) doInternal
    else if (k_ % 100 < 80) doDefault
    else if (k_ % 100 < 87) doClose
    else if (k_ % 100 < 93) doAnother
    else if (k_ % 100 < 97) doStaking
    else doAstro
  }
  action go = {
    nondet k_ = RND.oneOf()
    if (k_ % 100 < 27) { if (resting(st) and k_ % 5 != 0) doWait else doCollect }
    else if (k_ % 100 < 52) doGive
    else if (k_ % 100 < 64) doWait
    else if (k_ % 100 < 75) doBridges
    else if (k_ % 100 < 79) doEnable
    else if (k_ % 100 < 83) doDevelop
    else if (k_ % 100 < 86) doGovern
    else if (k_ % 100 < 89) doSecond
    else if (k_ % 100 < 92) doSeizable
    else if (k_ % 100 < 95) doSeize
    else rare
  }
  /// sharing out: ASTRO comes in and is shared
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    nondet v_ = RND.oneOf()
    nondet cut = Set(NONE, NONE, 0, 1, 50, 51).oneOf()
    nondet cd = Set(NONE, 29, 30, 60, 300, 600, 601).oneOf()
    // half of them from the oldest
    perform(Upgrade({ was: if (v_ % 2 == 0) { name: CONTRACT, version: "1.2.0" } else release(k_, CONTRACT, RELEASES), cut: cut, cooldown: cd }))
  }
  action upgrades = any { go, go, go, doUpgrade }
  action doIncome = {
    nondet e = 0.to(8).oneOf()
    nondet f = 1.to(999).oneOf()
    nondet k_ = RND.oneOf()
    val i = pick([st.cfg.astro, st.cfg.astro, st.cfg.astro, 1, 2], k_)
    perform(Give({ who: "alice", i: i, n: held(st, i, "alice") * f / (10000 * 10^e) + k_ / 5 % 3 }))
  }
  action doShare = {
    nondet i = 0.to(2).oneOf()
    nondet n_ = RND.oneOf()
    perform(Collect({ who: "alice", wishes: range(0, pick([0, 0, 0, 1, 2], n_)).foldl([], (l, j) => l.append({ i: (i + j) % 3, limit: NONE })) }))
  }
  action share = {
    nondet k_ = RND.oneOf()
    if (k_ % 100 < 31) { if (resting(st) and k_ % 5 != 0) doWait else doShare }
    else if (k_ % 100 < 53) doIncome
    else if (k_ % 100 < 55) doAnother
    else if (k_ % 100 < 70) doWait
    else if (k_ % 100 < 76) doEnable
    else if (k_ % 100 < 83) doDevelop
    else if (k_ % 100 < 88) doGovern
    else if (k_ % 100 < 90) doSecond
    else if (k_ % 100 < 93) doTogether
    else if (k_ % 100 < 94) doSeizable
    else if (k_ % 100 < 96) doSeize
    else rare
  }
  action step = go

  // ---- what must hold ----------------------------------------------------------------------------------------------

  val Solvent = ASSETS.indices().forall(i => ALL.forall(a => st.bal[i].get(a) >= 0))
  /// everything shared out is shared exactly once, and what was promised over time is never exceeded
  val Shared = probe.share.second + probe.share.gov + probe.share.dev + probe.share.staking <= probe.share.of
  val Complete = (st.cfg.staking and res == "ok") implies
    probe.share.second + probe.share.gov + probe.share.dev + probe.share.staking == probe.share.of
  val Promise = st.cfg.remainder >= 0 and st.cfg.remainder <= st.cfg.pre
  /// settings never promise more than there is
  val Sound = within(st.cfg) and (st.cfg.staking or (st.cfg.gov and st.cfg.percent == 100))
  val Safe = Solvent and Shared and Complete and Promise and Sound
}
