// -*- mode: Bluespec; -*-
/// The TWAP oracle of one pool: how the pool's price accumulators advanced over at least a day, and what an amount is
/// worth at that average. The pool is the plain constant-product pair (`real`), or a stand-in of two or three assets
/// that answers whatever the trace says.
module oracle {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import curve.* from "./curve"
  import pools.priceGuard from "./pools"

  type Way = { a: int, b: int }                  // a price: what one `a` is worth in `b`
  type Msg =
      Fund({ a0: int, a1: int })                 // the first deposit
    | Trade({ i: int, n: int })
    | Feed({ cum: List[int], spot: List[int] })  // what the stand-in answers from now on
    | Update({ who: str })
    | Wait({ seconds: int, blocks: int })
    | Upgrade(Release)
    | Created
  type State = { real: bool, n: int, kinds: List[str], decs: List[int], order: List[Way], pool: List[int], fee: int,
                 cum: List[int], last: int, spot: List[int], now: int, height: int,
                 o: { cum: List[int], avg: List[int], at: int },
                 // the lowest and the highest price since the oracle's last update, per way; set once it is known
                 lo: List[int], hi: List[int], wraps: bool }
  /// what amounts of each asset are worth, one answer per way out of it ([-1]: refused), and what a foreign coin is
  type Probe = { amount: int, worth: List[List[int]] }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe
  /// the time of the update before, for the invariants
  var before: int

  pure val PERIOD = 86400
  pure val TWAP_UNIT = 10^6
  pure val MAX = 5 * 10^17
  pure val T0 = 1600000000
  pure val H0 = 1000

  pure def zeros(l: List[Way]): List[int] = range(0, l.length()).foldl([], (acc, _) => acc.append(0))
  pure def nones(l: List[Way]): List[int] = range(0, l.length()).foldl([], (acc, _) => acc.append(-1))


  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def cumNow(s: State): List[int] = {
    val dt = s.now - s.last
    if (not(s.real) or dt <= 0 or s.pool[0] == 0 or s.pool[1] == 0) s.cum
    else [(s.cum[0] + dt * TWAP_UNIT * s.pool[1] / s.pool[0]) % U128, (s.cum[1] + dt * TWAP_UNIT * s.pool[0] / s.pool[1]) % U128]
  }
  /// the pool's own bookkeeping, before it changes
  pure def accumulate(s: State): State = if (s.real) { ...s, cum: cumNow(s), last: s.now } else s
  /// the price of a way now, in the accumulators' unit, rounded down
  pure def priceNow(s: State, k: int): int =
    if (s.pool[0] == 0) 0 else TWAP_UNIT * s.pool[s.order[k].b] / s.pool[s.order[k].a]

  pure val CONTRACT = "astroport-oracle"
  pure val RELEASES = ["1.0.0", "1.0.1", "1.0.2"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Fund(x) => accept({ ...accumulate(s), pool: [s.pool[0] + x.a0, s.pool[1] + x.a1] })
    | Trade(x) => {
        val q = quote(s.pool[x.i], s.pool[1 - x.i], x.n, 0, bps(s.fee))
        if (not(q.ok)) refuse(s, "no_trade")
        else if (priceGuard(NONE, MAX, x.n, q.ret + q.fee, q.spread, MAX, MAX) != "") refuse(s, "spread")
        else {
          val p = s.pool.replaceAt(x.i, s.pool[x.i] + x.n)
          accept({ ...accumulate(s), pool: p.replaceAt(1 - x.i, p[1 - x.i] - q.ret) })
        }
      }
    | Feed(x) => accept({ ...s, cum: x.cum, spot: x.spot })
    | Update(x) => {
        val dt = s.now - s.o.at
        val c = cumNow(s)
        if (dt < PERIOD) refuse(s, "too_early")
        else accept({ ...s,
          o: { cum: c, at: s.now, avg: range(0, s.order.length()).foldl([], (l, k) =>
               l.append(ratio((c[k] - s.o.cum[k] + U128) % U128, dt))) },
          lo: nones(s.order), hi: nones(s.order),
          wraps: false })
      }
    | Wait(x) => {
        val p = range(0, s.order.length()).foldl([], (l, k) => l.append(if (s.real) priceNow(s, k) else 0))
        val c = { ...s, now: s.now + x.seconds, height: s.height + x.blocks }
        if (x.seconds == 0 or not(s.real)) accept(c)
        else accept({ ...c,
          wraps: s.wraps or range(0, 2).foldl(false, (w, k) => w or cumNow(c)[k] < cumNow(s)[k]),
          lo: range(0, 2).foldl([], (l, k) => l.append(if (s.lo[k] < 0) p[k] else min2(s.lo[k], p[k]))),
          hi: range(0, 2).foldl([], (l, k) => l.append(max2(s.hi[k], p[k]))) })
      }
    | Created => accept(s)
  }

  /// what `n` of asset `i` is worth in way `k`'s other asset; -1: nobody knows
  pure def worthOf(s: State, i: int, k: int, n: int): int =
    if (s.o.avg[k] > 0) n * s.o.avg[k] / E18 / TWAP_UNIT
    else {
      val one = 10^s.decs[i]
      val r = if (s.real) quote(s.pool[i], s.pool[1 - i], one, 0, bps(s.fee)).ret else mulDec(one, s.spot[k])
      if (r < 0 or r >= U128) -1 else r * n / one
    }
  pure def worth(s: State, i: int, n: int): List[int] = {
    val l = range(0, s.order.length()).select(k => s.order[k].a == i).foldl([], (acc, k) => acc.append(worthOf(s, i, k, n)))
    if (range(0, l.length()).foldl(false, (b, k) => b or l[k] < 0)) [-1] else l
  }
  pure def look(s: State, n: int): Probe =
    { amount: n, worth: range(0, s.n).foldl([], (l, i) => l.append(worth(s, i, n))) }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet e = 0.to(35).oneOf()
    nondet f = 0.to(2000).oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, f * 10^e / 1000),
          before' = if (r.s.o.at != st.o.at) st.o.at else before }
  }

  pure val TWO: List[Way] = [{ a: 0, b: 1 }, { a: 1, b: 0 }]
  pure val THREE: List[Way] = [{ a: 0, b: 1 }, { a: 0, b: 2 }, { a: 1, b: 0 }, { a: 1, b: 2 }, { a: 2, b: 0 }, { a: 2, b: 1 }]
  action init = {
    nondet real = Set(true, false).oneOf()
    nondet three = Set(true, false).oneOf()
    nondet k0 = Set("native", "cw20").oneOf()
    nondet k1 = Set("native", "cw20").oneOf()
    nondet k2 = Set("native", "cw20").oneOf()
    nondet d0_ = RND.oneOf()
    nondet d1_ = RND.oneOf()
    nondet d2_ = RND.oneOf()
    nondet fee = Set(0, 30, 100).oneOf()
    nondet c0_ = RND.oneOf()
    nondet c1_ = RND.oneOf()
    val n = if (not(real) and three) 3 else 2
    val order = if (n == 3) THREE else TWO
    // the accumulators may be about to wrap around
    val c = if (real) [pick([0, 0, U128 - 1, U128 - 10^12, U128 - 10^20], c0_), pick([0, 0, U128 - 1, U128 - 10^12, U128 - 10^20], c1_)]
            else zeros(order)
    val s: State = { real: real, n: n, kinds: [k0, k1, k2], decs: [pick([6, 6, 0, 8, 18], d0_), pick([6, 6, 0, 8, 18], d1_), pick([6, 6, 0, 8, 18], d2_)],
      order: order, pool: [0, 0], fee: fee, cum: c, last: 0, spot: zeros(order), now: T0, height: H0,
      o: { cum: c, avg: zeros(order), at: T0 }, lo: nones(order), hi: nones(order), wraps: false }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 1000), before' = 0 }
  }

  action doFund = {
    nondet e0 = 3.to(18).oneOf()
    nondet e1 = 3.to(18).oneOf()
    nondet f0 = 1.to(99).oneOf()
    nondet f1 = 1.to(99).oneOf()
    all { st.real, st.pool[0] == 0, perform(Fund({ a0: 10^e0 * f0 + 10, a1: 10^e1 * f1 + 10 })) }
  }
  action doTrade = {
    nondet i = Set(0, 1).oneOf()
    nondet e = 0.to(8).oneOf()
    nondet f = 1.to(250).oneOf()
    all { st.real, st.pool[0] > 0, perform(Trade({ i: i, n: max2(1, st.pool[i] * f / 1000 / 10^e) })) }
  }
  action doFeed = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet e = 0.to(38).oneOf()
    nondet g = 0.to(33).oneOf()
    nondet x = 0.to(999).oneOf()
    nondet y = 0.to(999).oneOf()
    // accumulators advance a little, a lot, not at all, or around the end of the range
    val step = pick([0, x, x * 10^e / 1000, x * 10^e / 1000, U128 - 1 - x, U128 / 2], a_)
    val cum = range(0, st.order.length()).foldl([], (l, k) => l.append((st.cum[k] + step * (1 + (y + k) % pick([1, 1, 2, 7], b_))) % U128))
    val spot = range(0, st.order.length()).foldl([], (l, k) => l.append((x * (k + 1) + y) * 10^g / 1000))
    all { not(st.real), perform(Feed({ cum: cum, spot: spot })) }
  }
  action doUpdate = {
    nondet who = Set("alice", "bob").oneOf()
    perform(Update({ who: who }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    nondet b = Set(1, 1, 2, 10).oneOf()
    val left = PERIOD - (st.now - st.o.at)
    val far = max2(left, 1)
    perform(Wait({ seconds: pick([5, 3600, max2(far - 1, 1), far, far, far + 1, PERIOD, PERIOD * 30, 43200], k_), blocks: b }))
  }
  action go = {
    nondet k_ = RND.oneOf()
    val k = pick([0, 1, 1, 2, 2, 3, 3, 4, 4], k_)
    if (k == 0 and st.real and st.pool[0] == 0) doFund
    else if (k <= 1 and st.real and st.pool[0] > 0) doTrade
    else if (k <= 1 and st.real) doFund
    else if (k <= 1) doFeed
    else if (k == 2) doUpdate
    else doWait
  }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    // the first releases knew pairs of two only
    perform(Upgrade(release(if (st.real) k_ else k_ / 8 * 8, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- invariants ---------------------------------------------------------------------------------------------

  /// the oracle moves at most once a day
  val Daily = before == 0 or st.o.at >= before + PERIOD
  /// an average over the time since the last update would lie between that time's lowest and highest prices
  val Between = (not(st.real) or st.lo[0] < 0 or st.wraps) or
    range(0, 2).foldl(true, (b, k) => b and {
      val dt = st.now - st.o.at
      val gain = cumNow(st)[k] - st.o.cum[k]
      gain >= st.lo[k] * dt and gain <= (st.hi[k] + 1) * dt
    })
  val Safe = Daily and Between
}
