// -*- mode: Bluespec; -*-
/// The stableswap pool of two assets, with its amplification ramp, fee share, accumulators and trade observations.
module stable {
  import math.* from "./math"
  import pools.* from "./pools"

  type Msg =
      Provide({ who: str, a0: int, a1: int, minLp: int, to: str, stake: bool, funds: str })
    | Withdraw({ who: str, lp: int, min0: int, min1: int, minKind: str, funds: str })
    | Swap({ who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str })
    | Donate({ who: str, i: int, amount: int })
    | FeeShare({ who: str, bps: int, to: str })              // bps = -1: disable
    | StartAmp({ who: str, amp: int, at: int })
    | StopAmp({ who: str })
    | SetFees({ who: str, total: int, maker: int })          // on the factory
    | Wait({ seconds: int, blocks: int })
    | Open({ who: str, shape: str, bare: bool, amp: int, owner: str })       // another pool
    | Register({ who: str, on: bool })       // the owner takes the pool off the factory's list; anyone may open another of the same coins then
    | Created

  type State = {
    listed: str,                   // what the factory names for these coins: "own" (this pool), "none", "other"
    kinds: List[str], dec: List[int],
    owner: str,                    // who configures the pool ("" : the factory's owner)
    generator: bool, maker: bool,
    bal: List[str -> int], lp: str -> int, staked: str -> int, supply: int,
    totalFee: int, makerFee: int, share: { bps: int, to: str },
    amp: { init: int, initTime: int, goal: int, goalTime: int },     // times AMP_PRECISION
    cum: List[int], last: int, now: int, height: int,
    series: Series
  }

  type Probe = {
    amount: List[int],
    sim: List[{ ret: int, spread: int, fee: int }],
    rev: List[{ offer: int, spread: int, fee: int }],
    share: List[int],
    provide: { a0: int, a1: int, lp: int },
    cumAt: List[int], amp: int, d: int,
    observe: { ago: int, price: int },
    drift: int      // what the last message did to the invariant (1e-18 tokens), giving a trade's rounding back
  }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val NAMES = ["alice", "bob", "carol"]
  pure val USERS = Set("alice", "bob", "carol")
  // who may be named to receive: also the pool itself
  pure val PAYEES = ["alice", "bob", "carol", "alice", "bob", "carol", "alice", "bob", "carol", "maker", "pair"]
  pure val ACCOUNTS = Set("alice", "bob", "carol", "pair", "maker", "sharee")
  pure val DEFAULT_SLIPPAGE = 5 * 10^15     // 0.5%
  pure val MAX_SLIPPAGE = 5 * 10^17         // 50%
  pure val MAX_FEE_SHARE_BPS = 1000
  pure val AMP_PRECISION = 100
  pure val MAX_AMP = 1000000
  pure val MAX_AMP_CHANGE = 10
  pure val MIN_AMP_CHANGING_TIME = 86400
  pure val MIN_TRADE = 10^13                // 1e-5 tokens
  pure val TOL = 10^12                      // 1e-6 tokens
  pure val STEPS = range(0, 64)

  pure def pool(s: State, i: int): int = s.bal[i].get("pair")
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  pure def bps(n: int): int = n * 10^14
  pure def admin(s: State): str = if (s.owner == "") "owner" else s.owner

  // ---- the curve ----------------------------------------------------------------------------------------------
  // Balances are decimals (whole tokens, 1e-18 units) whatever the coin's own precision.

  pure def wide(n: int, dec: int): int = n * 10^(18 - dec)
  pure def narrow(n: int, dec: int): int = n / 10^(18 - dec)
  pure def finest(s: State): int = max2(s.dec[0], s.dec[1])

  /// The invariant D for balances x, y (Newton's method as the pool runs it); -1: not found.
  pure def invariantD(amp: int, x: int, y: int): int = {
    val lev = decMul(ratio(amp, AMP_PRECISION), 2 * E18)
    val sum = x + y
    val prod = decMul(2 * x, 2 * y)
    if (sum == 0) 0
    else if (prod == 0) NONE
    else {
      val r = STEPS.foldl({ d: sum, done: false }, (acc, _) => {
        if (acc.done) acc
        else {
          val d = acc.d
          val dp = decDiv(decMul(decMul(d, d), d), prod)
          val num = decMul(decMul(lev, sum) + 2 * dp, d)
          val den = decMul(d, lev - E18) + 3 * dp
          val d2 = decDiv(num, den)
          { d: d2, done: (if (d2 > d) d2 - d else d - d2) <= TOL }
        }
      })
      if (r.done) r.d else NONE
    }
  }
  /// The other balance that keeps D when one balance becomes `x`; -1: not found.
  pure def otherBalance(amp: int, x: int, d: int): int = {
    val lev = amp * 2 * E18
    val below = decMul(4 * x, lev)
    if (d < 0 or below == 0) NONE
    else {
      val c = decDiv(decMul(decMul(d, d), d) * AMP_PRECISION, below)
      val b = x + decDiv(d * AMP_PRECISION, lev)
      val r = STEPS.foldl({ y: d, done: false, bad: false }, (acc, _) => {
        if (acc.done or acc.bad) acc
        else {
          val y = acc.y
          val den = 2 * y + b - d
          if (den <= 0) { y: y, done: false, bad: true }
          else {
            val y2 = decDiv(decMul(y, y) + c, den)
            { y: y2, done: (if (y2 > y) y2 - y else y - y2) <= TOL, bad: false }
          }
        }
      })
      if (r.done) r.y else NONE
    }
  }

  pure def ampAt(s: State, t: int): int = {
    val a = s.amp
    if (t < a.goalTime) {
      val dt = max2(0, t - a.initTime)
      if (a.goal > a.init) a.init + (a.goal - a.init) * dt / (a.goalTime - a.initTime)
      else a.init - (a.init - a.goal) * dt / (a.goalTime - a.initTime)
    } else a.goal
  }
  pure def ampNow(s: State): int = ampAt(s, s.now)
  pure def dOf(s: State, p0: int, p1: int): int = invariantD(ampNow(s), wide(p0, s.dec[0]), wide(p1, s.dec[1]))

  /// Return before fees for `dx` (decimal) into pools x -> y of precision `dec`: -1 when it cannot be computed
  pure def curveOut(amp: int, x: int, y: int, dx: int, dec: int): int = {
    val left = otherBalance(amp, x + dx, invariantD(amp, x, y))
    if (left < 0) NONE
    else {
      val out = narrow(y, dec) - narrow(left, dec)
      if (out < 0) NONE else out
    }
  }

  type Quote = { ret: int, spread: int, fee: int, ok: bool }
  pure val NO_QUOTE: Quote = { ret: -1, spread: -1, fee: -1, ok: false }
  pure def quote(s: State, i: int, p0: int, p1: int, n: int): Quote = {
    val ps = [p0, p1]
    val j = 1 - i
    val gross = curveOut(ampNow(s), wide(ps[i], s.dec[i]), wide(ps[j], s.dec[j]), wide(n, s.dec[i]), s.dec[j])
    if (gross < 0) NO_QUOTE
    else {
      val fee = mulDec(gross, bps(s.totalFee))
      { ret: gross - fee, fee: fee, spread: satSub(narrow(wide(n, s.dec[i]), s.dec[j]), gross), ok: true }
    }
  }

  type RevQuote = { offer: int, spread: int, fee: int }
  pure val NO_REV: RevQuote = { offer: -1, spread: -1, fee: -1 }
  /// What must be offered of asset i to get n of the other
  pure def reverseQuote(s: State, i: int, n: int): RevQuote = {
    val j = 1 - i
    val x = wide(pool(s, i), s.dec[i])
    val y = wide(pool(s, j), s.dec[j])
    val rate = bps(s.totalFee)
    if (x == 0 or y == 0 or n == 0) { offer: 0, spread: 0, fee: 0 }
    else if (rate >= E18) NO_REV
    else {
      val gross = decMul(decDiv(E18, E18 - rate), wide(n, s.dec[j]))
      if (gross > y) NO_REV
      else {
        val need = otherBalance(ampNow(s), y - gross, invariantD(ampNow(s), x, y))
        val g = finest(s)
        if (need < 0 or narrow(need, g) < narrow(x, g)) NO_REV
        else {
          val offer = (narrow(need, g) - narrow(x, g)) / 10^(g - s.dec[i])
          { offer: offer, spread: satSub(offer, narrow(gross, s.dec[i])), fee: mulDec(narrow(gross, s.dec[j]), rate) }
        }
      }
    }
  }

  /// LP tokens for a deposit: { lp: -1, why } when refused
  pure def sharesFor(s: State, d0: int, d1: int, p0: int, p1: int): { lp: int, why: str } = {
    val g = finest(s)
    val after = dOf(s, p0 + d0, p1 + d1)
    if (d0 == 0 and d1 == 0) { lp: -1, why: "zero_deposit" }
    else if (after < 0) { lp: -1, why: "no_invariant" }
    else if (s.supply == 0) {
      val lp = narrow(after, g) - MINIMUM_LIQUIDITY
      if (lp <= 0) { lp: -1, why: "below_minimum_liquidity" } else { lp: lp, why: "" }
    } else {
      val d = dOf(s, p0, p1)
      if (d <= 0) { lp: -1, why: "no_invariant" }
      else {
        val lp = narrow(wide(s.supply, g) * satSub(after, d) / d, g)
        if (lp == 0) { lp: -1, why: "zero_mint" } else { lp: lp, why: "" }
      }
    }
  }

  // ---- accumulators -------------------------------------------------------------------------------------------

  /// Price of one whole token of asset i in the other, 6 decimals; -1: cannot be computed
  pure def unitPrice(s: State, i: int, p0: int, p1: int): int = {
    val ps = [p0, p1]
    val j = 1 - i
    val out = curveOut(ampNow(s), wide(ps[i], s.dec[i]), wide(ps[j], s.dec[j]), E18, s.dec[j])
    if (out < 0) NONE
    else if (s.dec[j] > 6) out / 10^(s.dec[j] - 6) else out * 10^(6 - s.dec[j])
  }
  /// { ok: false } when the prices cannot be computed
  pure def cumNow(s: State, p0: int, p1: int): { cum: List[int], ok: bool } = {
    val dt = s.now - s.last
    if (dt <= 0 or p0 == 0 or p1 == 0) { cum: s.cum, ok: true }
    else {
      val a = unitPrice(s, 0, p0, p1)
      val b = unitPrice(s, 1, p0, p1)
      if (a < 0 or b < 0) { cum: s.cum, ok: false }
      else { cum: [(s.cum[0] + dt * a) % U128, (s.cum[1] + dt * b) % U128], ok: true }
    }
  }

  // ---- messages -----------------------------------------------------------------------------------------------

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  /// Accepts with the accumulators advanced, the pools having been p0, p1 since the last update.
  pure def accumulated(before: State, s: State, p0: int, p1: int): Next = {
    val c = cumNow(before, p0, p1)
    if (not(c.ok)) refuse(before, "no_price")
    else accept({ ...s, cum: c.cum, last: max2(s.last, s.now) })
  }

  pure def mint(s: State, payee: str, n: int): State =
    { ...s, lp: s.lp.set(payee, s.lp.get(payee) + n), supply: s.supply + n }

  pure def provide(s: State, m: { who: str, a0: int, a1: int, minLp: int, to: str, stake: bool, funds: str }): Next = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val sh = sharesFor(s, m.a0, m.a1, p0, p1)
    val min = if (m.minLp == NONE) 0 else m.minLp
    if (m.funds == "mismatch" and s.kinds.select(k => k == "native").length() > 0) refuse(s, "funds_mismatch")
    else if (m.funds == "foreign") refuse(s, "foreign_coin")
    else if (m.funds == "malformed") refuse(s, "malformed_assets")
    else if (s.bal[0].get(m.who) < m.a0 or s.bal[1].get(m.who) < m.a1) refuse(s, "insufficient_balance")
    else if ((m.a0 == 0 and p0 == 0) or (m.a1 == 0 and p1 == 0)) refuse(s, "one_sided_into_empty_pool")
    else if (sh.lp < 0) refuse(s, sh.why)
    else if (sh.lp < min) refuse(s, "min_lp")
    else if (m.stake and (not(s.generator) or s.listed != "own")) refuse(s, "no_incentives_contract")
    else {
      val paid = pay(pay(s, 0, m.who, "pair", m.a0), 1, m.who, "pair", m.a1)
      val locked = if (s.supply == 0) mint(paid, "pair", MINIMUM_LIQUIDITY) else paid
      val minted =
        if (m.stake)
          { ...locked, staked: locked.staked.set(m.to, locked.staked.get(m.to) + sh.lp), supply: locked.supply + sh.lp }
        else mint(locked, m.to, sh.lp)
      accumulated(s, minted, p0, p1)
    }
  }

  pure def withdraw(s: State, m: { who: str, lp: int, min0: int, min1: int, minKind: str, funds: str }): Next = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val r0 = refundOf(p0, m.lp, s.supply)
    val r1 = refundOf(p1, m.lp, s.supply)
    if (m.funds == "foreign" and s.bal[0].get(m.who) == 0) refuse(s, "insufficient_balance")
    else if (m.funds == "foreign") refuse(s, "not_lp_token")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "imbalanced") refuse(s, "imbalanced_withdrawal")
    else if (m.lp == 0) refuse(s, "no_funds")
    else if (s.lp.get(m.who) < m.lp) refuse(s, "insufficient_balance")
    else if (m.minKind == "one") refuse(s, "min_assets_length")
    else if (m.minKind == "foreign") refuse(s, "min_assets_foreign")
    else if (m.minKind != "none" and (r0 < m.min0 or r1 < m.min1)) refuse(s, "min_assets")
    else if (s.kinds.indices().exists(i => s.kinds[i] == "native" and [r0, r1][i] == 0)) refuse(s, "zero_payout")
    else {
      val burnt = { ...s, lp: s.lp.set(m.who, s.lp.get(m.who) - m.lp), supply: s.supply - m.lp }
      accumulated(s, pay(pay(burnt, 0, "pair", m.who, r0), 1, "pair", m.who, r1), p0, p1)
    }
  }

  pure def swap(s: State, m: { who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str }): Next = {
    val j = 1 - m.i
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    if (m.funds == "foreign") refuse(s, "not_a_pool_asset")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "mismatch") refuse(s, "funds_mismatch")
    else if (s.bal[m.i].get(m.who) < m.amount) refuse(s, "insufficient_balance")
    else if (m.amount == 0) refuse(s, "zero_offer")
    else if (p0 == 0 or p1 == 0) refuse(s, "empty_pool")
    else {
      val q = quote(s, m.i, p0, p1, m.amount)
      if (not(q.ok)) refuse(s, "no_invariant")
      else {
        val g = priceGuard(m.belief, m.spread, m.amount, q.ret + q.fee, q.spread, DEFAULT_SLIPPAGE, MAX_SLIPPAGE)
        if (g != "") refuse(s, g)
        else {
          val cut = mulDec(q.fee, bps(s.share.bps))
          val maker = if (s.maker) mulDec(q.fee - cut, bps(s.makerFee)) else 0
          val s1 = pay(s, m.i, m.who, "pair", m.amount)
          val s2 = pay(s1, j, "pair", m.to, q.ret)
          val s3 = pay(s2, j, "pair", s.share.to, cut)
          val s4 = pay(s3, j, "pair", "maker", maker)
          val flushed = flush(s.series, s.now)
          val series =
            if (wide(m.amount, s.dec[m.i]) >= MIN_TRADE and wide(q.ret, s.dec[j]) >= MIN_TRADE)
              trade(flushed, if (m.i == 0) m.amount else q.ret, if (m.i == 0) q.ret else m.amount, s.now)
            else flushed
          accumulated(s, { ...s4, series: series }, p0, p1)
        }
      }
    }
  }

  pure def startAmp(s: State, m: { who: str, amp: int, at: int }): Next = {
    val cur = ampNow(s)
    val goal = m.amp * AMP_PRECISION
    if (m.who != admin(s)) refuse(s, "unauthorized")
    else if (m.amp == 0 or m.amp > MAX_AMP) refuse(s, "amp_bounds")
    else if (goal * MAX_AMP_CHANGE < cur or goal > cur * MAX_AMP_CHANGE) refuse(s, "amp_change_too_big")
    else if (s.now < s.amp.initTime + MIN_AMP_CHANGING_TIME or m.at < s.now + MIN_AMP_CHANGING_TIME) refuse(s, "amp_change_too_fast")
    else accept({ ...s, amp: { init: cur, initTime: s.now, goal: goal, goalTime: m.at } })
  }

  pure def exec(s: State, m: Msg): Next = match m {
    | Provide(p) => provide(s, p)
    | Withdraw(w) => withdraw(s, w)
    | Swap(w) => swap(s, w)
    | Donate(d) => if (s.bal[d.i].get(d.who) < d.amount or (d.amount == 0 and s.kinds[d.i] == "native")) refuse(s, "insufficient_balance")
                   else accept(pay(s, d.i, d.who, "pair", d.amount))
    | FeeShare(f) =>
        if (f.who != admin(s)) refuse(s, "unauthorized")
        else if (f.bps == NONE) accept({ ...s, share: { bps: 0, to: "sharee" } })
        else if (f.bps == 0 or f.bps > MAX_FEE_SHARE_BPS) refuse(s, "fee_share_bounds")
        else accept({ ...s, share: { bps: f.bps, to: f.to } })
    | StartAmp(a) => startAmp(s, a)
    | StopAmp(a) =>
        if (a.who != admin(s)) refuse(s, "unauthorized")
        else accept({ ...s, amp: { init: ampNow(s), initTime: s.now, goal: ampNow(s), goalTime: s.now } })
    | SetFees(f) =>
        if (f.who != "owner") refuse(s, "unauthorized")
        else if (f.total > 10000 or f.maker > 10000) refuse(s, "fee_bounds")
        else accept({ ...s, totalFee: f.total, makerFee: f.maker })
    | Register(r) =>
        if (r.on) (if (s.listed == "none") accept({ ...s, listed: "other" }) else refuse(s, "already_listed"))
        else if (r.who != "owner") refuse(s, "unauthorized")
        else if (s.listed == "none") refuse(s, "not_listed")
        else accept({ ...s, listed: "none" })
    | Open(o) =>
        if (wrongAssets(o.shape, true) != "") refuse(s, wrongAssets(o.shape, true))
        else if (o.bare) refuse(s, "no_parameters")
        else if (o.amp == 0 or o.amp > MAX_AMP) refuse(s, "amp_bounds")
        else accept(s)
    | Wait(w) => accept({ ...s, now: s.now + w.seconds, height: s.height + w.blocks })
    | Created => accept(s)
  }

  pure def look(s: State, n0: int, n1: int, skew: int, ago: int, drift: int): Probe = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val n = [n0, n1]
    val q = [0, 1].foldl([], (acc, i) => acc.append(
      if (p0 == 0 or p1 == 0 or n[i] == 0) { ret: 0, spread: 0, fee: 0 }
      else { val x = quote(s, i, p0, p1, n[i]) { ret: x.ret, spread: x.spread, fee: x.fee } }))
    val a0 = if (skew < -9) 0 else n0
    val a1 = if (skew > 9) 0 else n1
    val c = cumNow(s, p0, p1)
    { amount: n, sim: q,
      rev: [reverseQuote(s, 0, n1), reverseQuote(s, 1, n0)],
      share: [refundOf(p0, n0, s.supply), refundOf(p1, n0, s.supply)],
      provide: { a0: a0, a1: a1, lp: sharesFor(s, a0, a1, p0, p1).lp },
      cumAt: if (c.ok) c.cum else [NONE, NONE], amp: ampNow(s) * E18 / AMP_PRECISION,
      d: { val d = dOf(s, p0, p1) if (d < 0) NONE else narrow(d, finest(s)) },
      observe: { ago: ago, price: observe(s.series, s.now, ago) },
      drift: drift }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  /// where accumulators start: they wrap around at the end of their range
  pure val ENDS = [0, 0, 0, 0, U128 - 1, U128 - 10^10, U128 - 10^16]
  pure val T0 = 1600000000
  pure val H0 = 1000
  pure def part(n: int, e: int, f: int): int = n * f / (1000 * 10^e)

  action perform(m: Msg): bool = {
    nondet e = 0.to(8).oneOf()
    nondet f = 1.to(1100).oneOf()
    nondet skew = (-12).to(12).oneOf()
    nondet ago_ = RND.oneOf()
    val past = if (st.series.obs.length() == 0) 100 else st.now - st.series.obs[0].ts + 2
    val ago = if (ago_ % 5 == 0) pick([0, 1, 6, past, past - 1, past - 2, past - 3], ago_ / 5) else ago_ * past / 10000
    val r = exec(st, m)
    val p0 = pool(r.s, 0)
    val p1 = pool(r.s, 1)
    val n0 = part(if (p0 == 0) 10^r.s.dec[0] else p0, e, f)
    val n1 = part(if (p1 == 0) 10^r.s.dec[1] else p1, e, f)
    val before = dOf({ ...st, now: r.s.now }, pool(st, 0), pool(st, 1))
    // a trade's return may be rounded up to one whole unit of the coin bought
    val after = match m {
      | Swap(w) => dOf(r.s, if (w.i == 1) p0 + 1 else p0, if (w.i == 0) p1 + 1 else p1)
      | _ => dOf(r.s, p0, p1)
    }
    val p = look(r.s, n0, n1, skew, max2(0, ago), after - before)
    all { st' = r.s, msg' = m, res' = r.why, probe' = p }
  }

  action init = {
    nondet cum0_ = RND.oneOf()
    nondet cum1_ = RND.oneOf()
    nondet k0 = Set("native", "cw20").oneOf()
    nondet k1 = Set("native", "cw20").oneOf()
    nondet d0 = Set(6, 8, 18).oneOf()
    nondet d1 = Set(3, 6, 18).oneOf()
    nondet owner = Set("", "boss").oneOf()
    nondet gen = Set(true, false).oneOf()
    nondet mk_ = RND.oneOf()
    nondet total_ = RND.oneOf()
    val total = pick([0, 1, 5, 5, 30, 100, 10000], total_)
    nondet mfee = Set(0, 1, 3333, 5000, 10000).oneOf()
    nondet rich = 2.to(9).oneOf()
    nondet amp = Set(1, 10, 85, 100, 4000, 1000000).oneOf()
    nondet cap_ = RND.oneOf()
    val wealth = [USERS.union(ACCOUNTS).mapBy(a => if (USERS.contains(a)) 10^(rich + d0) else 0),
                  USERS.union(ACCOUNTS).mapBy(a => if (USERS.contains(a)) 10^(rich + d1) else 0)]
    val s: State = {
      listed: "own",
      kinds: [k0, k1], dec: [d0, d1], owner: owner, generator: gen, maker: pick([true, true, false], mk_), bal: wealth,
      lp: ACCOUNTS.mapBy(_ => 0), staked: ACCOUNTS.mapBy(_ => 0), supply: 0,
      totalFee: total, makerFee: mfee, share: { bps: 0, to: "sharee" },
      amp: { init: amp * AMP_PRECISION, initTime: T0, goal: amp * AMP_PRECISION, goalTime: T0 },
      cum: [pick(ENDS, cum0_), pick(ENDS, cum1_)], last: 0, now: T0, height: H0, series: { ...NO_SERIES, cap: pick([3000, 3000, 3, 4, 7], cap_) } }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 1000, 1000, 0, 0, 0) }
  }

  action doProvide = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet e = 0.to(6).oneOf()
    nondet f = 1.to(900).oneOf()
    nondet skew = 0.to(2000).oneOf()
    nondet shape_ = RND.oneOf()
    val shape = pick(["any", "any", "any", "first", "second", "even"], shape_)
    nondet minMode_ = RND.oneOf()
    val minMode = pick(["none", "none", "exact", "above", "below"], minMode_)
    nondet stake_ = RND.oneOf()
    val stake = pick([false, false, false, true], stake_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "malformed"], funds_)
    nondet small_ = RND.oneOf()
    // a first deposit about as big as the liquidity that stays locked
    val small = st.supply == 0 and small_ < 2500
    val b0 = if (small) (300 + f) / 10^(finest(st) - st.dec[0]) else part(st.bal[0].get(who), e, f)
    val b1 = min2(if (small) (301 + f) / 10^(finest(st) - st.dec[1]) else part(st.bal[1].get(who), e, if (shape == "even") f else f * skew / 1000), st.bal[1].get(who))
    val a0 = if (shape == "second" or shape == "neither") 0 else b0
    val a1 = if (shape == "first" or shape == "neither") 0 else b1
    val q = sharesFor(st, a0, a1, pool(st, 0), pool(st, 1)).lp
    val minLp = if (minMode == "exact") max2(q, 0) else if (minMode == "above") max2(q, 0) + 1
                else if (minMode == "below") max2(q - 1, 0) else NONE
    perform(Provide({ who: who, a0: a0, a1: a1, minLp: minLp, to: payee, stake: stake, funds: funds }))
  }
  action doWithdraw = {
    nondet who_ = RND.oneOf()
    val holders = NAMES.select(u => st.lp.get(u) > 0)
    val who = if (who_ < 500 or holders.length() == 0) pick(NAMES, who_) else pick(holders, who_)
    nondet e = 0.to(5).oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet kind_ = RND.oneOf()
    val kind = pick(["none", "none", "none", "none", "both", "both", "swapped", "swapped", "one", "foreign"], kind_)
    nondet d0_ = RND.oneOf()
    val d0 = pick([-1, 0, 0, 0, 1], d0_)
    nondet d1_ = RND.oneOf()
    val d1 = pick([-1, 0, 0, 0, 1], d1_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "foreign", "imbalanced", "extra"], funds_)
    nondet all_ = RND.oneOf()
    val lp = if (all_ % 4 == 0) st.lp.get(who) else part(st.lp.get(who), e, f)
    val r0 = refundOf(pool(st, 0), lp, st.supply)
    val r1 = refundOf(pool(st, 1), lp, st.supply)
    perform(Withdraw({ who: who, lp: lp, min0: max2(0, r0 + d0), min1: max2(0, r1 + d1), minKind: kind, funds: funds }))
  }
  action doSwap = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet i = Set(0, 1).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet f = 1.to(1300).oneOf()
    nondet spread_ = RND.oneOf()
    val limit = pick([EXACT, EXACT, SHORT, NONE, 0, 10^15, 5 * 10^15, 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17 + 1], spread_)
    nondet bk_ = RND.oneOf()
    val bk = pick(["none", "none", "none", "none", "none", "tight", "tight", "fair", "loose", "zero", "odd"], bk_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "extra"], funds_)
    val most = min2(st.bal[i].get(who), max2(1000, 2 * pool(st, i)))
    val n = min2(max2(if (f < 20) 0 else 1, part(most, e, f)), 2 * most)
    val q = if (pool(st, 0) == 0 or pool(st, 1) == 0) NO_QUOTE else quote(st, i, pool(st, 0), pool(st, 1), n)
    val spot = 10^(18 + st.dec[i]) / 10^st.dec[1 - i]
    val belief = if (bk == "none") NONE else if (bk == "zero") 0 else if (bk == "fair") spot
                 else if (bk == "tight") (if (q.ok and q.ret + q.fee > 0) ratio(n, q.ret + q.fee) else spot)
                 else if (bk == "loose") spot * 2 else spot * 99 / 100
    val spread = limitAt(limit, if (q.ok) shortfall(min2(belief, U128 - 1), n, q.ret + q.fee, q.spread) else 0)
    perform(Swap({ who: who, i: i, amount: n, belief: min2(belief, U128 - 1), spread: spread, to: payee, funds: funds }))
  }
  action doDonate = {
    nondet who = USERS.oneOf()
    nondet i = Set(0, 1).oneOf()
    nondet e = 1.to(8).oneOf()
    nondet f = 1.to(1000).oneOf()
    perform(Donate({ who: who, i: i, amount: part(st.bal[i].get(who), e, f) }))
  }
  action doFeeShare = {
    nondet who_ = RND.oneOf()
    val who = pick([admin(st), admin(st), admin(st), "owner", "alice"], who_)
    nondet b = Set(NONE, 0, 1, 500, 999, 1000, 1001).oneOf()
    nondet off_ = RND.oneOf()
    nondet payee = Set("sharee", "carol").oneOf()
    perform(FeeShare({ who: who, bps: if (st.share.bps > 0 and off_ % 2 == 0) NONE else b, to: payee }))
  }
  action doStartAmp = {
    nondet who_ = RND.oneOf()
    val who = pick([admin(st), admin(st), admin(st), admin(st), admin(st), "owner", "alice"], who_)
    nondet kind_ = RND.oneOf()
    val cur = ampNow(st)
    val amp = pick([cur * 10 / AMP_PRECISION, cur * 10 / AMP_PRECISION + 1, cur / 10 / AMP_PRECISION, (cur - 1) / 10 / AMP_PRECISION,
                    cur * 2 / AMP_PRECISION, cur / 200, cur / 150 + 1, cur * 3 / 100, cur * 5 / 100, 0, 1, 1000000, 1000001], kind_)
    nondet wait = Set(86399, 86400, 86400, 86401, 200000, 604800).oneOf()
    perform(StartAmp({ who: who, amp: amp, at: st.now + wait }))
  }
  action doStopAmp = {
    nondet who_ = RND.oneOf()
    val who = pick([admin(st), admin(st), admin(st), "owner", "alice"], who_)
    perform(StopAmp({ who: who }))
  }
  action doSetFees = {
    nondet who_ = RND.oneOf()
    val who = pick(["owner", "owner", "owner", "alice"], who_)
    nondet t_ = RND.oneOf()
    val t = pick([0, 1, 5, 30, 300, 9999, 10000, 10001], t_)
    nondet m = Set(0, 1, 1234, 5000, 10000, 10001).oneOf()
    perform(SetFees({ who: who, total: t, maker: m }))
  }
  action doWait = {
    nondet sec = Set(0, 1, 6, 600, 43200, 86400, 100000, 2592000).oneOf()
    nondet blk_ = RND.oneOf()
    perform(Wait({ seconds: sec, blocks: pick([0, 1, 1, 2, 5], blk_) }))
  }

  action doRegister = {
    nondet who_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val on = if (st.listed == "none") k_ % 4 > 0 else k_ % 4 == 0
    perform(Register({ who: if (on) pick(["alice", "bob", "owner"], who_) else pick(["owner", "owner", "alice"], who_), on: on }))
  }
  action doOpen = {
    nondet who = USERS.oneOf()
    nondet shape_ = RND.oneOf()
    nondet bare_ = RND.oneOf()
    nondet amp = Set(0, 1, 10, 85, 3000, 1000000, 1000001, 2^40).oneOf()
    nondet o = Set("", "stableowner", "alice").oneOf()
    perform(Open({ who: who, shape: pick(SHAPES, shape_), bare: bare_ % 6 == 0, amp: amp, owner: o }))
  }
  action configure = any { doFeeShare, doFeeShare, doSetFees, doStartAmp, doStartAmp, doStartAmp, doStopAmp, doDonate, doOpen, doRegister }
  action step = any { doProvide, doWithdraw, doSwap, doSwap, doSwap, doWait, doWait, configure }
  action seed = {
    nondet e0 = 0.to(3).oneOf()
    nondet f0 = 1.to(900).oneOf()
    nondet f1 = 300.to(1000).oneOf()
    nondet least_ = RND.oneOf()
    nondet lack_ = RND.oneOf()
    // now and then without one of the coins
    val b0 = if (lack_ % 16 == 0 or lack_ % 16 == 1) 0 else part(st.bal[0].get("alice"), e0, f0)
    val b1 = if (lack_ % 16 == 1 or lack_ % 16 == 2) 0 else part(st.bal[1].get("alice"), e0, f0 * f1 / 600 + 1)
    val q = sharesFor(st, b0, b1, pool(st, 0), pool(st, 1)).lp
    perform(Provide({ who: "alice", a0: b0, a1: b1, minLp: pick([NONE, NONE, NONE, max2(q, 0), max2(q, 0) + 1, max2(q - 1, 0), q + MINIMUM_LIQUIDITY], least_),
                      to: "alice", stake: lack_ % 16 == 3, funds: "exact" }))
  }
  action go = if (st.supply == 0) any { seed, seed, seed, seed, step } else step
  /// trading, for the record of its prices
  action flurry = if (st.supply == 0) seed else any { doSwap, doSwap, doSwap, doSwap, doSwap, doWait, doWait, doWait, doProvide }

  // ---- properties ---------------------------------------------------------------------------------------------

  pure def total(m: str -> int): int = m.keys().fold(0, (acc, k) => acc + m.get(k))
  val nonNegative = [0, 1].indices().forall(i => st.bal[i].keys().forall(a => st.bal[i].get(a) >= 0))
  val lpBacked = st.supply == total(st.lp) + total(st.staked) and (st.supply > 0 implies st.lp.get("pair") >= MINIMUM_LIQUIDITY)
  /// a trade never lowers the invariant (but for the solver's tolerance)
  val curveKept = match msg {
    | Swap(_) => probe.drift >= -4 * TOL
    | _ => true
  }
  val Safe = nonNegative and lpBacked and curveKept
}
