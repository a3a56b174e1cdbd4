// -*- mode: Bluespec; -*-
/// The concentrated-liquidity pool: its curve around a scale price that follows the market, paid for with at most half of
/// what the providers have earned; fees that grow with imbalance; parameters and their ramps; shares; accumulators;
/// histories.
module pcl {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import pools.* from "./pools"
  import snapshots.* from "./snapshots"
  import lpbook as book from "./lpbook"
  import pclcurve as c from "./pclcurve"

  type Msg =
      Provide({ who: str, a0: int, a1: int, slip: int, minLp: int, to: str, stake: bool, funds: str })
    | Withdraw({ who: str, lp: int, min0: int, min1: int, minKind: str, funds: str })
    | Swap({ who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str })
    | Donate({ who: str, i: int, amount: int })
    | Hand({ who: str, dest: str, lp: int })                 // LP tokens change hands
    | FeeShare({ who: str, bps: int, to: str })              // bps = -1: disable
    | Tune({ who: str, mid: int, out: int, feeGamma: int, threshold: int, step: int, half: int })   // -1: keep
    | Promote({ who: str, amp: int, gamma: int, at: int })
    | StopRamp({ who: str })
    | SetFees({ who: str, total: int, maker: int })          // on the factory
    | Wait({ seconds: int, blocks: int })
    | Open({ who: str, shape: str, bare: bool, track: bool, params: Params, scale: int, amp: int, gamma: int })      // another pool
    | Register({ who: str, on: bool })       // the owner takes the pool off the factory's list; anyone may open another of the same coins then
    | Upgrade(Release)
    | Created

  type Params = { mid: int, out: int, feeGamma: int, threshold: int, step: int, half: int }
  type Ramp = { amp0: int, gamma0: int, amp1: int, gamma1: int, t0: int, t1: int }
  /// Everything about prices. profit: all earned so far per share; real: what is left of it after moving the scale
  type Prices = { oracle: int, last: int, scale: int, seen: int, profit: int, real: int }
  type State = {
    listed: str,                   // what the factory names for these coins: "own" (this pool), "none", "other"
    kinds: List[str], dec: List[int], generator: bool, maker: bool, track: bool,
    bal: List[str -> int], lp: str -> int, staked: str -> int, supply: int,
    totalFee: int, makerFee: int, share: { bps: int, to: str },
    params: Params, ramp: Ramp, prices: Prices,
    cum: List[int], last: int, now: int, height: int,
    series: Series, hist: List[List[Mark]],
    lpBook: book::Book             // LP tokens over blocks, if balances are tracked
  }
  type Probe = {
    amount: List[int],
    sim: List[{ ret: int, spread: int, fee: int }],
    rev: List[{ offer: int, spread: int, fee: int }],
    share: List[int],
    provide: { a0: int, a1: int, slip: int, lp: int },
    cumAt: List[int], d: int, lpPrice: int, amp: int, gamma: int,
    observe: { ago: int, price: int },
    at: { h: int, v: List[int] },
    lpAt: { who: str, h: int, v: int, supply: int }
  }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe
  /// before the last message, for what must hold of a single step
  var prior: { worth: int, prices: Prices, ramping: bool }

  pure val NAMES = ["alice", "bob", "carol"]
  pure val USERS = Set("alice", "bob", "carol")
  // whose LP tokens are asked about
  pure val HOLDERS = ["alice", "alice", "bob", "bob", "carol", "carol", "pair", "inc", "maker"]
  // who may be named to receive: also the pool itself
  pure val PAYEES = ["alice", "bob", "carol", "alice", "bob", "carol", "alice", "bob", "carol", "maker", "pair"]
  pure val ACCOUNTS = Set("alice", "bob", "carol", "pair", "maker", "sharee")
  pure val DEFAULT_SLIPPAGE = 5 * 10^16
  pure val MAX_SLIPPAGE = 5 * 10^17
  pure val MAX_FEE_SHARE_BPS = 1000
  pure val MIN_TRADE = 10^13
  pure val DAY = 86400
  pure val LP_DEC = 6

  pure def pool(s: State, i: int): int = s.bal[i].get("pair")
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  pure def wide(n: int, dec: int): int = n * 10^(18 - dec)
  pure def narrow(n: int, dec: int): int = if (n == c::BAD) c::BAD else n / 10^(18 - dec)
  pure def bps(n: int): int = n * 10^14

  // ---- the curve now ------------------------------------------------------------------------------------------

  pure def ampNow(s: State): int = {
    val r = s.ramp
    val t = r.t1 - r.t0
    val p = s.now - r.t0
    if (s.now < r.t1) decDiv(decMul(r.amp0, (t - p) * E18) + decMul(r.amp1, p * E18), t * E18) else r.amp1
  }
  pure def gammaNow(s: State): int = {
    val r = s.ramp
    val t = r.t1 - r.t0
    val p = s.now - r.t0
    if (s.now < r.t1) decDiv(decMul(r.gamma0, (t - p) * E18) + decMul(r.gamma1, p * E18), t * E18) else r.gamma1
  }
  pure def x0(s: State): int = wide(pool(s, 0), s.dec[0])
  pure def x1(s: State): int = wide(pool(s, 1), s.dec[1])
  /// of balances given in whole tokens (1e-18 units), the second not yet at the scale price
  pure def dOf(s: State, a: int, b: int): int = c::invariantOf(a, c::mul(b, s.prices.scale), ampNow(s), gammaNow(s))

  type Deal = { dy: int, spread: int, fee: int, maker: int, share: int }
  /// What `dx` of asset i buys from balances a, b
  pure def deal(s: State, a: int, b: int, i: int, dx: int, makerRate: int, shareRate: int): Deal = {
    val amp = ampNow(s)
    val gamma = gammaNow(s)
    val p = s.prices
    val b1 = c::mul(b, p.scale)
    val d = c::invariantOf(a, b1, amp, gamma)
    val in0 = if (i == 0) c::add(a, dx) else a
    val in1 = if (i == 1) c::add(b1, c::mul(dx, p.scale)) else b1
    val left = c::partner(if (i == 0) in0 else in1, d, amp, gamma)
    val raw = c::sub(if (i == 0) in1 else in0, left)
    val gross = if (i == 0) c::div(raw, p.scale) else raw
    val fair = if (i == 0) c::div(dx, p.oracle) else c::mul(dx, p.oracle)
    val rate = c::feeOf(if (i == 0) in0 else left, if (i == 0) left else in1, s.params.mid, s.params.out, s.params.feeGamma)
    val fee = c::mul(rate, gross)
    val shared = c::mul(fee, shareRate)
    { dy: c::sub(gross, fee), spread: c::over(fair, gross), fee: fee, maker: c::mul(c::sub(fee, shared), makerRate), share: shared }
  }
  /// x0 per x1 the deal amounts to
  pure def priceOf(q: Deal, dx: int, i: int): int = {
    val out = c::add(q.dy, c::add(q.maker, q.share))
    if (i == 0) c::div(dx, out) else c::div(out, dx)
  }
  /// the price of a small purchase
  pure def spot(s: State, a: int, b: int): int = {
    val n = min2(E18, decMul(a, 10^14))
    val dx = if (n == 0) 1 else n
    priceOf(deal(s, a, b, 0, dx, 0, 0), dx, 0)
  }

  type Quote = { ret: int, spread: int, fee: int }
  pure val NO_QUOTE: Quote = { ret: -1, spread: -1, fee: -1 }
  pure def fits(n: int): bool = n != c::BAD and n < U128
  pure def makerRate(s: State): int = if (s.maker) bps(s.makerFee) else 0
  pure def quote(s: State, i: int, n: int): Quote = {
    val j = 1 - i
    if (n == 0 or pool(s, 0) == 0 or pool(s, 1) == 0) NO_QUOTE
    else {
      val q = deal(s, x0(s), x1(s), i, wide(n, s.dec[i]), makerRate(s), bps(s.share.bps))
      val r = { ret: narrow(q.dy, s.dec[j]), spread: narrow(q.spread, s.dec[j]), fee: narrow(q.fee, s.dec[j]) }
      if (fits(r.ret) and fits(r.spread) and fits(r.fee) and q.maker != c::BAD) r else NO_QUOTE
    }
  }
  type RevQuote = { offer: int, spread: int, fee: int }
  pure val NO_REV: RevQuote = { offer: -1, spread: -1, fee: -1 }
  /// What must be offered of asset i to be sure of n of the other (at the highest fee)
  pure def reverseQuote(s: State, i: int, n: int): RevQuote = {
    val j = 1 - i
    val p = s.prices
    val want0 = wide(n, s.dec[j])
    val want = if (j == 1) c::mul(want0, p.scale) else want0
    val gross = c::mul(want, c::div(E18, E18 - s.params.out))
    val fee = c::sub(gross, want)
    val b1 = c::mul(x1(s), p.scale)
    val d = c::invariantOf(x0(s), b1, ampNow(s), gammaNow(s))
    val left = c::sub(if (j == 0) x0(s) else b1, gross)
    val need = c::partner(left, d, ampNow(s), gammaNow(s))
    val dx = c::sub(need, if (i == 0) x0(s) else b1)
    val spread = c::over(dx, gross)
    val inOffer = [dx, spread, fee].foldl([], (acc, v) => acc.append(narrow(if (i == 1) c::div(v, p.scale) else v, s.dec[i])))
    if (fits(inOffer[0]) and fits(inOffer[1]) and fits(inOffer[2])) { offer: inOffer[0], spread: inOffer[1], fee: inOffer[2] } else NO_REV
  }

  // ---- moving the scale ---------------------------------------------------------------------------------------

  type Repriced = { prices: Prices, why: str }
  /// After a trade at `price` leaves balances a, b (b at the scale price) and `shares` outstanding
  pure def reprice(s: State, shares: int, a: int, b: int, price: int): Repriced = {
    val p = s.prices
    val amp = ampNow(s)
    val gamma = gammaNow(s)
    val alpha = if (p.seen < s.now) c::halving(ratio(s.now - p.seen, s.params.half)) else E18
    val oracle = if (p.seen < s.now) c::add(c::mul(p.last, c::sub(E18, alpha)), c::mul(p.oracle, alpha)) else p.oracle
    val d = c::invariantOf(a, b, amp, gamma)
    val real = if (p.real == 0) 0 else c::div(c::worth(d, p.scale), shares)
    val profit = if (p.real == 0) p.profit else c::div(c::mul(p.profit, real), p.real)
    val p1 = { ...p, oracle: oracle, last: price, seen: max2(p.seen, s.now), real: real, profit: profit }
    if (not(c::solved(price)) or not(c::solved(oracle)) or not(c::solved(d)) or not(c::solved(real)) or not(c::solved(profit))) { prices: p, why: "no_price" }
    else if (real < p.real and s.now >= s.ramp.t1) { prices: p, why: "loss" }
    else {
      val off = c::apart(c::div(oracle, p.scale), E18)
      val step = max2(s.params.step, c::mul(off, E18 / 10))
      // the providers' earnings, of which half may be spent
      if (off == c::BAD) { prices: p, why: "no_price" }
      else if (off == 0 or off < step or 2 * (real - E18) <= profit - E18 + 2 * s.params.threshold) { prices: p1, why: "" }
      else {
        val scale = c::div(c::add(c::mul(p.scale, off - step), c::mul(step, oracle)), off)
        val d2 = c::invariantOf(a, c::div(c::mul(b, scale), p.scale), amp, gamma)
        val real2 = c::div(c::worth(d2, scale), shares)
        if (not(c::solved(real2))) { prices: p, why: "no_price" }
        else if (2 * real2 > profit + E18) { prices: { ...p1, scale: scale, real: real2 }, why: "" }
        else { prices: p1, why: "" }
      }
    }
  }

  // ---- shares -------------------------------------------------------------------------------------------------

  type Shares = { lp: int, prices: Prices, why: str }
  pure def noShares(s: State, why: str): Shares = { lp: -1, prices: s.prices, why: why }
  /// LP tokens for a deposit into balances p0, p1 (integers)
  pure def sharesFor(s: State, d0: int, d1: int, p0: int, p1: int, slip: int): Shares = {
    val w0 = wide(d0, s.dec[0])
    val w1 = wide(d1, s.dec[1])
    val o0 = wide(p0, s.dec[0])
    val o1 = wide(p1, s.dec[1])
    val p = s.prices
    val total = wide(s.supply, LP_DEC)
    val first = s.supply == 0
    val n1 = c::mul(o1 + w1, p.scale)
    val newD = c::invariantOf(o0 + w0, n1, ampNow(s), gammaNow(s))
    if (first and (d0 == 0 or d1 == 0)) noShares(s, "one_sided_into_empty_pool")
    else if (not(c::solved(newD))) noShares(s, "no_invariant")
    else {
      val i1 = c::mul(w1, p.scale)
      val sum = c::add(w0, i1)
      val lean = c::div(c::mul(c::apart(w0, c::div(sum, c::TWO)), c::feeOf(o0 + w0, n1, s.params.mid, s.params.out, s.params.feeGamma)), sum)
      val lp = if (first) c::over(c::worth(newD, p.scale), wide(MINIMUM_LIQUIDITY, LP_DEC))
               else c::mul(c::over(c::div(c::mul(total, newD), dOf(s, o0, o1)), total), c::sub(E18, lean))
      val part = c::div(lp, c::add(total, lp))
      val off0 = c::apart(w0, c::mul(o0 + w0, part))
      val off1 = c::apart(w1, c::div(c::mul(n1, part), p.scale))
      val s1 = if (first) { ...s, prices: { ...p, real: E18, profit: E18 } } else s
      if (first and (lp == 0 or lp == c::BAD)) noShares(s, "below_minimum_liquidity")
      else if (not(c::solved(lp)) or not(c::solved(off0)) or not(c::solved(off1))) noShares(s, "no_invariant")
      else if (off0 < MIN_TRADE or off1 < MIN_TRADE) { lp: lp, prices: s1.prices, why: "" }
      else {
        // an uneven deposit is a trade
        val limit = if (slip == NONE) DEFAULT_SLIPPAGE else slip
        val v = c::add(w0, i1)
        val ideal = c::div(c::sqrt(c::div(c::mul(c::div(v, c::TWO), v), c::mul(c::TWO, p.scale))), s1.prices.real)
        val lost = c::div(c::over(ideal, lp), ideal)
        if (limit > MAX_SLIPPAGE) noShares(s, "spread_limit_too_high")
        else if (not(c::solved(lost))) noShares(s, "no_invariant")
        else if (lost > limit) noShares(s, "slippage")
        else {
          val r = reprice(s1, total + lp, o0 + w0, n1, c::div(off0, off1))
          if (r.why != "") noShares(s, r.why) else { lp: lp, prices: r.prices, why: "" }
        }
      }
    }
  }
  pure def lpUnits(x: Shares): int = if (x.why != "") NONE else narrow(x.lp, LP_DEC)
  /// one unit of the shares is kept back
  pure def refund(s: State, i: int, lp: int): int =
    if (s.supply == 0) 0 else decMul(wide(pool(s, i), s.dec[i]), ratio(satSub(lp, 1), s.supply))

  // ---- accumulators -------------------------------------------------------------------------------------------

  type Cum = { cum: List[int], ok: bool }
  pure def cumWith(s: State, price: int): Cum = {
    val dt = s.now - s.last
    if (dt <= 0) { cum: s.cum, ok: price != c::BAD }
    else {
      val up = c::mul(price, c::TWAP)
      val down = c::mul(c::div(E18, price), c::TWAP)
      if (not(c::solved(up)) or not(c::solved(down)) or price == 0) { cum: s.cum, ok: false }
      else { cum: [(s.cum[0] + dt * (down / E18)) % U128, (s.cum[1] + dt * (up / E18)) % U128], ok: true }
    }
  }

  // ---- messages -----------------------------------------------------------------------------------------------

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  /// The pool's balances for the books, less gifts (what a trade pays to the pool itself: it counts like a donation)
  pure def recordLess(s: State, gift: List[int]): State =
    if (not(s.track)) s
    else { ...s, hist: [stamp(s.hist[0], s.height, pool(s, 0) - gift[0]), stamp(s.hist[1], s.height, pool(s, 1) - gift[1])] }
  pure def record(s: State): State = recordLess(s, [0, 0])
  pure def mint(s: State, payee: str, n: int): State =
    { ...s, lp: s.lp.set(payee, s.lp.get(payee) + n), supply: s.supply + n }
  /// ("inc" is the incentives contract)
  pure def lpOf(s: State, who: str): int = if (who == "inc") s.staked.keys().fold(0, (n, u) => n + s.staked.get(u)) else s.lp.get(who)
  pure def noted(s: State, who: List[str], supply: int): State =
    if (not(s.track)) s
    else { ...s, lpBook: book::enter(s.lpBook, s.height, who.foldl([], (l, u) => l.append({ who: u, n: lpOf(s, u) })), supply) }

  pure def provide(s: State, m: { who: str, a0: int, a1: int, slip: int, minLp: int, to: str, stake: bool, funds: str }): Next = {
    val sh = sharesFor(s, m.a0, m.a1, pool(s, 0), pool(s, 1), m.slip)
    val lp = lpUnits(sh)
    val cu = cumWith(s, s.prices.last)
    if (m.funds == "mismatch" and s.kinds.select(k => k == "native").length() > 0) refuse(s, "funds_mismatch")
    else if (m.funds == "foreign") refuse(s, "foreign_coin")
    else if (m.funds == "malformed") refuse(s, "malformed_assets")
    else if (s.bal[0].get(m.who) < m.a0 or s.bal[1].get(m.who) < m.a1) refuse(s, "insufficient_balance")
    else if (s.listed == "none") refuse(s, "not_registered")
    else if (sh.why != "") refuse(s, sh.why)
    else if (lp < (if (m.minLp == NONE) 0 else m.minLp)) refuse(s, "min_lp")
    else if (lp == 0) refuse(s, "zero_mint")
    else if (m.stake and (not(s.generator) or s.listed != "own")) refuse(s, "no_incentives_contract")
    else if (not(cu.ok)) refuse(s, "no_price")
    else {
      val paid = pay(pay(s, 0, m.who, "pair", m.a0), 1, m.who, "pair", m.a1)
      val locked = if (s.supply == 0) mint(paid, "pair", MINIMUM_LIQUIDITY) else paid
      val minted = if (m.stake) { ...locked, staked: locked.staked.set(m.to, locked.staked.get(m.to) + lp), supply: locked.supply + lp } else mint(locked, m.to, lp)
      val first = if (s.supply == 0) ["pair"] else []
      val entered = noted(minted, first.concat(if (m.stake) ["pair", "inc"] else [m.to]), minted.supply)
      accept(record({ ...entered, prices: sh.prices, cum: cu.cum, last: max2(s.last, s.now) }))
    }
  }

  pure def withdraw(s: State, m: { who: str, lp: int, min0: int, min1: int, minKind: str, funds: str }): Next = {
    val d0 = refund(s, 0, m.lp)
    val d1 = refund(s, 1, m.lp)
    val r0 = narrow(d0, s.dec[0])
    val r1 = narrow(d1, s.dec[1])
    if (m.funds == "foreign" and s.bal[0].get(m.who) == 0) refuse(s, "insufficient_balance")
    else if (m.funds == "foreign") refuse(s, "not_lp_token")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "imbalanced") refuse(s, "imbalanced_withdrawal")
    else if (m.lp == 0) refuse(s, "no_funds")
    else if (s.lp.get(m.who) < m.lp) refuse(s, "insufficient_balance")
    else if (m.minKind == "one") refuse(s, "min_assets_length")
    else if (m.minKind == "foreign") refuse(s, "min_assets_foreign")
    else if (m.minKind != "none" and (r0 < m.min0 or r1 < m.min1)) refuse(s, "min_assets")
    else if (s.kinds.indices().exists(i => s.kinds[i] == "native" and [r0, r1][i] == 0)) refuse(s, "zero_payout")
    else {
      val d = dOf(s, x0(s) - d0, x1(s) - d1)
      val real = c::div(c::worth(d, s.prices.scale), wide(s.supply - m.lp, LP_DEC))
      if (not(c::solved(real))) refuse(s, "no_invariant")
      else {
        val burnt = { ...s, lp: s.lp.set(m.who, s.lp.get(m.who) - m.lp), supply: s.supply - m.lp, prices: { ...s.prices, real: real } }
        accept(record(pay(pay(noted(burnt, [m.who, "pair"], s.supply), 0, "pair", m.who, r0), 1, "pair", m.who, r1)))
      }
    }
  }

  pure def swap(s: State, m: { who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str }): Next = {
    val j = 1 - m.i
    val dx = wide(m.amount, s.dec[m.i])
    if (m.funds == "foreign") refuse(s, "not_a_pool_asset")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "mismatch") refuse(s, "funds_mismatch")
    else if (s.bal[m.i].get(m.who) < m.amount) refuse(s, "insufficient_balance")
    else if (m.amount == 0) refuse(s, "zero_offer")
    else if (pool(s, 0) == 0 or pool(s, 1) == 0) refuse(s, "empty_pool")
    else {
      val was = spot(s, x0(s), x1(s))
      val q = deal(s, x0(s), x1(s), m.i, dx, makerRate(s), bps(s.share.bps))
      val ret = narrow(q.dy, s.dec[j])
      val spread = narrow(q.spread, s.dec[j])
      val maker = narrow(q.maker, s.dec[j])
      val cut = narrow(q.share, s.dec[j])
      val out = c::add(q.dy, c::add(q.maker, q.share))
      val left = c::sub(if (j == 0) x0(s) else x1(s), out)
      if (not(c::solved(was)) or not(fits(ret)) or not(fits(spread)) or not(c::solved(maker)) or not(c::solved(left))) refuse(s, "no_invariant")
      else {
        val g = priceGuard(m.belief, m.spread, m.amount, ret, spread, DEFAULT_SLIPPAGE, MAX_SLIPPAGE)
        val y0 = if (m.i == 0) x0(s) + dx else left
        val y1 = if (m.i == 1) x1(s) + dx else left
        val r = if (out >= MIN_TRADE and dx >= MIN_TRADE)
                  reprice(s, wide(s.supply, LP_DEC), y0, c::mul(y1, s.prices.scale), priceOf(q, dx, m.i))
                else { prices: s.prices, why: "" }
        val cu = cumWith(s, was)
        if (g != "") refuse(s, g)
        else if (r.why != "") refuse(s, r.why)
        else if (ret == 0 and s.kinds[j] == "native") refuse(s, "zero_payout")
        else if (not(cu.ok)) refuse(s, "no_price")
        else {
          val s1 = pay(s, m.i, m.who, "pair", m.amount)
          val s2 = pay(s1, j, "pair", m.to, ret)
          val s3 = pay(s2, j, "pair", s.share.to, cut)
          val s4 = pay(s3, j, "pair", "maker", maker)
          val flushed = flush(s.series, s.now)
          val series = if (dx >= MIN_TRADE and q.dy >= MIN_TRADE) trade(flushed, if (m.i == 0) m.amount else ret, if (m.i == 0) ret else m.amount, s.now)
                       else flushed
          val gift = if (m.to == "pair") ret else 0
          accept(recordLess({ ...s4, series: series, prices: r.prices, cum: cu.cum, last: max2(s.last, s.now) }, if (j == 0) [gift, 0] else [0, gift]))
        }
      }
    }
  }

  pure def keep(new: int, old: int): int = if (new == NONE) old else new
  pure def outside(v: int, lo: int, hi: int): bool = v != NONE and (v < lo or v > hi)
  pure def tuned(p: Params, m: { who: str, mid: int, out: int, feeGamma: int, threshold: int, step: int, half: int }): { params: Params, why: str } = {
    val mid = keep(m.mid, p.mid)
    val out = keep(m.out, p.out)
    if (outside(m.mid, 5 * 10^13, 10^16) or outside(m.out, 5 * 10^13, 10^16)) { params: p, why: "fee_bounds" }
    else if ((m.mid != NONE or m.out != NONE) and out <= mid) { params: p, why: "fee_order" }
    else if (outside(m.feeGamma, 0, E18) or outside(m.threshold, 0, 10^16) or outside(m.step, 0, E18) or outside(m.half, 1, 7 * DAY)) { params: p, why: "param_bounds" }
    else { params: { mid: mid, out: out, feeGamma: keep(m.feeGamma, p.feeGamma), threshold: keep(m.threshold, p.threshold),
                     step: keep(m.step, p.step), half: keep(m.half, p.half) }, why: "ok" }
  }
  pure def tune(s: State, m: { who: str, mid: int, out: int, feeGamma: int, threshold: int, step: int, half: int }): Next = {
    val r = tuned(s.params, m)
    if (m.who != "owner") refuse(s, "unauthorized")
    else if (r.why != "ok") refuse(s, r.why)
    else accept({ ...s, params: r.params })
  }
  pure def farther(a: int, b: int): bool = decDiv(max2(a, b), min2(a, b)) > 10 * E18
  pure def unusable(amp: int, gamma: int): bool = amp < 10^17 or amp > 10^23 or gamma < 10^10 or gamma > 2 * 10^16
  pure def promote(s: State, m: { who: str, amp: int, gamma: int, at: int }): Next =
    if (m.who != "owner") refuse(s, "unauthorized")
    else if (s.now < s.ramp.t0 + DAY or m.at < s.now + DAY) refuse(s, "too_fast")
    else if (unusable(m.amp, m.gamma)) refuse(s, "curve_bounds")
    else if (farther(m.amp, ampNow(s)) or farther(m.gamma, gammaNow(s))) refuse(s, "too_far")
    else accept({ ...s, ramp: { amp0: ampNow(s), gamma0: gammaNow(s), amp1: m.amp, gamma1: m.gamma, t0: s.now, t1: m.at } })

  pure val CONTRACT = "astroport-pair-concentrated"
  pure val RELEASES = ["4.0.0", "4.0.1", "4.1.0"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Provide(p) => provide(s, p)
    | Withdraw(w) => withdraw(s, w)
    | Swap(w) => swap(s, w)
    | Donate(d) => if (s.bal[d.i].get(d.who) < d.amount or (d.amount == 0 and s.kinds[d.i] == "native")) refuse(s, "insufficient_balance")
                   else accept(pay(s, d.i, d.who, "pair", d.amount))
    | Hand(x) => if (x.lp == 0 or s.lp.get(x.who) < x.lp) refuse(s, "insufficient_balance")
                 else {
                   val given = s.lp.set(x.who, s.lp.get(x.who) - x.lp)
                   accept(noted({ ...s, lp: given.set(x.dest, given.get(x.dest) + x.lp) }, if (x.who == x.dest) [] else [x.who, x.dest], s.supply))
                 }
    | FeeShare(f) =>
        if (f.who != "owner") refuse(s, "unauthorized")
        else if (f.bps == NONE) accept({ ...s, share: { bps: 0, to: "sharee" } })
        else if (f.bps == 0 or f.bps > MAX_FEE_SHARE_BPS) refuse(s, "fee_share_bounds")
        else accept({ ...s, share: { bps: f.bps, to: f.to } })
    | Tune(t) => tune(s, t)
    | Promote(p) => promote(s, p)
    | StopRamp(a) =>
        if (a.who != "owner") refuse(s, "unauthorized")
        else accept({ ...s, ramp: { ...s.ramp, amp1: ampNow(s), gamma1: gammaNow(s), t1: s.now } })
    | SetFees(f) =>
        if (f.who != "owner") refuse(s, "unauthorized")
        else if (f.total > 10000 or f.maker > 10000) refuse(s, "fee_bounds")
        else accept({ ...s, totalFee: f.total, makerFee: f.maker })
    | Register(r) =>
        if (r.on) (if (s.listed == "none") accept({ ...s, listed: "other" }) else refuse(s, "already_listed"))
        else if (r.who != "owner") refuse(s, "unauthorized")
        else if (s.listed == "none") refuse(s, "not_listed")
        else accept({ ...s, listed: "none" })
    | Open(o) =>
        val r = tuned(s.params, { who: o.who, mid: o.params.mid, out: o.params.out, feeGamma: o.params.feeGamma, threshold: o.params.threshold,
                                  step: o.params.step, half: o.params.half })
        if (wrongAssets(o.shape, true) != "") refuse(s, wrongAssets(o.shape, true))
        else if (o.bare) refuse(s, "no_parameters")
        else if (o.scale == 0) refuse(s, "no_price")
        else if (r.why != "ok") refuse(s, r.why)
        else if (unusable(o.amp, o.gamma)) refuse(s, "curve_bounds")
        else accept(s)
    | Wait(w) => accept({ ...s, now: s.now + w.seconds, height: s.height + w.blocks })
    | Created => accept(s)
  }

  pure def earlier(l: List[Mark], h: int): int = l.foldl(NONE, (acc, m) => if (m.t < h) m.v else acc)
  pure def orNone(n: int): int = if (n == c::BAD) NONE else n
  pure def look(s: State, n0: int, n1: int, skew: int, slip: int, ago: int, h: int, lpWho: str): Probe = {
    val a0 = if (skew < -9) 0 else n0
    val a1 = if (skew > 9) 0 else n1
    val cu = if (pool(s, 0) == 0 or pool(s, 1) == 0) { cum: [], ok: false } else cumWith(s, spot(s, x0(s), x1(s)))
    val d = dOf(s, x0(s), x1(s))
    { amount: [n0, n1], sim: [quote(s, 0, n0), quote(s, 1, n1)], rev: [reverseQuote(s, 0, n1), reverseQuote(s, 1, n0)],
      share: [narrow(refund(s, 0, n0), s.dec[0]), narrow(refund(s, 1, n0), s.dec[1])],
      provide: { a0: a0, a1: a1, slip: slip, lp: if (s.listed == "none") NONE else lpUnits(sharesFor(s, a0, a1, pool(s, 0), pool(s, 1), slip)) },
      cumAt: if (cu.ok) cu.cum else [NONE, NONE], d: if (pool(s, 0) == 0 or pool(s, 1) == 0) NONE else orNone(d),
      lpPrice: if (s.supply == 0) 0 else orNone(c::div(c::worth(d, s.prices.scale), wide(s.supply, LP_DEC))),
      amp: ampNow(s), gamma: gammaNow(s), observe: { ago: ago, price: observe(s.series, s.now, ago) },
      at: { h: h, v: if (s.track) [earlier(s.hist[0], h), earlier(s.hist[1], h)] else [NONE, NONE] },
      lpAt: { who: lpWho, h: h, v: if (s.track) book::held(s.lpBook, lpWho, h, s.height) else NONE,
              supply: if (s.track) book::total(s.lpBook, h, s.height) else NONE } }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  /// where accumulators start: they wrap around at the end of their range
  pure val ENDS = [0, 0, 0, 0, U128 - 1, U128 - 10^10, U128 - 10^16]
  pure val T0 = 1600000000
  pure val H0 = 1000
  pure def part(n: int, e: int, f: int): int = n * f / (1000 * 10^e)
  /// value of a share at scale `p`
  pure def worthPerShare(s: State, scale: int): int =
    if (s.supply == 0 or pool(s, 0) == 0 or pool(s, 1) == 0) 0
    else c::div(c::worth(c::invariantOf(x0(s), c::mul(x1(s), scale), ampNow(s), gammaNow(s)), scale), wide(s.supply, LP_DEC))

  action perform(m: Msg): bool = {
    nondet e = 0.to(8).oneOf()
    nondet f = 1.to(1100).oneOf()
    nondet skew = (-12).to(12).oneOf()
    nondet ago_ = RND.oneOf()
    nondet h_ = RND.oneOf()
    nondet lpWho_ = RND.oneOf()
    nondet slip = Set(NONE, 0, 10^15, 5 * 10^16, 5 * 10^17, 5 * 10^17 + 1).oneOf()
    val past = if (st.series.obs.length() == 0) 100 else st.now - st.series.obs[0].ts + 2
    val ago = if (ago_ % 5 == 0) pick([0, 1, 6, past, past - 1, past - 2, past - 3], ago_ / 5) else ago_ * past / 10000
    val r = exec(st, m)
    val p0 = pool(r.s, 0)
    val p1 = pool(r.s, 1)
    val n0 = part(if (p0 == 0) 10^r.s.dec[0] else p0, e, f)
    val n1 = part(if (p1 == 0) 10^r.s.dec[1] else p1, e, f)
    val h = if (h_ % 3 == 0) r.s.height + 1 - h_ % 4 else H0 - 1 + h_ % (r.s.height - H0 + 3)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, n0, n1, skew, slip, max2(0, ago), h, pick(HOLDERS, lpWho_)),
          prior' = { worth: worthPerShare(st, st.prices.scale), prices: st.prices, ramping: st.now < st.ramp.t1 } }
  }

  pure val NO_PRIOR = { worth: 0, prices: { oracle: E18, last: E18, scale: E18, seen: 0, profit: 0, real: 0 }, ramping: false }
  action init = {
    nondet cum0_ = RND.oneOf()
    nondet cum1_ = RND.oneOf()
    nondet k0 = Set("native", "cw20").oneOf()
    nondet k1 = Set("native", "cw20").oneOf()
    nondet d_ = RND.oneOf()
    nondet flags = 0.to(15).oneOf()
    nondet total_ = RND.oneOf()
    nondet mfee = Set(0, 1, 3333, 5000, 10000).oneOf()
    nondet rich = 1.to(8).oneOf()
    nondet scale_ = 1.to(9999).oneOf()
    nondet zoom = 0.to(5).oneOf()
    nondet curve_ = RND.oneOf()
    nondet fee_ = RND.oneOf()
    nondet peg_ = RND.oneOf()
    nondet cap_ = RND.oneOf()
    // now and then a coin of many digits worth next to nothing, whose price has no digits left
    val worthless = cap_ % 13 == 0
    val dec = if (worthless) [6, 18] else [pick([6, 6, 6, 8, 18], d_), pick([6, 6, 3, 18, 9], d_ / 10)]
    val scale = if (worthless) (1 + scale_ % 5) * 10^12 else if (scale_ % 3 == 0) E18 else scale_ * 10^(12 + zoom)
    val wealth = [ACCOUNTS.mapBy(a => if (USERS.contains(a)) 10^(rich + dec[0]) else 0),
                  ACCOUNTS.mapBy(a => if (USERS.contains(a)) 1 + 10^(rich + dec[1]) * E18 / scale else 0)]
    val s: State = {
      listed: "own",
      kinds: [k0, k1], dec: dec, generator: flags % 2 == 0, maker: flags > 3, track: flags / 2 % 2 == 0, bal: wealth,
      lp: ACCOUNTS.mapBy(_ => 0), staked: ACCOUNTS.mapBy(_ => 0), supply: 0, totalFee: pick([0, 30, 100], total_), makerFee: mfee, share: { bps: 0, to: "sharee" },
      params: { mid: pick([5 * 10^13, 26 * 10^14, 26 * 10^14, 5 * 10^15], fee_), out: pick([45 * 10^14, 45 * 10^14, 10^16, 10^16], fee_),
                feeGamma: pick([230000000000000, 230000000000000, 10^10, 10^16, E18, 0], fee_ / 10),
                threshold: pick([2 * 10^12, 2 * 10^12, 0, 10^15], peg_), step: pick([146 * 10^12, 146 * 10^12, 146 * 10^12, 0, 10^16, E18], peg_ / 10),
                half: pick([600, 600, 1, 10000, 604800], peg_ / 100) },
      ramp: { amp0: 0, gamma0: 0, amp1: pick([40, 40, 10, 1, 400, 5000, 100000], curve_) * E18, gamma1: pick([145 * 10^12, 145 * 10^12, 10^15, 10^12, 10^10, 2 * 10^16], curve_ / 10), t0: 0, t1: T0 },
      prices: { oracle: scale, last: scale, scale: scale, seen: T0, profit: 0, real: 0 },
      cum: [pick(ENDS, cum0_), pick(ENDS, cum1_)], last: T0, now: T0, height: H0, series: { ...NO_SERIES, cap: pick([3000, 3000, 3, 4, 7], cap_) },
      hist: if (flags / 2 % 2 == 0) [[{ t: H0, v: 0 }], [{ t: H0, v: 0 }]] else [[], []], lpBook: book::empty(ACCOUNTS.union(Set("inc"))) }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 1000, 1000, 0, NONE, 0, H0, "alice"), prior' = NO_PRIOR }
  }

  action doProvide = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet e = 0.to(6).oneOf()
    nondet f = 1.to(900).oneOf()
    nondet skew = 0.to(2000).oneOf()
    nondet shape_ = RND.oneOf()
    val shape = pick(["any", "any", "first", "second", "even", "even", "any", "any", "first", "second", "even", "even", "neither"], shape_)
    nondet minMode_ = RND.oneOf()
    val minMode = pick(["none", "none", "exact", "above", "below"], minMode_)
    nondet stake_ = RND.oneOf()
    val stake = pick([false, false, false, true], stake_)
    nondet slip_ = RND.oneOf()
    val slip = pick([NONE, NONE, 5 * 10^17, 5 * 10^17, 5 * 10^17, 0, 10^14, 10^15, 3 * 10^15, 5 * 10^16, 5 * 10^17 + 1], slip_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "malformed"], funds_)
    nondet small_ = RND.oneOf()
    // a first deposit about as big as the liquidity that stays locked
    val small = st.supply == 0 and small_ < 2500
    val b0 = if (small) narrow(c::mul(wide(600 + 2 * f, LP_DEC), c::sqrt(st.prices.scale)), st.dec[0]) else part(st.bal[0].get(who), e, f)
    val fit = if (pool(st, 0) == 0) 0 else b0 * pool(st, 1) / pool(st, 0)
    val b1 = min2(if (small) narrow(c::div(wide(600 + 2 * f, LP_DEC), c::sqrt(st.prices.scale)), st.dec[1]) else if (shape == "even") fit else part(st.bal[1].get(who), e, f * skew / 1000), st.bal[1].get(who))
    val a0 = if (shape == "second" or shape == "neither") 0 else b0
    val a1 = if (shape == "first" or shape == "neither") 0 else b1
    val q = lpUnits(sharesFor(st, a0, a1, pool(st, 0), pool(st, 1), slip))
    val minLp = if (minMode == "exact") max2(q, 0) else if (minMode == "above") max2(q, 0) + 1
                else if (minMode == "below") max2(q - 1, 0) else NONE
    perform(Provide({ who: who, a0: a0, a1: a1, slip: slip, minLp: minLp, to: payee, stake: stake, funds: funds }))
  }
  action doWithdraw = {
    nondet who_ = RND.oneOf()
    val holders = NAMES.select(u => st.lp.get(u) > 0)
    val who = if (who_ < 500 or holders.length() == 0) pick(NAMES, who_) else pick(holders, who_)
    nondet e = 0.to(5).oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet kind_ = RND.oneOf()
    val kind = pick(["none", "none", "none", "none", "both", "both", "swapped", "swapped", "one", "foreign"], kind_)
    nondet d0_ = RND.oneOf()
    val d0 = pick([-1, 0, 0, 0, 1], d0_)
    nondet d1_ = RND.oneOf()
    val d1 = pick([-1, 0, 0, 0, 1], d1_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "foreign", "imbalanced", "extra"], funds_)
    nondet all_ = RND.oneOf()
    val lp = if (all_ % 4 == 0) st.lp.get(who) else part(st.lp.get(who), e, f)
    val r0 = narrow(refund(st, 0, lp), st.dec[0])
    val r1 = narrow(refund(st, 1, lp), st.dec[1])
    perform(Withdraw({ who: who, lp: lp, min0: max2(0, r0 + d0), min1: max2(0, r1 + d1), minKind: kind, funds: funds }))
  }
  action doSwap = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet i = Set(0, 1).oneOf()
    nondet e = 0.to(6).oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet spread_ = RND.oneOf()
    val limit = pick([EXACT, EXACT, SHORT, NONE, 0, 10^15, 5 * 10^16, 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17 + 1], spread_)
    nondet bk_ = RND.oneOf()
    val bk = pick(["none", "none", "none", "none", "none", "tight", "tight", "fair", "loose", "zero", "odd"], bk_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "extra"], funds_)
    val most = min2(st.bal[i].get(who), max2(1000, pool(st, i)))
    val n = min2(max2(if (f < 20) 0 else 1, part(most, e, f)), 2 * most)
    val q = quote(st, i, n)
    val market = if (i == 0) st.prices.oracle * 10^st.dec[0] / 10^st.dec[1] else E18 * 10^st.dec[1] / 10^st.dec[0] * E18 / st.prices.oracle
    val belief = if (bk == "none") NONE else if (bk == "zero") 0 else if (bk == "fair") market
                 else if (bk == "tight") (if (q.ret > 0) ratio(n, q.ret) else market)
                 else if (bk == "loose") market * 2 else market * 99 / 100
    val spread = limitAt(limit, if (q.ret >= 0) shortfall(min2(belief, U128 - 1), n, q.ret, q.spread) else 0)
    perform(Swap({ who: who, i: i, amount: n, belief: min2(belief, U128 - 1), spread: spread, to: payee, funds: funds }))
  }
  action doHand = {
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet e = 0.to(3).oneOf()
    nondet f = 1.to(1100).oneOf()
    val holders = NAMES.select(u => st.lp.get(u) > 0)
    val who = if (holders.length() == 0) "alice" else pick(holders, who_)
    perform(Hand({ who: who, dest: pick(PAYEES, dest_), lp: part(st.lp.get(who), e, f) }))
  }
  action doDonate = {
    nondet who = USERS.oneOf()
    nondet i = Set(0, 1).oneOf()
    nondet e = 1.to(8).oneOf()
    nondet f = 1.to(1000).oneOf()
    perform(Donate({ who: who, i: i, amount: part(st.bal[i].get(who), e, f) }))
  }
  action doFeeShare = {
    nondet who_ = RND.oneOf()
    nondet b = Set(NONE, 0, 1, 500, 999, 1000, 1001).oneOf()
    nondet off_ = RND.oneOf()
    nondet payee = Set("sharee", "carol").oneOf()
    perform(FeeShare({ who: pick(["owner", "owner", "owner", "alice"], who_), bps: if (st.share.bps > 0 and off_ % 2 == 0) NONE else b, to: payee }))
  }
  action doTune = {
    nondet who_ = RND.oneOf()
    nondet mid_ = RND.oneOf()
    nondet out_ = RND.oneOf()
    nondet fg_ = RND.oneOf()
    nondet th_ = RND.oneOf()
    nondet step_ = RND.oneOf()
    nondet half_ = RND.oneOf()
    perform(Tune({ who: pick(["owner", "owner", "owner", "owner", "owner", "alice"], who_),
                   mid: pick([NONE, NONE, NONE, 5 * 10^13, 5 * 10^13 - 1, 3 * 10^15, st.params.out, 10^16, 10^16 + 1], mid_),
                   out: pick([NONE, NONE, NONE, 10^16, 10^16, 10^16 + 1, st.params.mid, st.params.mid + 1, 6 * 10^15], out_),
                   feeGamma: pick([NONE, NONE, NONE, 10^12, 230000000000000, 10^17, E18, E18 + 1, 0], fg_),
                   threshold: pick([NONE, NONE, NONE, 0, 2 * 10^12, 10^14, 10^16, 10^16 + 1], th_),
                   step: pick([NONE, NONE, NONE, 0, 10^14, 10^15, E18, E18 + 1], step_),
                   half: pick([NONE, NONE, NONE, 1, 0, 600, 7 * DAY, 7 * DAY + 1], half_) }))
  }
  action doPromote = {
    nondet who_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    nondet wait = Set(86399, 86400, 86400, 86401, 200000, 604800).oneOf()
    val amp = ampNow(st)
    val gamma = gammaNow(st)
    perform(Promote({ who: pick(["owner", "owner", "owner", "owner", "owner", "alice"], who_),
                      amp: pick([amp, amp, amp * 10, amp * 10 + 1, amp / 10, amp / 10 + 1, amp * 3, amp / 3, amp * 2, 10^17, 10^17 - 1, 10^23, 10^23 + 1], a_),
                      gamma: pick([gamma, gamma, gamma * 10, gamma * 10 + 1, gamma / 10, gamma / 10 + 1, gamma * 3, gamma / 3, gamma * 2, 10^10, 10^10 - 1, 2 * 10^16, 2 * 10^16 + 1], g_),
                      at: st.now + wait }))
  }
  action doStop = {
    nondet who_ = RND.oneOf()
    perform(StopRamp({ who: pick(["owner", "owner", "owner", "alice"], who_) }))
  }
  action doSetFees = {
    nondet who_ = RND.oneOf()
    nondet m = Set(0, 1, 1234, 5000, 10000, 10001).oneOf()
    perform(SetFees({ who: pick(["owner", "owner", "owner", "alice"], who_), total: 30, maker: m }))
  }
  action doWait = {
    nondet sec = Set(0, 1, 6, 60, 600, 3600, 43200, 86400, 100000).oneOf()
    nondet blk_ = RND.oneOf()
    perform(Wait({ seconds: sec, blocks: pick([0, 1, 1, 2, 5], blk_) }))
  }
  action doRegister = {
    nondet who_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val on = if (st.listed == "none") k_ % 4 > 0 else k_ % 4 == 0
    perform(Register({ who: if (on) pick(["alice", "bob", "owner"], who_) else pick(["owner", "owner", "alice"], who_), on: on }))
  }
  action doOpen = {
    nondet who = USERS.oneOf()
    nondet shape_ = RND.oneOf()
    nondet bare_ = RND.oneOf()
    nondet track = Set(true, false).oneOf()
    nondet odd_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet amp = Set(10^17, 4 * 10^18, 40 * 10^18, 10^23).oneOf()
    nondet gamma = Set(10^10, 145000000000000, 2 * 10^16).oneOf()
    val p = st.params
    // one value at a bound or beyond
    val odd = odd_ % 16
    val beyond = k_ % 2
    perform(Open({ who: who, shape: pick(SHAPES, shape_), bare: bare_ % 10 == 0, track: track,
                   params: { mid: if (odd == 0) 5 * 10^13 - beyond else if (odd == 1) p.out - 1 + beyond else p.mid,
                             out: if (odd == 2) 10^16 + beyond else if (odd == 3) p.mid + 1 - beyond else p.out,
                             feeGamma: if (odd == 4) E18 + beyond else if (odd == 5) 0 else p.feeGamma,
                             threshold: if (odd == 6) 10^16 + beyond else if (odd == 7) 0 else p.threshold,
                             step: if (odd == 8) E18 + beyond else if (odd == 9) 0 else p.step,
                             half: if (odd == 10) 1 - beyond else if (odd == 11) 7 * DAY + beyond else p.half },
                   scale: if (odd == 12) 1 - beyond else st.prices.scale,
                   amp: if (odd == 13) 10^17 - beyond else if (odd == 14) 10^23 + beyond else amp,
                   gamma: if (odd == 15) (if (k_ % 3 == 0) 10^10 - beyond else 2 * 10^16 + beyond) else gamma }))
  }
  action configure = any { doFeeShare, doFeeShare, doSetFees, doTune, doPromote, doPromote, doStop, doDonate, doHand, doOpen, doRegister }
  action step = any { doProvide, doWithdraw, doSwap, doSwap, doSwap, doSwap, doWait, doWait, configure }
  /// a first deposit near the scale price
  action seed = {
    nondet e0 = 0.to(3).oneOf()
    nondet f0 = 1.to(900).oneOf()
    nondet f1 = 600.to(1600).oneOf()
    nondet fair = Set(true, true, false).oneOf()
    nondet least_ = RND.oneOf()
    nondet lack_ = RND.oneOf()
    val a0 = part(st.bal[0].get("alice"), e0, f0)
    val a1 = min2(st.bal[1].get("alice"), (if (fair) 1000 else f1) * part(st.bal[1].get("alice"), e0, f0) / 1000 + 1)
    // now and then without one of the coins
    val b0 = if (lack_ % 16 == 0 or lack_ % 16 == 1) 0 else a0
    val b1 = if (lack_ % 16 == 1 or lack_ % 16 == 2) 0 else a1
    val q = lpUnits(sharesFor(st, b0, b1, pool(st, 0), pool(st, 1), NONE))
    perform(Provide({ who: "alice", a0: b0, a1: b1, slip: NONE, minLp: pick([NONE, NONE, NONE, max2(q, 0), max2(q, 0) + 1, max2(q - 1, 0), q + MINIMUM_LIQUIDITY], least_),
                      to: "alice", stake: lack_ % 16 == 3, funds: "exact" }))
  }
  action go = if (st.supply == 0) any { seed, seed, seed, seed, step } else step
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }
  /// trading only, to let the scale move
  action market = if (st.supply == 0) seed else any { doSwap, doSwap, doSwap, doSwap, doSwap, doWait, doWait, doWait, doProvide, doWithdraw, doPromote, doDonate }

  /// trading, for the record of its prices
  action flurry = if (st.supply == 0) seed else any { doSwap, doSwap, doSwap, doSwap, doSwap, doWait, doWait, doWait, doProvide }

  /// the owner's levers
  action rule = if (st.supply == 0) any { seed, seed, doPromote, doTune }
                else any { doTune, doTune, doTune, doPromote, doPromote, doPromote, doStop, doFeeShare, doOpen, doOpen, doWait, doWait, doWait, doWait, doSwap, doSwap }

  // ---- properties ---------------------------------------------------------------------------------------------

  pure def total(m: str -> int): int = m.keys().fold(0, (acc, k) => acc + m.get(k))
  val nonNegative = [0, 1].indices().forall(i => st.bal[i].keys().forall(a => st.bal[i].get(a) >= 0))
  val lpBacked = st.supply == total(st.lp) + total(st.staked) and (st.supply > 0 implies st.lp.get("pair") >= MINIMUM_LIQUIDITY)
  /// a trade that counts never costs the providers anything at the price before it, save the ramp's own effect
  val noLoss = match msg {
    | Swap(w) => res == "ok" and not(prior.ramping) and wide(w.amount, st.dec[w.i]) >= MIN_TRADE and st.prices.seen == st.now implies st.prices.scale != prior.prices.scale or st.prices.real >= prior.prices.real
    | _ => true
  }
  /// moving the scale takes it towards the oracle, never past it (but for what rounding a tiny gap does), and leaves the
  /// providers half of all they earned
  val slack = 1 + 3 * E18 / max2(1, c::apart(c::div(st.prices.oracle, prior.prices.scale), E18))
  val scaleFollows = st.prices.scale == prior.prices.scale or (
    2 * st.prices.real > st.prices.profit + E18 and
    (if (st.prices.oracle >= prior.prices.scale) st.prices.scale + slack >= prior.prices.scale and st.prices.scale <= st.prices.oracle + slack
     else st.prices.scale <= prior.prices.scale + slack and st.prices.scale + slack >= st.prices.oracle))
  val paramsInBounds = st.params.mid >= 5 * 10^13 and st.params.out > st.params.mid and st.params.out <= 10^16 and ampNow(st) >= 10^17 - 10 and ampNow(st) <= 10^23 and gammaNow(st) >= 10^10 - 10 and gammaNow(st) <= 2 * 10^16
  val Safe = nonNegative and lpBacked and noLoss and (msg == Created or scaleFollows) and paramsInBounds
}
