// -*- mode: Bluespec; -*-
/// What several kinds of pool share: price guards, withdrawals, and the time series of trade prices.
module pools {
  import math.* from "./math"

  pure val U128 = 2^128
  pure val MINIMUM_LIQUIDITY = 1000

  /// The smallest limit under which a trade goes through: how far its return falls short of what was expected.
  /// `gross` is the return before fees; decimals in 1e-18. -1: cannot be told.
  pure def shortfall(belief: int, offer: int, gross: int, spread: int): int =
    if (belief != NONE) {
      val expected = if (belief == 0) U128 else mulDec(offer, decDiv(E18, belief))
      if (expected >= U128) NONE else if (gross < expected) ratio(expected - gross, expected) else 0
    }
    else if (gross + spread == 0) NONE else ratio(spread, gross + spread)

  /// "" or why a trade is refused
  pure def priceGuard(belief: int, maxSpread: int, offer: int, gross: int, spread: int, defaultSpread: int, maxAllowed: int): str = {
    val limit = if (maxSpread == NONE) defaultSpread else maxSpread
    val short = shortfall(belief, offer, gross, spread)
    if (limit > maxAllowed) "spread_limit_too_high"
    else if (belief == 0) "zero_belief_price"
    else if (short == NONE) (if (belief != NONE) "overflow" else "nothing_to_compare")
    else if (short > limit) "max_spread" else ""
  }

  // limits that stand exactly where the trade falls, or just below
  pure val EXACT = -2
  pure val SHORT = -3
  pure def limitAt(limit: int, short: int): int = if (limit >= NONE) limit else max2(0, if (limit == EXACT) short else short - 1)

  pure def refundOf(poolAmount: int, lp: int, supply: int): int =
    if (supply == 0) 0 else mulDec(poolAmount, ratio(lp, supply))

  // ---- opening pools -------------------------------------------------------------------------------------------
  // Anyone may make a pool without the factory. Its assets are the pool's own, or: one of them, with a third, the
  // first twice, with a coin that is not registered, with a token that cannot be one, none.

  pure val SHAPES = ["fine", "fine", "fine", "fine", "swapped", "one", "three", "doubled", "stranger", "unreadable", "none"]
  /// "" or why these assets do not make a pool; `known`: decimals must be known
  pure def wrongAssets(shape: str, known: bool): str =
    if (shape == "unreadable") "no_such_asset"
    else if (shape == "doubled") "doubling"
    else if (Set("one", "three", "none").contains(shape)) "exactly_two"
    else if (shape == "stranger" and known) "unregistered" else ""

  // ---- trade price observations --------------------------------------------------------------------------------
  // One observation per block with trades, written by the first trade that comes after it; `pending` is the block's
  // trades so far. The last `cap` observations are kept (3000, but a test may start with less), and their moving average.

  type Obs = { ts: int, price: int, sma: int }
  type Series = { obs: List[Obs], pending: { base: int, quote: int, ts: int }, cap: int }    // ts = -1: nothing pending
  pure val NO_SERIES: Series = { obs: [], pending: { base: 0, quote: 0, ts: NONE }, cap: 3000 }

  /// base per quote; what was given away for nothing has no price
  pure def rate(base: int, quote: int): int = if (quote == 0) U128 else ratio(base, quote)
  /// Writes the pending trades, if their block has not been written yet.
  pure def flush(x: Series, now: int): Series = {
    val p = x.pending
    if (p.ts == NONE) x
    else {
      val price = rate(p.base, p.quote)
      val n = x.obs.length()
      if (price >= U128) x                  // a price that cannot be represented is not recorded
      else if (n == 0) {
        if (now > p.ts) { ...x, obs: [{ ts: p.ts, price: price, sma: price }] } else x
      } else if (x.obs[n - 1].ts < p.ts) {
        if (n < x.cap) { ...x, obs: x.obs.append({ ts: p.ts, price: price, sma: (x.obs[n - 1].sma * n + price) / (n + 1) }) }
        else {
          // the oldest makes room (what rounding has taken from the average must not take it below zero)
          val sma = satSub(x.obs[n - 1].sma * n + price, x.obs[0].price) / n
          { ...x, obs: x.obs.slice(1, n).append({ ts: p.ts, price: price, sma: sma }) }
        }
      } else x
    }
  }
  pure def trade(x: Series, base: int, quote: int, now: int): Series =
    if (x.pending.ts == now)
      { ...x, pending: { base: x.pending.base + base, quote: x.pending.quote + quote, ts: now } }
    else { ...x, pending: { base: base, quote: quote, ts: now } }

  /// The moving average `ago` seconds ago, interpolated between observations; -1 when it is not known.
  pure def observe(x: Series, now: int, ago: int): int = {
    val target = now - ago
    val n = x.obs.length()
    if (target < 0) NONE
    else if (n == 0) {
      if (x.pending.ts != NONE and x.pending.ts <= target and rate(x.pending.base, x.pending.quote) < U128) rate(x.pending.base, x.pending.quote) else NONE
    } else if (target >= x.obs[n - 1].ts) x.obs[n - 1].sma
    else if (target < x.obs[0].ts) NONE
    else {
      val i = x.obs.indices().fold(0, (acc, k) => if (x.obs[k].ts <= target) max2(acc, k) else acc)
      val l = x.obs[i]
      val r = x.obs[i + 1]
      if (l.ts == target or l.sma == r.sma) l.sma
      else {
        val gap = if (l.sma > r.sma) l.sma - r.sma else r.sma - l.sma
        val move = decMul(decMul(gap, ratio(1, r.ts - l.ts)), (target - l.ts) * E18)
        if (l.sma > r.sma) l.sma - move else l.sma + move
      }
    }
  }
}
